// error: E0506
use kserd::{fmt::*, *};
fn main() {
    let mut k = Kserd::new(Value::Seq(vec![Kserd::new_unit()]));
    let f = Formatter::new(&k);
    k.val = Value::Unit;
    println!("{}", f.write_string(String::new()));
}
