use kserd::{fmt::*, *};
fn main() {
    let mut k = Kserd::new(Value::Seq(vec![Kserd::new_unit()]));
    let s = Formatter::new(&k).write_string(String::new());
    k.val = Value::Unit;
    println!("{}", s);
}
