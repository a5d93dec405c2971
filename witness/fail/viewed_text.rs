// error: E0506
use kserd::*;
fn main() {
    let mut k = Kserd::new_string("a".into());
    let s = k.str();
    k.val = Value::Unit;
    println!("{:?}", s);
}
