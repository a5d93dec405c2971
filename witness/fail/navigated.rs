// error: E0506
use kserd::{nav::Navigator, *};
fn main() {
    let mut k = Kserd::new(Value::Seq(vec![Kserd::new_unit()]));
    let n = Navigator::new(&k);
    k.val = Value::Unit;
    println!("{}", n.len());
}
