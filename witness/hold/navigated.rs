use kserd::{nav::Navigator, *};
fn main() {
    let mut k = Kserd::new(Value::Seq(vec![Kserd::new_unit()]));
    let n = Navigator::new(&k).len();
    k.val = Value::Unit;
    println!("{}", n);
}
