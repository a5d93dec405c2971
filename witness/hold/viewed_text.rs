use kserd::*;
fn main() {
    let mut k = Kserd::new_string("a".into());
    let s = k.str().map(String::from);
    k.val = Value::Unit;
    println!("{:?}", s);
}
