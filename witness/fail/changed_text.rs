// error: E0502
use kserd::*;
fn main() {
    let mut k = Kserd::new_string("a".into());
    let s = k.str();
    k.str_mut().unwrap().push('b');
    println!("{:?}", s);
}
