use kserd::*;
fn main() {
    let mut k = Kserd::new_string("a".into());
    k.str_mut().unwrap().push('b');
    let s = k.str();
    println!("{:?}", s);
}
