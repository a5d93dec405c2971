use kserd::*;
fn make(s: &[u8]) -> Kserd<'static> {
    Kserd::new_barr(s).into_owned()
}
fn main() {
    make(&[1]);
}
