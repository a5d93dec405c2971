// error: lifetime
use kserd::*;
fn make(s: &[u8]) -> Kserd<'static> {
    Kserd::new_barr(s)
}
fn main() {
    make(&[1]);
}
