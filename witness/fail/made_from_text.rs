// error: lifetime
use kserd::*;
fn make(s: &str) -> Kserd<'static> {
    Kserd::new_str(s)
}
fn main() {
    make("a");
}
