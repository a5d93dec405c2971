use kserd::*;
fn make(s: &str) -> Kserd<'static> {
    Kserd::new_str(s).into_owned()
}
fn main() {
    make("a");
}
