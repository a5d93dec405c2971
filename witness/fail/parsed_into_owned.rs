// error: E0597
use kserd::*;
fn main() {
    let k = {
        let text = String::from("\"hello\"");
        parse::parse(&text).unwrap()
    };
    assert!(k.str().is_some());
}
