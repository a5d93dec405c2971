use kserd::*;
fn main() {
    let k: Kserd<'static> = {
        let text = String::from("\"hello\"");
        parse::parse(&text).unwrap().into_owned()
    };
    assert!(k.str().is_some());
}
