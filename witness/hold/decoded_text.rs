use kserd::*;
fn main() {
    let text = String::from("abc");
    let s: &str = {
        let k = Kserd::new_str(&text);
        k.decode().unwrap()
    };
    println!("{}", s);
}
