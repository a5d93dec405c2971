// error: E0597
use kserd::*;
fn main() {
    let s: &str = {
        let text = String::from("abc");
        let k = Kserd::new_str(&text);
        k.decode().unwrap()
    };
    println!("{}", s);
}
