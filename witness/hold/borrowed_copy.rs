use kserd::*;
fn main() {
    let k = Kserd::new_string("a".into());
    let b = k.mk_brw();
    let c = b.into_owned();
    drop(k);
    drop(c);
}
