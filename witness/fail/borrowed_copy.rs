// error: E0505
use kserd::*;
fn main() {
    let k = Kserd::new_string("a".into());
    let b = k.mk_brw();
    drop(k);
    drop(b);
}
