// error: E0499
use kserd::*;
fn main() {
    let mut k = Kserd::new(Value::Seq(vec![Kserd::new_unit()]));
    let a = k.seq_mut().unwrap();
    let b = k.seq_mut().unwrap();
    a.clear();
    b.push(Kserd::new_unit());
}
