use kserd::*;
fn main() {
    let mut k = Kserd::new(Value::Seq(vec![Kserd::new_unit()]));
    k.seq_mut().unwrap().clear();
    k.seq_mut().unwrap().push(Kserd::new_unit());
}
