// error: E0597
use kserd::{nav::Navigator, *};
fn main() {
    let found = {
        let k = Kserd::new(Value::Seq(vec![Kserd::new_unit()]));
        let n = Navigator::new(&k);
        let x = n.nodes().last().map(|x| x.kserd());
        x
    };
    println!("{:?}", found);
}
