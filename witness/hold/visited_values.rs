use kserd::{nav::Navigator, *};
fn main() {
    let k = Kserd::new(Value::Seq(vec![Kserd::new_unit()]));
    let found = {
        let n = Navigator::new(&k);
        let x = n.nodes().last().map(|x| x.kserd());
        x
    };
    println!("{:?}", found);
}
