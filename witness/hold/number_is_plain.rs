// error: E0277,E0382
use kserd::*;
fn plain<T: Copy + 'static>(_: T) {}
fn lasting<T: 'static>() {}
fn main() {
    plain(Number::from(1u8));
    lasting::<parse::Error>();
    lasting::<encode::Encoder>();
    lasting::<ToKserdErr>();
}
