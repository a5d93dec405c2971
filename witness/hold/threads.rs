// error: E0277
use kserd::{ds::*, encode::*, fmt::*, nav::*, *};
fn shared<T: Send + Sync>() {}
fn main() {
    shared::<Kserd>();
    shared::<Value>();
    shared::<Number>();
    shared::<Kstr>();
    shared::<Barr>();
    shared::<Accessor<&'static Kserd>>();
    shared::<InvalidId>();
    shared::<InvalidFieldName>();
    shared::<IntoIntError>();
    shared::<ToKserdErr>();
    shared::<Navigator>();
    shared::<Node>();
    shared::<Formatter>();
    shared::<FormattingConfig>();
    shared::<FmtError>();
    shared::<Decoder>();
    shared::<parse::Error>();
}
