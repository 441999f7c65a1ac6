pub mod comb;
pub mod misc;
pub mod oid;
pub mod parse;
pub mod prog;
pub mod ser;
pub mod util;
pub mod values;
pub mod views;
use crate::rt::Check;
pub fn all() -> Vec<&'static dyn Check> {
    vec![
        &parse::C01, &parse::C02, &parse::C03, &parse::C04, &parse::C05, &parse::C06, &parse::C07, &parse::C08,
        &values::C09, &values::C10, &values::C11,
        &ser::C12, &ser::C13,
        &comb::C14, &comb::C15, &comb::C16, &comb::C22,
        &views::C17, &views::C18, &views::C23,
        &misc::C20, &misc::C24, &misc::C25,
    ]
}
