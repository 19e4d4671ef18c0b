use super::*;
pub(crate) fn mk(c: i16, s: i16) -> AttFill { AttFill { color: Color::from_i16(c), style: s } }
pub(crate) fn parts(a: &AttFill) -> (i16, i16) { (a.color.to_i16(), a.style) }
