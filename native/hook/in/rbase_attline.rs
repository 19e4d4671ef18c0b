use super::*;
pub(crate) fn mk(c: i16, s: i16, w: i16) -> AttLine { AttLine { color: Color::from_i16(c), style: s, width: w } }
pub(crate) fn parts(a: &AttLine) -> (i16, i16, i16) { (a.color.to_i16(), a.style, a.width) }
