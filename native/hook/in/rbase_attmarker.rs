use super::*;
pub(crate) fn mk(c: i16, s: i16, w: f32) -> AttMarker { AttMarker { color: Color::from_i16(c), style: s, width: w } }
pub(crate) fn parts(a: &AttMarker) -> (i16, i16, f32) { (a.color.to_i16(), a.style, a.width) }
