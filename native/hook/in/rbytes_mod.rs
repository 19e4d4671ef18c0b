use super::*;
pub(crate) fn hlen(h: &Header) -> u32 { h.len }
pub(crate) fn hpos(h: &Header) -> i64 { h.pos }
