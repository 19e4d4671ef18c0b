use super::*;
pub(crate) fn mk(id: u32, bits: u32) -> Object { Object { id, bits } }
pub(crate) fn parts(o: &Object) -> (u32, u32) { (o.id, o.bits) }
