use super::*;
pub(crate) fn obj(o: &TObjString) -> &rbase::Object { &o.obj }
