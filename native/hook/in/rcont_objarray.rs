use super::*;
pub(crate) fn set(l: &mut WriterObjArray<'_>, name: Option<String>, obj: rbase::Object, low: i32) { l.name = name; l.obj = obj; l.low = low; }
pub(crate) fn parts(l: &ReaderObjArray) -> (Option<String>, &rbase::Object, i32) { (l.name.clone(), &l.obj, l.low) }
