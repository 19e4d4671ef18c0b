use super::*;
pub(crate) fn set(l: &mut WriterList<'_>, name: Option<String>, obj: rbase::Object) { l.name = name; l.obj = obj; }
pub(crate) fn parts(l: &ReaderList) -> (Option<String>, &rbase::Object) { (l.name.clone(), &l.obj) }
