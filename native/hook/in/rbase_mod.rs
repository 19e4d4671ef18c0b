pub(crate) use super::object::verif as object;
pub(crate) use super::attfill::verif as fill;
pub(crate) use super::attline::verif as line;
pub(crate) use super::attmarker::verif as marker;
pub(crate) use super::objstring::verif as ostring;
