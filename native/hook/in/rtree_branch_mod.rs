pub(crate) use super::tbranch::verif as tbranch;
pub(crate) use super::tbranch_element::verif as element;
