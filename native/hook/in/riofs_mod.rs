pub(crate) use super::key::verif as key;
pub(crate) use super::blocks::verif as blocks;
pub(crate) use super::file::verif as file;
pub(crate) use super::dir::verif as dir;
