use super::*;
pub(crate) fn small(t: &mut WriterTree, n: i32) { for b in t.tree.branches.iter_mut() { crate::rtree::branch::wbranch::verif::small(b, n) } }
pub(crate) fn entries(t: &WriterTree) -> i64 { t.tree.entries }
pub(crate) fn tot(t: &WriterTree) -> i64 { t.tree.tot_bytes }
