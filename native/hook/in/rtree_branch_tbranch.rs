use super::*;
use crate::riofs::Key;
/// a branch as it stands after its file has been opened
pub(crate) fn mk(leaf: Leaf, seek: Vec<i64>, bytes: Vec<i32>, entries: i64, baskets: Vec<Basket>, reader: Option<RootFileReader>) -> TBranch {
    let mut b = TBranch::new("b".to_string());
    b.basket_entry = vec![0; seek.len() + 1]; b.leaves = vec![leaf]; b.basket_seek = seek; b.basket_bytes = bytes; b.entries = entries; b.entry_number = entries; b.baskets = baskets; b.reader = reader; b.sinfos = Some(RootFileStreamerInfoContext::new());
    b
}
pub(crate) fn with_branches(v: Vec<Branch>, entries: i64, reader: Option<RootFileReader>) -> TBranch { let mut b = TBranch::new("t".to_string()); b.branches = v; b.entries = entries; b.reader = reader; b }
pub(crate) fn embedded(key: Key, nev: i32, last: i32, offsets: Vec<i32>) -> Basket { let mut b = Basket::default(); b.nev_buf = nev; b.last = last; b.offsets = offsets; b.set_key(key); b }
