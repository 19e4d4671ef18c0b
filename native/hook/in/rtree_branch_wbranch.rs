use super::*;
pub(crate) fn small<T: Marshaler>(b: &mut WBranch<T>, n: i32) { match &mut b.branch { Branch::Base(t) => t.basket_size = n, Branch::Element(e) => e.branch.basket_size = n } }
