use super::*;
#[derive(Clone, Debug, PartialEq)]
pub(crate) struct T { pub id: u32, pub bits: u32, pub name: String, pub title: String, pub len: i32, pub etype: i32, pub offset: i32, pub hasrange: bool, pub unsigned: bool }
pub(crate) fn mk(t: &T) -> TLeaf {
    TLeaf { named: rbase::Named { obj: rbase::verif::object::mk(t.id, t.bits), name: t.name.clone(), title: t.title.clone() }, shape: vec![], len: t.len, etype: t.etype, offset: t.offset, hasrange: t.hasrange, unsigned: t.unsigned, count: None }
}
pub(crate) fn parts(l: &TLeaf) -> T {
    let (id, bits) = rbase::verif::object::parts(&l.named.obj);
    T { id, bits, name: l.named.name.clone(), title: l.named.title.clone(), len: l.len, etype: l.etype, offset: l.offset, hasrange: l.hasrange, unsigned: l.unsigned }
}
pub(crate) fn tleaf(l: &Leaf) -> &TLeaf { l.tleaf() }
macro_rules! ends { ($($f:ident $g:ident $t:ident $ty:ty, $a:ident $b:ident);*) => { $(
    pub(crate) fn $f(rvers: i16, t: &T, a: $ty, b: $ty) -> $t { $t { rvers, tleaf: mk(t), $a: a, $b: b } }
    pub(crate) fn $g(l: &$t) -> (i16, T, $ty, $ty) { (l.rvers, parts(&l.tleaf), l.$a, l.$b) }
)* } }
ends!(mk_i p_i LeafI i32, min max; mk_b p_b LeafB i8, min max; mk_s p_s LeafS i16, min max; mk_l p_l LeafL i64, min max; mk_f p_f LeafF f32, min max; mk_d p_d LeafD f64, min max; mk_o p_o LeafO bool, min max;
    mk_c p_c LeafC i32, min max; mk_e p_e LeafElement i32, id ltype);
