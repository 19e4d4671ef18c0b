// ------------------------------------------------------------------ trees: features, leaves, baskets, branches, the tree writer
pub mod rtree {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use super::base::*;
use super::rbytes::*;
use super::root::traits;
use super::root::traits::{Object as _, Named as _};
use super::rvers;
use super::rbase;
use super::rbase::*;
use super::riofs::{str_ok, str_end, text_is, signed_words};
// ---- TIOFeatures
//@struct oxyroot/src/rtree/tree/tio_features.rs TioFeatures
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t=TioFeatures n=@oxyroot/src/rtree/tree/tio_features.rs:factory_all_for_register_impl:TioFeatures:1
//@impl @ | $crate::root::traits::Object for TioFeatures => impl traits::Object for TioFeatures
open spec fn class_of(&self) -> Seq<char> { "TIOFeatures"@ }
//@fn class
//@end
//@endimpl
//@endmacro
//@impl oxyroot/src/rtree/tree/tio_features.rs | RVersioner for TioFeatures
open spec fn vers_of(&self) -> i16 { rvers::ROOT_IOFEATURES }
//@fn rversion
//@end
//@endimpl
/// the features byte: alone when it is zero, behind the four bytes 1a a1 2f 10 when it is not
pub open spec fn enc_features(n: u8) -> Seq<u8> { if n == 0 { be8(0) } else { be32(0x1aa12f10) + be8(n) } }
//@impl oxyroot/src/rtree/tree/tio_features.rs | Marshaler for TioFeatures
open spec fn enc(&self) -> Seq<u8> { framed(head(rvers::ROOT_IOFEATURES) + enc_features(self.0)) }
open spec fn encodable(&self) -> bool { true }
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc, acc_patch;
proof { acc_start(*w); lemma_features(); }
//@end
//@endimpl
pub proof fn lemma_features() ensures be32(0x1aa12f10) =~= seq![0x1au8, 0xa1, 0x2f, 0x10] { broadcast use group_words; assert(((0x1aa12f10u32 >> 24) as u8) == 0x1au8 && ((0x1aa12f10u32 >> 16) as u8) == 0xa1u8 && ((0x1aa12f10u32 >> 8) as u8) == 0x2fu8 && (0x1aa12f10u32 as u8) == 0x10u8) by (bit_vector); }
pub open spec fn feat0(s: Seq<u8>) -> u8 { w8(from_at(s, hdr_n(s))) }
//@impl oxyroot/src/rtree/tree/tio_features.rs | Unmarshaler for TioFeatures
open spec fn fits(s: Seq<u8>) -> bool { hdr_ok(s) && s.len() > hdr_n(s) && hdr_v(s) <= rvers::ROOT_IOFEATURES && (feat0(s) != 0 ==> s.len() >= hdr_n(s) + 5) }
open spec fn used(s: Seq<u8>) -> int { hdr_n(s) + if feat0(s) != 0 { 5int } else { 1int } }
open spec fn is(&self, s: Seq<u8>) -> bool { self.0 == if feat0(s) != 0 { w8(from_at(s, hdr_n(s) + 4)) } else { 0 } }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
open spec fn rejects(s: Seq<u8>) -> bool { hdr_ok(s) && hdr_v(s) > rvers::ROOT_IOFEATURES }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@start
broadcast use group_rd;
proof { rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
impl RoundTrip for TioFeatures {
    open spec fn same(&self, other: &Self) -> bool { self.0 == other.0 }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        broadcast use group_words, lemma_from_at;
        signed_words(); lemma_features();
        lemma_framed(s, rvers::ROOT_IOFEATURES, enc_features(self.0));
        let q = from_at(s, 6);
        if self.0 != 0 { lemma_starts_concat(q, be32(0x1aa12f10), be8(self.0)); assert(q[0] == 0x1au8) by { assert(q.subrange(0, 4)[0] == 0x1au8); } }
    }
}
// ---- leaves
pub open spec fn i8_size() -> int { 1 }
pub open spec fn i16_size() -> int { 2 }
pub open spec fn i32_size() -> int { 4 }
pub open spec fn i64_size() -> int { 8 }
pub open spec fn f32_size() -> int { 4 }
pub open spec fn f64_size() -> int { 8 }
pub open spec fn bool_size() -> int { 1 }
pub open spec fn i8_zero(x: i8) -> bool { x == 0 }
pub open spec fn i16_zero(x: i16) -> bool { x == 0 }
pub open spec fn i32_zero(x: i32) -> bool { x == 0 }
pub open spec fn i64_zero(x: i64) -> bool { x == 0 }
pub open spec fn f32_zero(x: f32) -> bool { f32_bits(x) == 0 }
pub open spec fn f64_zero(x: f64) -> bool { f64_bits(x) == 0 }
pub open spec fn bool_zero(x: bool) -> bool { !x }
pub open spec fn leaf_p(s: Seq<u8>) -> int { hdr_n(s) + TLeaf::used(from_at(s, hdr_n(s))) }
//@struct oxyroot/src/rtree/leaf.rs LeafCount
//@struct oxyroot/src/rtree/leaf.rs TLeaf
impl TLeaf {
    pub open spec fn fresh_leaf(&self) -> bool {
        self.len == 0 && self.etype == 0 && self.offset == 0 && !self.hasrange && !self.unsigned && self.count is None && self.named.name@.len() == 0 && self.named.title@.len() == 0
            && self.named.obj.id == 0 && self.named.obj.bits == 0x3000000
    }
    pub proof fn lemma_size(&self) requires self.encodable() ensures 0 < self.enc().len() < 0x2100_0000 { reveal(tleaf_enc); self.named.lemma_size(); }
}
impl Default for TLeaf {
    // what derive(Default) makes
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.fresh_leaf() { unimplemented!() }
}
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t=TLeaf n=@oxyroot/src/rtree/leaf.rs:factory_fn_register_impl:TLeaf:1
//@impl @ | $crate::root::traits::Object for TLeaf => impl traits::Object for TLeaf
open spec fn class_of(&self) -> Seq<char> { "TLeaf"@ }
//@fn class
//@end
//@endimpl
//@endmacro
//@impl oxyroot/src/rtree/leaf.rs | Named for TLeaf => impl traits::Named for TLeaf
open spec fn name_of(&self) -> Seq<char> { self.named.name@ }
open spec fn title_of(&self) -> Seq<char> { self.named.title@ }
/// not overridden: the default body panics
#[verifier::external_body]
fn name(&self) -> (ret: &str) { unimplemented!() }
//@fn title
//@rewrite self\.named\.title\(\) => let t = self.named.title(); assert(t@ == self.named.title_of()); assert(self.title_of() == self.named.title@); t
//@end
//@endimpl
//@impl oxyroot/src/rtree/leaf.rs | TLeaf
//@fn with_name
ensures ret == (TLeaf { named: rbase::Named { name: name, ..self.named }, ..self })
//@end
//@fn with_title
ensures ret == (TLeaf { named: rbase::Named { title: title, ..self.named }, ..self })
//@end
//@fn with_len
ensures ret == (TLeaf { len: len, ..self })
//@end
//@fn with_etype
ensures ret == (TLeaf { etype: etype, ..self })
//@end
//@fn with_unsigned
ensures ret == (TLeaf { unsigned: unsigned, ..self })
//@end
//@endimpl
//@impl oxyroot/src/rtree/leaf.rs | RVersioner for TLeaf
open spec fn vers_of(&self) -> i16 { rvers::Leaf }
//@fn rversion
//@end
//@endimpl
//@freefn oxyroot/src/rtree/leaf.rs leaf_dim
ensures ret is None
//@end
pub open spec fn bits8(b: bool) -> Seq<u8> { b.enc() }
#[verifier::opaque]
pub open spec fn tleaf_enc(l: TLeaf) -> Seq<u8> {
    framed(head(rvers::Leaf) + l.named.enc() + be32(l.len as u32) + be32(l.etype as u32) + be32(l.offset as u32) + bits8(l.hasrange) + bits8(l.unsigned) + be32(0))
}
#[verifier::opaque]
pub open spec fn tleaf_fits(s: Seq<u8>) -> bool {
    hdr_ok(s) && hdr_v(s) <= rvers::Leaf && rbase::Named::fits(from_at(s, hdr_n(s))) && s.len() >= tleaf_p(s) + 18
        && w32(from_at(s, tleaf_p(s) + 14)) == 0
}
#[verifier::opaque]
pub open spec fn tleaf_used(s: Seq<u8>) -> int { tleaf_p(s) + 18 }
#[verifier::opaque]
pub open spec fn tleaf_is(l: TLeaf, s: Seq<u8>) -> bool {
    let p = tleaf_p(s);
    &&& l.named.is(from_at(s, hdr_n(s)))
    &&& l.len == one_if_none(w32(from_at(s, p)) as i32) && l.etype == w32(from_at(s, p + 4)) as i32 && l.offset == w32(from_at(s, p + 8)) as i32
    &&& l.hasrange == (w8(from_at(s, p + 12)) != 0) && l.unsigned == (w8(from_at(s, p + 13)) != 0) && l.count is None
}
//@impl oxyroot/src/rtree/leaf.rs | Marshaler for TLeaf
open spec fn enc(&self) -> Seq<u8> { tleaf_enc(*self) }
open spec fn encodable(&self) -> bool { self.named.encodable() && self.count is None }
open spec fn lead() -> int { 1 }
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc, acc_patch;
proof { reveal(tleaf_enc); self.named.lemma_size(); acc_start(*w); }
//@end
//@endimpl
pub open spec fn tleaf_p(s: Seq<u8>) -> int { hdr_n(s) + rbase::Named::used(from_at(s, hdr_n(s))) }
pub open spec fn one_if_none(n: i32) -> i32 { if n == 0 { 1 } else { n } }
//@impl oxyroot/src/rtree/leaf.rs | Unmarshaler for TLeaf
open spec fn fits(s: Seq<u8>) -> bool { tleaf_fits(s) }
open spec fn used(s: Seq<u8>) -> int { tleaf_used(s) }
open spec fn is(&self, s: Seq<u8>) -> bool { tleaf_is(*self, s) }
open spec fn fresh(&self) -> bool { self.count is None }
open spec fn skips(k: Option<i32>) -> bool { noskip(k) }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
open spec fn rejects(s: Seq<u8>) -> bool { hdr_ok(s) && hdr_v(s) > rvers::Leaf }
proof fn lemma_used(s: Seq<u8>) { reveal(tleaf_fits); reveal(tleaf_used); rbase::Named::lemma_used(from_at(s, hdr_n(s))); }
//@fn unmarshal
//@start
broadcast use group_rd, lemma_from_0, lemma_from_at;
proof { assert(0u32 & 0x4000_0000 == 0 && 0u32 & 0x8000_0000 == 0) by (bit_vector); reveal(tleaf_fits); reveal(tleaf_used); reveal(tleaf_is); rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); let s = r.rest(); if rbase::Named::fits(from_at(s, hdr_n(s))) { rbase::Named::lemma_used(from_at(s, hdr_n(s))); } }
//@end
//@endimpl
impl RoundTrip for TLeaf {
    open spec fn same(&self, other: &Self) -> bool {
        self.named.same(&other.named) && other.len == one_if_none(self.len) && self.etype == other.etype && self.offset == other.offset && self.hasrange == other.hasrange && self.unsigned == other.unsigned
            && other.count is None
    }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        broadcast use group_words, lemma_from_at;
        signed_words(); reveal(tleaf_fits); reveal(tleaf_used); reveal(tleaf_is); reveal(tleaf_enc);
        self.named.lemma_size();
        let n = self.named.enc();
        let (b1, b2, b3, b4, b5, b6) = (be32(self.len as u32), be32(self.etype as u32), be32(self.offset as u32), bits8(self.hasrange), bits8(self.unsigned), be32(0));
        let body = n + b1 + b2 + b3 + b4 + b5 + b6;
        assert(head(rvers::Leaf) + n + b1 + b2 + b3 + b4 + b5 + b6 =~= head(rvers::Leaf) + body);
        lemma_framed(s, rvers::Leaf, body);
        let q = from_at(s, 6);
        lemma_starts_concat(q, n + b1 + b2 + b3 + b4 + b5, b6);
        lemma_starts_concat(q, n + b1 + b2 + b3 + b4, b5);
        lemma_starts_concat(q, n + b1 + b2 + b3, b4);
        lemma_starts_concat(q, n + b1 + b2, b3);
        lemma_starts_concat(q, n + b1, b2);
        lemma_starts_concat(q, n, b1);
        self.named.round_trip(q);
    }
}
//@include leaves.rs
// ---- a leaf of any kind
//@enum oxyroot/src/rtree/leaf.rs Leaf
impl Leaf {
    pub open spec fn view(&self) -> TLeaf { match self { Leaf::Base(l) => *l, Leaf::Element(x) => x.tleaf, Leaf::I(x) => x.tleaf, Leaf::S(x) => x.tleaf, Leaf::D(x) => x.tleaf, Leaf::F(x) => x.tleaf, Leaf::B(x) => x.tleaf, Leaf::L(x) => x.tleaf, Leaf::O(x) => x.tleaf, Leaf::C(x) => x.tleaf, } }
    pub open spec fn sign(&self) -> Option<bool> { match self { Leaf::Base(_) => None, Leaf::Element(_) => None, _ => Some(self@.unsigned) } }
    /// the C++ name of what the leaf holds
    pub open spec fn cpp(&self) -> Option<Seq<char>> {
        let u = self@.unsigned;
        match self {
            Leaf::Base(_) => None, Leaf::Element(_) => None,
            Leaf::I(_) => Some(if u { "uint32_t"@ } else { "int32_t"@ }), Leaf::S(_) => Some(if u { "uint16_t"@ } else { "int16_t"@ }),
            Leaf::B(_) => Some(if u { "uint8_t"@ } else { "int8_t"@ }), Leaf::L(_) => Some(if u { "uint64_t"@ } else { "int64_t"@ }),
            Leaf::D(_) => Some("double"@), Leaf::F(_) => Some("float"@), Leaf::O(_) => Some("bool"@), Leaf::C(_) => Some("char*"@),
        }
    }
}
//@impl oxyroot/src/rtree/leaf.rs | Marshaler for Leaf
open spec fn enc(&self) -> Seq<u8> { match self { Leaf::Base(_) => Seq::empty(), Leaf::Element(x) => x.enc(), Leaf::I(x) => x.enc(), Leaf::S(x) => x.enc(), Leaf::D(x) => x.enc(), Leaf::F(x) => x.enc(), Leaf::B(x) => x.enc(), Leaf::L(x) => x.enc(), Leaf::O(x) => x.enc(), Leaf::C(x) => x.enc(), } }
/// a plain TLeaf is not written (its arm is a todo!())
open spec fn encodable(&self) -> bool { match self { Leaf::Base(_) => false, Leaf::Element(x) => x.encodable(), Leaf::I(x) => x.encodable(), Leaf::S(x) => x.encodable(), Leaf::D(x) => x.encodable(), Leaf::F(x) => x.encodable(), Leaf::B(x) => x.encodable(), Leaf::L(x) => x.encodable(), Leaf::O(x) => x.encodable(), Leaf::C(x) => x.encodable(), } }
open spec fn lead() -> int { 1 }
//@fn marshal
//@end
//@endimpl
//@impl oxyroot/src/rtree/leaf.rs | Object for Leaf => impl traits::Object for Leaf
open spec fn class_of(&self) -> Seq<char> { match self { Leaf::Base(_) => "TLeaf"@, Leaf::Element(_) => "TLeafElement"@, Leaf::I(_) => "TLeafI"@, Leaf::S(_) => "TLeafS"@, Leaf::D(_) => "TLeafD"@, Leaf::F(_) => "TLeafF"@, Leaf::B(_) => "TLeafB"@, Leaf::L(_) => "TLeafL"@, Leaf::O(_) => "TLeafO"@, Leaf::C(_) => "TLeafC"@, } }
//@fn class
//@end
//@endimpl
pub trait LeafView<'a>: Sized { spec fn shows(self, l: &'a Leaf) -> bool; fn from(l: &'a Leaf) -> (ret: Self) ensures ret.shows(l); }
//@impl oxyroot/src/rtree/leaf.rs | From<&'aLeaf> for &'aTLeaf => impl<'a> LeafView<'a> for &'a TLeaf
open spec fn shows(self, l: &'a Leaf) -> bool { *self == l@ }
//@fn from
//@end
//@endimpl
//@impl oxyroot/src/rtree/leaf.rs | Leaf
//@fn tleaf
//@rewrite self\.into\(\) => <&TLeaf as LeafView>::from(self)
ensures *ret == self@
//@end
//@fn etype
ensures ret == self@.etype
//@end
//@fn title
ensures ret@ == self@.named.title@
//@end
//@fn unsigned
ensures ret == self.sign()
//@end
//@fn type_name
ensures ret is Some <==> self.cpp() is Some, ret is Some ==> ret->0@ == self.cpp()->0
//@end
//@fn write_to_buffer
requires old(w).wf(), value.encodable(), old(w).v().len() >= vx_lead(value), !((*old(self)) is Base), (*old(self)) is Element ==> vx_lead(value) <= 6 && value.enc().len() < 0x3fff_fff0
ensures ret is Ok, appended(*old(w), *final(w), if (*old(self)) is Element { framed(head(rvers::STREAMER_INFO) + value.enc()) } else { value.enc() }),
  !((*old(self)) is C) ==> *final(self) == *old(self),
  (*old(self)) is C ==> (*final(self)) is C && (*final(self))->C_0.max == wider((*old(self))->C_0.max, value.enc().len() as int) && final(self)@ == (TLeaf { len: wider(old(self)@.len, value.enc().len() as int), ..old(self)@ })
//@end
//@endimpl
pub open spec fn wider(m: i32, n: int) -> i32 { if n >= m { n as i32 } else { m } }
//@impl oxyroot/src/rtree/leaf.rs | LeafC
//@fn write_to_buffer
requires old(w).wf(), value.encodable(), old(w).v().len() >= vx_lead(value)
ensures ret is Ok, ret->Ok_0 == value.enc().len(), appended(*old(w), *final(w), value.enc()),
  *final(self) == (LeafC { max: wider(old(self).max, value.enc().len() as int), tleaf: TLeaf { len: wider(old(self).tleaf.len, value.enc().len() as int), ..old(self).tleaf }, ..*old(self) })
//@end
//@endimpl
//@impl oxyroot/src/rtree/leaf.rs | LeafElement
//@fn write_to_buffer
requires old(w).wf(), value.encodable(), vx_lead(value) <= 6, value.enc().len() < 0x3fff_fff0
ensures ret is Ok, appended(*old(w), *final(w), framed(head(rvers::STREAMER_INFO) + value.enc())), *final(self) == *old(self)
//@start
broadcast use axiom_vec_len, group_acc, acc_patch;
proof { acc_start(*w); }
//@end
//@endimpl
} // mod rtree
