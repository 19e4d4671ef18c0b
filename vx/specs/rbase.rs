// ------------------------------------------------------------------ TObject, TNamed, drawing attributes, TIOFeatures
pub mod rcolors {
use vstd::prelude::*;
/// the named colours are opaque: what num_derive generates for them is taken at its word (a code
/// that has a name is the code of that name), and checked for every code by the executable contracts
#[verifier::external_body]
pub struct ColorNamed { x: u8 }
impl ColorNamed {
    pub uninterp spec fn code(&self) -> i16;
    #[verifier::external_body]
    pub fn from_i16(i: i16) -> (r: core::result::Result<ColorNamed, ()>) ensures r is Ok ==> r->Ok_0.code() == i { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to_i16(&self) -> (r: Option<i16>) ensures r == Some(self.code()) { unimplemented!() }
}
//@enum oxyroot/src/rcolors/mod.rs Color
impl Color { pub open spec fn code(&self) -> i16 { match self { Color::Named(n) => n.code(), Color::Int(i) => *i } } }
//@impl oxyroot/src/rcolors/mod.rs | Color
//@fn from_i16
ensures ret.code() == i
//@end
//@fn to_i16
//@rewrite num::ToPrimitive::to_i16\((\w+)\) => \1.vx_to_i16()
ensures ret == self.code()
//@end
//@endimpl
} // mod rcolors
pub mod rmeta {
use vstd::prelude::*;
use core::cmp::Ordering;
// opaque for the same reason as the named colours
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct EnumNamed { x: u8 }
impl EnumNamed {
    pub uninterp spec fn code(&self) -> i32;
    #[verifier::external_body]
    pub fn from_i32(i: i32) -> (r: core::result::Result<EnumNamed, ()>) ensures r is Ok ==> r->Ok_0.code() == i { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to_i32(&self) -> (r: Option<i32>) ensures r == Some(self.code()) { unimplemented!() }
}
#[verifier::external_body]
pub struct EReadWrite { x: u8 }
impl EReadWrite {
    pub uninterp spec fn code(&self) -> i32;
    #[verifier::external_body]
    pub fn vx_to_i32(&self) -> (r: Option<i32>) ensures r == Some(self.code()) { unimplemented!() }
}
//@enum oxyroot/src/rmeta/consts.rs Enum
impl Enum { pub open spec fn code(&self) -> i32 { match self { Enum::Named(n) => n.code(), Enum::Int(i) => *i } } }
//@impl oxyroot/src/rmeta/consts.rs | Enum
//@fn from_i32
ensures ret.code() == i
//@end
//@fn to_i32
//@rewrite num::ToPrimitive::to_i32\((\w+)\) => \1.vx_to_i32()
ensures ret == self.code()
//@end
//@endimpl
//@impl oxyroot/src/rmeta/consts.rs | EReadWrite
//@fn to_i32
//@rewrite num::ToPrimitive::to_i32\((\w+)\) => \1.vx_to_i32()
ensures ret == self.code()
//@end
//@endimpl
// the comparison operators between codes and names, under their own traits so that they carry a contract
pub trait VxEq<T> { spec fn same(&self, other: &T) -> bool; fn eq(&self, other: &T) -> (ret: bool) ensures ret == self.same(other); }
pub trait VxOrd<T> { spec fn order(&self, other: &T) -> int; fn partial_cmp(&self, other: &T) -> (ret: Option<Ordering>)
    ensures ret == Some(if self.order(other) < 0 { Ordering::Less } else if self.order(other) > 0 { Ordering::Greater } else { Ordering::Equal }); }
//@impl oxyroot/src/rmeta/consts.rs | PartialEq<EReadWrite> for i32 => impl VxEq<EReadWrite> for i32
open spec fn same(&self, other: &EReadWrite) -> bool { *self == other.code() }
//@fn eq
//@end
//@endimpl
//@impl oxyroot/src/rmeta/consts.rs | PartialOrd<EReadWrite> for i32 => impl VxOrd<EReadWrite> for i32
open spec fn order(&self, other: &EReadWrite) -> int { *self - other.code() }
//@fn partial_cmp
//@end
//@endimpl
//@impl oxyroot/src/rmeta/consts.rs | PartialEq<i32> for EReadWrite => impl VxEq<i32> for EReadWrite
open spec fn same(&self, other: &i32) -> bool { self.code() == *other }
//@fn eq
//@end
//@endimpl
//@impl oxyroot/src/rmeta/consts.rs | PartialOrd<i32> for EReadWrite => impl VxOrd<i32> for EReadWrite
open spec fn order(&self, other: &i32) -> int { self.code() - *other }
//@fn partial_cmp
//@end
//@endimpl
} // mod rmeta
pub mod rbase {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use super::base::*;
use super::rbytes::*;
use super::rcolors::*;
use super::root::traits;
use super::root::traits::{Object as _, Named as _};
use super::rvers;
use super::rbase;
use super::riofs::{str_ok, str_end, text_is, signed_words};
pub mod consts {
//@const oxyroot/src/rbase/consts.rs K_IS_ON_HEAP
//@const oxyroot/src/rbase/consts.rs K_IS_REFERENCED
} // mod consts
pub use consts::*;
pub trait RVersioner {
    spec fn vers_of(&self) -> i16;
    fn rversion(&self) -> (ret: i16) ensures ret == self.vers_of();
}
// ---- an object with a header in front of it
/// x with its first four bytes replaced by the size of the rest, marked as a count
pub open spec fn framed(x: Seq<u8>) -> Seq<u8> { overlay(x, 0, be32(count_word((x.len() - 4) as u32))) }
pub open spec fn head(vers: i16) -> Seq<u8> { be32(0) + be16(vers as u16) }
pub open spec fn hdr_ok(s: Seq<u8>) -> bool { s.len() >= 4 && (has_count(s) ==> s.len() >= 6) }
pub open spec fn hdr_n(s: Seq<u8>) -> int { if has_count(s) { 6 } else { 2 } }
pub open spec fn hdr_v(s: Seq<u8>) -> i16 { if has_count(s) { w16(from_at(s, 4)) as i16 } else { w16(s) as i16 } }
pub broadcast proof fn acc_patch(o: WBuffer, a: WBuffer, b: WBuffer, x: Seq<u8>, pos: int, p: Seq<u8>)
    requires #[trigger] acc(o, a, x), #[trigger] patched(a, b, pos, p), o.v().len() <= pos, pos + p.len() <= a.v().len(), o.wf()
    ensures acc(o, b, overlay(x, pos - o.v().len(), p))
{
    reveal(acc);
    assert(a.v() == o.v() + x);
    assert(b.v() =~= o.v() + overlay(x, pos - o.v().len(), p));
}
pub proof fn lemma_framed(s: Seq<u8>, vers: i16, body: Seq<u8>)
    requires starts_with(s, framed(head(vers) + body)), body.len() < 0x3fff_fff0
    ensures hdr_ok(s), has_count(s), hdr_n(s) == 6, hdr_v(s) == vers, starts_with(from_at(s, 6), body), framed(head(vers) + body).len() == 6 + body.len()
{
    broadcast use group_words;
    let n = (2 + body.len()) as int;
    lemma_count_word(n);
    let w = be32(count_word(n as u32));
    assert(framed(head(vers) + body) =~= w + (be16(vers as u16) + body));
    lemma_starts_concat(s, w, be16(vers as u16) + body);
    lemma_starts_concat(from_at(s, 4), be16(vers as u16), body);
    lemma_from_at(s, 4, 2);
    signed_words();
}
//@impl oxyroot/src/rbytes/rbuffer.rs | RBuffer
//@fn skip_version
requires old(self).wf(), old(self).rest().len() >= 2, 0 <= w16(old(self).rest()) as i16, class@.len() == 0
ensures ret is Ok, consumed(*old(self), *final(self), 2)
//@start
broadcast use lemma_consumed;
proof { let v = w16(self.rest()) as i16; assert(0 <= v ==> ((v as i64) & 0x40000000) == 0) by (bit_vector); assert(class.is_ascii() ==> true); }
//@end
//@fn check_header
ensures ret is Ok
//@end
//@endimpl
// ---- TObject
//@struct oxyroot/src/rbase/object.rs Object
impl Object {
    pub open spec fn has(b: u32) -> bool { b & K_IS_REFERENCED != 0 }
}
//@impl oxyroot/src/rbase/object.rs | Object
//@fn test_bits
ensures ret == (self.bits & bits != 0)
//@end
//@endimpl
//@impl oxyroot/src/rbase/object.rs | traits::Object for Object
open spec fn class_of(&self) -> Seq<char> { "TObject"@ }
//@fn class
//@end
//@endimpl
//@impl oxyroot/src/rbase/object.rs | Default for Object
//@fn default
ensures ret.id == 0, ret.bits == 0x3000000
//@end
//@endimpl
//@impl oxyroot/src/rbase/object.rs | Marshaler for Object
open spec fn enc(&self) -> Seq<u8> {
    if Object::has(self.bits) { be16(rvers::OBJECT as u16) + be32(self.id & 0xffffff) + be32(self.bits) + be16(0) }
    else { be16(rvers::OBJECT as u16) + be32(self.id) + be32(self.bits) }
}
open spec fn encodable(&self) -> bool { true }
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc;
proof { acc_start(*w); }
//@end
//@endimpl
//@impl oxyroot/src/rbase/object.rs | Unmarshaler for Object
open spec fn fits(s: Seq<u8>) -> bool { s.len() >= 10 && 0 <= w16(s) as i16 && (Object::has(w32(from_at(s, 6)) | K_IS_ON_HEAP) ==> s.len() >= 12) }
open spec fn used(s: Seq<u8>) -> int { if Object::has(w32(from_at(s, 6)) | K_IS_ON_HEAP) { 12 } else { 10 } }
open spec fn is(&self, s: Seq<u8>) -> bool { self.id == w32(from_at(s, 2)) && self.bits == w32(from_at(s, 6)) | K_IS_ON_HEAP }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@start
broadcast use group_rd;
proof { reveal_strlit(""); rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
pub proof fn lemma_heap_bit(b: u32)
    ensures Object::has(b | K_IS_ON_HEAP) == Object::has(b), (b | K_IS_ON_HEAP) & !K_IS_ON_HEAP == b & !K_IS_ON_HEAP
{ assert(((b | 0x01000000u32) & (1u32 << 4)) == (b & (1u32 << 4)) && (b | 0x01000000u32) & !0x01000000u32 == b & !0x01000000u32) by (bit_vector); }
impl RoundTrip for Object {
    open spec fn same(&self, other: &Self) -> bool { other.bits == self.bits | K_IS_ON_HEAP && other.id == if Object::has(self.bits) { self.id & 0xffffff } else { self.id } }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        broadcast use group_words;
        lemma_heap_bit(self.bits);
        let a = be16(rvers::OBJECT as u16); let id = if Object::has(self.bits) { self.id & 0xffffff } else { self.id };
        let b = a + be32(id);
        if Object::has(self.bits) { lemma_starts_concat(s, b + be32(self.bits), be16(0)); }
        lemma_starts_concat(s, b, be32(self.bits));
        lemma_starts_concat(s, a, be32(id));
        assert(rvers::OBJECT as u16 as i16 == 1);
    }
}
// ---- TNamed
//@struct oxyroot/src/rbase/named.rs Named
//@impl oxyroot/src/rbase/named.rs | root::traits::Object for Named => impl traits::Object for Named
open spec fn class_of(&self) -> Seq<char> { "TNamed"@ }
//@fn class
//@end
//@endimpl
//@impl oxyroot/src/rbase/named.rs | root::traits::Named for Named => impl traits::Named for Named
open spec fn name_of(&self) -> Seq<char> { self.name@ }
open spec fn title_of(&self) -> Seq<char> { self.title@ }
//@fn name
//@end
//@fn title
//@end
//@endimpl
//@impl oxyroot/src/rbase/named.rs | Named
//@fn with_name
ensures ret == (Named { name: name, ..self })
//@end
//@fn with_title
ensures ret == (Named { title: title, ..self })
//@end
//@endimpl
//@impl oxyroot/src/rbase/named.rs | RVersioner for Named
open spec fn vers_of(&self) -> i16 { rvers::NAMED }
//@fn rversion
//@end
//@endimpl
pub open spec fn text_small(s: Seq<char>) -> bool { encode_utf8(s).len() < 0x1000_0000 }
// kept folded: proofs about what holds a TNamed need nothing of its inside
#[verifier::opaque]
pub open spec fn named_enc(n: Named) -> Seq<u8> { framed(head(rvers::NAMED) + n.obj.enc() + enc_str(encode_utf8(n.name@)) + enc_str(encode_utf8(n.title@))) }
#[verifier::opaque]
pub open spec fn named_fits(s: Seq<u8>) -> bool { hdr_ok(s) && Object::fits(from_at(s, hdr_n(s))) && str_ok(s, named_p1(s)) && str_ok(s, named_p2(s)) }
#[verifier::opaque]
pub open spec fn named_used(s: Seq<u8>) -> int { str_end(s, named_p2(s)) }
#[verifier::opaque]
pub open spec fn named_is(n: Named, s: Seq<u8>) -> bool { n.obj.is(from_at(s, hdr_n(s))) && text_is(n.name@, s, named_p1(s)) && text_is(n.title@, s, named_p2(s)) }
//@impl oxyroot/src/rbase/named.rs | Marshaler for Named
open spec fn enc(&self) -> Seq<u8> { named_enc(*self) }
open spec fn encodable(&self) -> bool { text_small(self.name@) && text_small(self.title@) }
open spec fn lead() -> int { 1 }
//@fn marshal
//@rewrite use crate::root::traits::Named; => use super::root::traits::Named as _; use super::root::traits::Object as _;
//@start
broadcast use axiom_vec_len, group_acc, acc_patch;
proof { reveal(named_enc); acc_start(*w); }
//@end
//@endimpl
pub open spec fn named_p1(s: Seq<u8>) -> int { hdr_n(s) + Object::used(from_at(s, hdr_n(s))) }
pub open spec fn named_p2(s: Seq<u8>) -> int { str_end(s, named_p1(s)) }
//@impl oxyroot/src/rbase/named.rs | Unmarshaler for Named
open spec fn fits(s: Seq<u8>) -> bool { named_fits(s) }
open spec fn used(s: Seq<u8>) -> int { named_used(s) }
open spec fn is(&self, s: Seq<u8>) -> bool { named_is(*self, s) }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { reveal(named_fits); reveal(named_used); }
//@fn unmarshal
//@rewrite \.into\(\) => .to_string()
//@start
broadcast use group_rd;
proof { reveal(named_fits); reveal(named_used); reveal(named_is); rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
impl Named {
    pub proof fn lemma_size(&self) requires self.encodable() ensures 0 < self.enc().len() < 0x2000_0100 { reveal(named_enc); }
}
impl RoundTrip for Named {
    open spec fn same(&self, other: &Self) -> bool { self.obj.same(&other.obj) && self.name@ == other.name@ && self.title@ == other.title@ }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        broadcast use group_utf8_lib;
        reveal(named_fits); reveal(named_used); reveal(named_is); reveal(named_enc);
        let (n, t) = (encode_utf8(self.name@), encode_utf8(self.title@));
        let ob = self.obj.enc();
        assert(head(rvers::NAMED) + ob + enc_str(n) + enc_str(t) =~= head(rvers::NAMED) + (ob + enc_str(n) + enc_str(t)));
        lemma_framed(s, rvers::NAMED, ob + enc_str(n) + enc_str(t));
        let q = from_at(s, 6);
        lemma_starts_concat(q, ob + enc_str(n), enc_str(t));
        lemma_starts_concat(q, ob, enc_str(n));
        self.obj.round_trip(q);
        let p1 = ob.len() as int; let p2 = p1 + enc_str(n).len();
        lemma_from_at(s, 6, p1); lemma_from_at(s, 6, p2);
        lemma_enc_str(from_at(s, 6 + p1), n); lemma_enc_str(from_at(s, 6 + p2), t);
        assert forall|o: Self| #[trigger] o.is(s) implies self.same(&o) by { lemma_utf8_inj(o.name@, self.name@); lemma_utf8_inj(o.title@, self.title@); }
    }
}
//@include atts.rs
// ---- TObjString: read only (the writer is a todo!())
//@struct oxyroot/src/rbase/objstring.rs TObjString
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t=TObjString n=@oxyroot/src/rbase/objstring.rs:factory_all_for_register_impl:TObjString:1
//@impl @ | $crate::root::traits::Object for TObjString => impl traits::Object for TObjString
open spec fn class_of(&self) -> Seq<char> { "TObjString"@ }
//@fn class
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rtypes/factory.rs factory_all_for_register_impl 1 t=TObjString vers=@oxyroot/src/rbase/objstring.rs:factory_all_for_register_impl:TObjString:2
//@impl @ | $crate::rbytes::RVersioner for TObjString => impl RVersioner for TObjString
open spec fn vers_of(&self) -> i16 { rvers::OBJ_STRING }
//@fn rversion
//@end
//@endimpl
//@endmacro
pub open spec fn ostr_p(s: Seq<u8>) -> int { hdr_n(s) + Object::used(from_at(s, hdr_n(s))) }
//@impl oxyroot/src/rbase/objstring.rs | Unmarshaler for TObjString
open spec fn fits(s: Seq<u8>) -> bool { hdr_ok(s) && hdr_v(s) <= rvers::OBJ_STRING && Object::fits(from_at(s, hdr_n(s))) && str_ok(s, ostr_p(s)) }
open spec fn used(s: Seq<u8>) -> int { str_end(s, ostr_p(s)) }
open spec fn is(&self, s: Seq<u8>) -> bool { self.obj.is(from_at(s, hdr_n(s))) && text_is(self.str@, s, ostr_p(s)) }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
open spec fn rejects(s: Seq<u8>) -> bool { hdr_ok(s) && hdr_v(s) > rvers::OBJ_STRING }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@rewrite \.into\(\) => .to_string()
//@start
broadcast use group_rd;
proof { rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
} // mod rbase
