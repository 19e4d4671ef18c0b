pub mod rbytes {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use std::str::from_utf8;
use super::base::*;
use std::mem::size_of;
use std::collections::{HashMap, HashSet};
use std::hash::Hash;
//@const oxyroot/src/rbytes/consts.rs *

#[derive(Debug)]
//@enum oxyroot/src/rbytes/error.rs Error RMeta\([^)]*\), =>  ;; RTypes\([^)]*\), => RTypes(u8), ;; TryFromSliceError => std::array::TryFromSliceError ;; TryFromIntError => std::num::TryFromIntError
pub type Result<T> = core::result::Result<T, Error>;
impl vstd::std_specs::convert::FromSpecImpl<std::array::TryFromSliceError> for Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: std::array::TryFromSliceError) -> Self { Error::Misc(arbitrary()) } }
impl From<std::array::TryFromSliceError> for Error { fn from(e: std::array::TryFromSliceError) -> Self { Error::RbufferExtractAsArrayNotPossible(e) } }
impl vstd::std_specs::convert::FromSpecImpl<std::num::TryFromIntError> for Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: std::num::TryFromIntError) -> Self { Error::Misc(arbitrary()) } }
impl From<std::num::TryFromIntError> for Error { fn from(e: std::num::TryFromIntError) -> Self { Error::TryFromInt(e) } }

//@struct oxyroot/src/rbytes/rbuffer.rs Rbuff
/// a factory builder (fn() -> Box<dyn FactoryItemRead>), named by the class it builds
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VxBuilder { id: u64 }
impl VxBuilder { pub uninterp spec fn cls(&self) -> Seq<char>; }
pub enum RBufferRefsItem { Func(VxBuilder) }
pub use RBufferRefsItem::Func;
pub use Error::Misc;
//@struct oxyroot/src/rbytes/rbuffer.rs RBuffer
//@struct oxyroot/src/rbytes/wbuffer.rs Wbuff
//@struct oxyroot/src/rbytes/wbuffer.rs WBuffer
//@struct oxyroot/src/rbytes/mod.rs Header

impl<'a> Rbuff<'a> {
    pub open spec fn wf(&self) -> bool { self.c <= self.p@.len() }
    pub open spec fn rest(&self) -> Seq<u8> { self.p@.subrange(self.c as int, self.p@.len() as int) }
}

impl<'a> RBuffer<'a> {
    pub open spec fn wf(&self) -> bool { self.r.wf() }
    pub open spec fn rest(&self) -> Seq<u8> { self.r.rest() }
    pub open spec fn at(&self) -> int { self.r.c + self.offset }
}
// #[derive(Default)] as the compiler expands it (dropped with the other attributes)
impl<'a> Default for RBuffer<'a> {
    #[verifier::external_body]
    fn default() -> (ret: Self)
        ensures ret.r.p@.len() == 0, ret.r.c == 0, ret.offset == 0, ret.skip_header is None, ret.refs@ == Map::<i64, RBufferRefsItem>::empty()
    { unimplemented!() }
}
impl Default for Wbuff {
    #[verifier::external_body]
    fn default() -> (ret: Self) ensures ret.p@.len() == 0, ret.c == 0
    { unimplemented!() }
}
impl Default for Header {
    #[verifier::external_body]
    fn default() -> (ret: Self) ensures ret.vers == 0, ret.pos == 0, ret.len == 0
    { unimplemented!() }
}
/// n bytes were consumed and nothing else changed
pub open spec fn consumed(pre: RBuffer, post: RBuffer, n: int) -> bool {
    &&& post.wf()
    &&& post.r.p == pre.r.p
    &&& post.r.c == pre.r.c + n
    &&& post.offset == pre.offset
    &&& post.refs == pre.refs
    &&& post.skip_header == pre.skip_header
}
pub broadcast proof fn lemma_consumed(pre: RBuffer, post: RBuffer, n: int)
    requires #[trigger] consumed(pre, post, n), pre.wf(), 0 <= n
    ensures post.rest() == from_at(pre.rest(), n)
{ assert(post.rest() =~= from_at(pre.rest(), n)); }
pub open spec fn rconsumed(pre: Rbuff, post: Rbuff, n: int) -> bool {
    post.wf() && post.p == pre.p && post.c == pre.c + n
}

impl WBuffer {
    pub open spec fn wf(&self) -> bool { self.w.c == self.w.p@.len() }
    pub open spec fn v(&self) -> Seq<u8> { self.w.p@ }
    pub open spec fn at(&self) -> int { self.w.c + self.offset }
}
/// the bytes were appended and nothing else changed
pub open spec fn appended(pre: WBuffer, post: WBuffer, bytes: Seq<u8>) -> bool {
    &&& post.wf()
    &&& post.v() =~= pre.v() + bytes
    &&& post.offset == pre.offset
    &&& post.refs_p == pre.refs_p
    &&& post.refs_s == pre.refs_s
}

//@impl oxyroot/src/rbytes/rbuffer.rs | Rbuff
//@fn extract_const_n
requires old(self).wf(), N <= old(self).rest().len()
ensures ret is Ok, ret->Ok_0@ == old(self).rest().subrange(0, N as int), rconsumed(*old(self), *final(self), N as int)
//@start
broadcast use axiom_slice_len;
//@end
//@fn extract_as_array
requires old(self).wf(), N <= old(self).rest().len()
ensures ret is Ok, ret->Ok_0@ == old(self).rest().subrange(0, N as int), rconsumed(*old(self), *final(self), N as int)
//@start
broadcast use axiom_slice_len;
//@end
//@fn extract_n
requires old(self).wf(), n <= old(self).rest().len()
ensures ret is Ok, ret->Ok_0@ == old(self).rest().subrange(0, n as int), rconsumed(*old(self), *final(self), n as int)
//@start
broadcast use axiom_slice_len;
//@end
//@endimpl

//@impl oxyroot/src/rbytes/rbuffer.rs | RBuffer
//@fn new
ensures ret.r.p == data, ret.r.c == 0, ret.offset == offset, ret.skip_header is None, ret.refs@ == Map::<i64, RBufferRefsItem>::empty()
//@end
//@fn len
requires self.wf()
ensures ret == self.rest().len()
//@start
broadcast use axiom_slice_len, lemma_consumed;
//@end
//@fn pos
requires self.wf()
ensures ret == self.at()
//@start
broadcast use axiom_slice_len, lemma_consumed;
//@end
//@fn is_empty
requires self.wf()
ensures ret == (self.rest().len() == 0)
//@end
//@fn set_pos
requires old(self).offset <= pos <= old(self).offset + old(self).r.p@.len()
ensures final(self).wf(), final(self).r.p == old(self).r.p, final(self).at() == pos, final(self).offset == old(self).offset, final(self).refs == old(self).refs, final(self).skip_header == old(self).skip_header
//@end
//@fn skip
requires old(self).wf(), 0 <= s <= old(self).rest().len()
ensures ret is Ok, consumed(*old(self), *final(self), s as int)
//@start
broadcast use axiom_slice_len, lemma_consumed;
//@end
//@fn rewind
requires old(self).wf(), 0 <= s <= old(self).r.c
ensures ret is Ok, consumed(*old(self), *final(self), -(s as int))
//@start
broadcast use axiom_slice_len, lemma_consumed;
//@end
//@fn read_u8
requires old(self).wf(), old(self).rest().len() >= 1
ensures ret is Ok, ret->Ok_0 == w8(old(self).rest()), consumed(*old(self), *final(self), 1)
//@end
//@fn read_i8
requires old(self).wf(), old(self).rest().len() >= 1
ensures ret is Ok, ret->Ok_0 == w8(old(self).rest()) as i8, consumed(*old(self), *final(self), 1)
//@end
//@fn read_u16
requires old(self).wf(), old(self).rest().len() >= 2
ensures ret is Ok, ret->Ok_0 == w16(old(self).rest()), consumed(*old(self), *final(self), 2)
//@end
//@fn read_i16
requires old(self).wf(), old(self).rest().len() >= 2
ensures ret is Ok, ret->Ok_0 == w16(old(self).rest()) as i16, consumed(*old(self), *final(self), 2)
//@end
//@fn read_i32
requires old(self).wf(), old(self).rest().len() >= 4
ensures ret is Ok, ret->Ok_0 == w32(old(self).rest()) as i32, consumed(*old(self), *final(self), 4)
//@end
//@fn read_u32
requires old(self).wf(), old(self).rest().len() >= 4
ensures ret is Ok, ret->Ok_0 == w32(old(self).rest()), consumed(*old(self), *final(self), 4)
//@end
//@fn read_i64
requires old(self).wf(), old(self).rest().len() >= 8
ensures ret is Ok, ret->Ok_0 == w64(old(self).rest()) as i64, consumed(*old(self), *final(self), 8)
//@end
//@fn read_u64
requires old(self).wf(), old(self).rest().len() >= 8
ensures ret is Ok, ret->Ok_0 == w64(old(self).rest()), consumed(*old(self), *final(self), 8)
//@end
//@fn read_f64
requires old(self).wf(), old(self).rest().len() >= 8
ensures ret is Ok, f64_bits(ret->Ok_0) == w64(old(self).rest()), consumed(*old(self), *final(self), 8)
//@end
//@fn read_f32
requires old(self).wf(), old(self).rest().len() >= 4
ensures ret is Ok, f32_bits(ret->Ok_0) == w32(old(self).rest()), consumed(*old(self), *final(self), 4)
//@end
//@fn read_bool
requires old(self).wf(), old(self).rest().len() >= 1
ensures ret is Ok, ret->Ok_0 == (w8(old(self).rest()) != 0), consumed(*old(self), *final(self), 1)
//@start
proof { lemma_bool_bits(w8(self.rest())); }
//@end
//@fn read_array_u8_into
requires old(self).wf(), old(self).rest().len() >= 1 * old(arr)@.len()
ensures ret is Ok, consumed(*old(self), *final(self), (1 * old(arr)@.len()) as int), final(arr)@.len() == old(arr)@.len(),
  forall|i: int| 0 <= i < final(arr)@.len() ==> #[trigger] final(arr)@[i] == w8(from_at(old(self).rest(), 1 * i))
//@rewrite in arr \{ => in arr.iter_mut() {
//@loop 0 for it
invariant it.seq().len() == old(arr)@.len(), old(self).wf(), old(self).rest().len() >= 1 * old(arr)@.len(),
  consumed(*old(self), *self, 1 * it.index@),
  forall|i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == w8(from_at(old(self).rest(), 1 * i))
//@loopstart 0
broadcast use lemma_consumed;
//@end
//@fn read_array_i16_into
requires old(self).wf(), old(self).rest().len() >= 2 * old(arr)@.len()
ensures ret is Ok, consumed(*old(self), *final(self), (2 * old(arr)@.len()) as int), final(arr)@.len() == old(arr)@.len(),
  forall|i: int| 0 <= i < final(arr)@.len() ==> #[trigger] final(arr)@[i] == w16(from_at(old(self).rest(), 2 * i)) as i16
//@rewrite in arr \{ => in arr.iter_mut() {
//@loop 0 for it
invariant it.seq().len() == old(arr)@.len(), old(self).wf(), old(self).rest().len() >= 2 * old(arr)@.len(),
  consumed(*old(self), *self, 2 * it.index@),
  forall|i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == w16(from_at(old(self).rest(), 2 * i)) as i16
//@loopstart 0
broadcast use lemma_consumed;
//@end
//@fn read_array_i32
requires old(self).wf(), old(self).rest().len() >= 4 * old(arr)@.len()
ensures ret is Ok, consumed(*old(self), *final(self), (4 * old(arr)@.len()) as int), final(arr)@.len() == old(arr)@.len(),
  forall|i: int| 0 <= i < final(arr)@.len() ==> #[trigger] final(arr)@[i] == w32(from_at(old(self).rest(), 4 * i)) as i32
//@rewrite in arr \{ => in arr.iter_mut() {
//@loop 0 for it
invariant it.seq().len() == old(arr)@.len(), old(self).wf(), old(self).rest().len() >= 4 * old(arr)@.len(),
  consumed(*old(self), *self, 4 * it.index@),
  forall|i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == w32(from_at(old(self).rest(), 4 * i)) as i32
//@loopstart 0
broadcast use lemma_consumed;
//@end
//@fn read_array_i64
requires old(self).wf(), old(self).rest().len() >= 8 * old(arr)@.len()
ensures ret is Ok, consumed(*old(self), *final(self), (8 * old(arr)@.len()) as int), final(arr)@.len() == old(arr)@.len(),
  forall|i: int| 0 <= i < final(arr)@.len() ==> #[trigger] final(arr)@[i] == w64(from_at(old(self).rest(), 8 * i)) as i64
//@rewrite in arr \{ => in arr.iter_mut() {
//@loop 0 for it
invariant it.seq().len() == old(arr)@.len(), old(self).wf(), old(self).rest().len() >= 8 * old(arr)@.len(),
  consumed(*old(self), *self, 8 * it.index@),
  forall|i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == w64(from_at(old(self).rest(), 8 * i)) as i64
//@loopstart 0
broadcast use lemma_consumed;
//@end
//@fn read_array_u8
requires old(self).wf(), n <= old(self).rest().len()
ensures ret is Ok, ret->Ok_0@ == old(self).rest().subrange(0, n as int), consumed(*old(self), *final(self), n as int)
//@end
//@fn read_string
requires old(self).wf(), str_fits(old(self).rest())
ensures ret is Ok, consumed(*old(self), *final(self), str_hdr(old(self).rest()) + str_len(old(self).rest()) as int),
  valid_utf8(str_body(old(self).rest())) ==> encode_utf8(ret->Ok_0@) == str_body(old(self).rest())
//@start
broadcast use axiom_slice_len, lemma_consumed, lemma_from_at;
let ghost rest0 = self.rest();
proof {
    reveal_strlit("");
    assert(encode_utf8(""@) =~= Seq::<u8>::empty());
    let h = str_hdr(rest0); let n = str_len(rest0) as int;
    assert(from_at(rest0, h).subrange(0, n) =~= rest0.subrange(h, h + n));
}
//@end
//@fn set_skip_header
ensures *final(self) == (RBuffer { skip_header: skip_header, ..*old(self) })
//@end
//@fn skip_header
ensures ret == self.skip_header
//@end
//@fn do_skip_header
requires old(self).wf(), old(self).skip_header is Some ==> 0 <= old(self).skip_header->0
ensures ret is Ok, consumed(*old(self), *final(self), hdr_skip(*old(self)))
//@start
broadcast use axiom_slice_len, lemma_consumed;
//@end
//@fn read_header
requires old(self).wf(), old(self).rest().len() >= 4, has_count(old(self).rest()) ==> old(self).rest().len() >= 6
ensures ret is Ok, ret->Ok_0.pos == old(self).at(),
  ({
    let rest = old(self).rest();
    if has_count(rest) {
      &&& consumed(*old(self), *final(self), 6)
      &&& ret->Ok_0.len == w32(rest) & 0xBFFF_FFFF
      &&& ret->Ok_0.vers == w16(from_at(rest, 4)) as i16
    } else {
      &&& consumed(*old(self), *final(self), 2)
      &&& ret->Ok_0.len == 0
      &&& ret->Ok_0.vers == w16(rest) as i16
    }
  })
//@start
broadcast use axiom_slice_len, lemma_consumed;
let ghost rest0 = self.rest();
proof { lemma_count_bits(w32(rest0)); }
//@end
//@endimpl

//@impl oxyroot/src/rbytes/wbuffer.rs | Wbuff
//@fn write_array_u8
requires old(self).c == old(self).p@.len()
ensures ret is Ok, final(self).p@ == old(self).p@ + p0@, final(self).c == final(self).p@.len()
//@start
broadcast use axiom_vec_len;
//@end
//@fn write_in_place
requires pos + p0@.len() <= old(self).p@.len()
ensures ret is Ok, final(self).c == old(self).c, final(self).p@ == overlay(old(self).p@, pos as int, p0@)
//@start
broadcast use axiom_vec_len, axiom_slice_len;
//@rewrite self\.p\[([^\]]*)\]\.copy_from_slice => self.p.as_mut_slice()[\1].copy_from_slice
//@end
//@endimpl
//@impl oxyroot/src/rbytes/wbuffer.rs | WBuffer
//@fn write_array_u8
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), p0@)
//@end
//@fn offset
ensures ret == self.offset
//@end
//@fn write_i32
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), be32(p0 as u32))
//@end
//@fn write_i64
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), be64(p0 as u64))
//@end
//@fn write_u32
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), be32(p0))
//@end
//@fn write_u64
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), be64(p0))
//@end
//@fn write_f32
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), be32(f32_bits(p0)))
//@end
//@fn write_f64
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), be64(f64_bits(p0)))
//@end
//@fn write_i16
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), be16(p0 as u16))
//@end
//@fn write_u16
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), be16(p0))
//@end
//@fn write_u8
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), be8(p0))
//@end
//@fn write_i8
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), be8(p0 as u8))
//@end
//@fn write_bool
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), be8(if p0 { 1u8 } else { 0u8 }))
//@end
//@fn write_array_i64
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), enc_i64s(p0@))
//@loop 0 for it
invariant it.seq().len() == p0@.len(), forall|i: int| 0 <= i < p0@.len() ==> *it.seq()[i] == p0@[i],
  appended(*old(self), *self, enc_i64s(p0@.subrange(0, it.index@ as int)))
//@loopend 0
broadcast use lemma_appended;
proof {
  let k = it.index@ as int;
  assert(p0@.subrange(0, k + 1).drop_last() =~= p0@.subrange(0, k));
  assert(p0@.subrange(0, k + 1).last() == p0@[k]);
}
//@afterloop 0
assert(p0@.subrange(0, p0@.len() as int) =~= p0@);
//@end
//@fn write_array_i32
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), enc_i32s(p0@))
//@loop 0 for it
invariant it.seq().len() == p0@.len(), forall|i: int| 0 <= i < p0@.len() ==> *it.seq()[i] == p0@[i],
  appended(*old(self), *self, enc_i32s(p0@.subrange(0, it.index@ as int)))
//@loopend 0
broadcast use lemma_appended;
proof {
  let k = it.index@ as int;
  assert(p0@.subrange(0, k + 1).drop_last() =~= p0@.subrange(0, k));
  assert(p0@.subrange(0, k + 1).last() == p0@[k]);
}
//@afterloop 0
assert(p0@.subrange(0, p0@.len() as int) =~= p0@);
//@end
//@fn write_array_i16
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), enc_i16s(p0@))
//@loop 0 for it
invariant it.seq().len() == p0@.len(), forall|i: int| 0 <= i < p0@.len() ==> *it.seq()[i] == p0@[i],
  appended(*old(self), *self, enc_i16s(p0@.subrange(0, it.index@ as int)))
//@loopend 0
broadcast use lemma_appended;
proof {
  let k = it.index@ as int;
  assert(p0@.subrange(0, k + 1).drop_last() =~= p0@.subrange(0, k));
  assert(p0@.subrange(0, k + 1).last() == p0@[k]);
}
//@afterloop 0
assert(p0@.subrange(0, p0@.len() as int) =~= p0@);
//@end
//@fn write_array_i8
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), enc_i8s(p0@))
//@loop 0 for it
invariant it.seq().len() == p0@.len(), forall|i: int| 0 <= i < p0@.len() ==> *it.seq()[i] == p0@[i],
  appended(*old(self), *self, enc_i8s(p0@.subrange(0, it.index@ as int)))
//@loopend 0
broadcast use lemma_appended;
proof {
  let k = it.index@ as int;
  assert(p0@.subrange(0, k + 1).drop_last() =~= p0@.subrange(0, k));
  assert(p0@.subrange(0, k + 1).last() == p0@[k]);
}
//@afterloop 0
assert(p0@.subrange(0, p0@.len() as int) =~= p0@);
//@end
//@fn write_array_u64
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), enc_u64s(p0@))
//@loop 0 for it
invariant it.seq().len() == p0@.len(), forall|i: int| 0 <= i < p0@.len() ==> *it.seq()[i] == p0@[i],
  appended(*old(self), *self, enc_u64s(p0@.subrange(0, it.index@ as int)))
//@loopend 0
broadcast use lemma_appended;
proof {
  let k = it.index@ as int;
  assert(p0@.subrange(0, k + 1).drop_last() =~= p0@.subrange(0, k));
  assert(p0@.subrange(0, k + 1).last() == p0@[k]);
}
//@afterloop 0
assert(p0@.subrange(0, p0@.len() as int) =~= p0@);
//@end
//@fn write_array_u32
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), enc_u32s(p0@))
//@loop 0 for it
invariant it.seq().len() == p0@.len(), forall|i: int| 0 <= i < p0@.len() ==> *it.seq()[i] == p0@[i],
  appended(*old(self), *self, enc_u32s(p0@.subrange(0, it.index@ as int)))
//@loopend 0
broadcast use lemma_appended;
proof {
  let k = it.index@ as int;
  assert(p0@.subrange(0, k + 1).drop_last() =~= p0@.subrange(0, k));
  assert(p0@.subrange(0, k + 1).last() == p0@[k]);
}
//@afterloop 0
assert(p0@.subrange(0, p0@.len() as int) =~= p0@);
//@end
//@fn write_array_u16
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), enc_u16s(p0@))
//@loop 0 for it
invariant it.seq().len() == p0@.len(), forall|i: int| 0 <= i < p0@.len() ==> *it.seq()[i] == p0@[i],
  appended(*old(self), *self, enc_u16s(p0@.subrange(0, it.index@ as int)))
//@loopend 0
broadcast use lemma_appended;
proof {
  let k = it.index@ as int;
  assert(p0@.subrange(0, k + 1).drop_last() =~= p0@.subrange(0, k));
  assert(p0@.subrange(0, k + 1).last() == p0@[k]);
}
//@afterloop 0
assert(p0@.subrange(0, p0@.len() as int) =~= p0@);
//@end
//@fn write_string
requires old(self).wf(), encode_utf8(p0@).len() <= i32::MAX
ensures ret is Ok, appended(*old(self), *final(self), enc_str(encode_utf8(p0@)))
//@start
broadcast use axiom_str_len, lemma_appended;

//@end
//@fn write_header
requires old(self).wf()
ensures ret is Ok, ret->Ok_0.pos == old(self).at(), ret->Ok_0.vers == vers, appended(*old(self), *final(self), be32(0) + be16(vers as u16))
//@start
broadcast use lemma_appended, axiom_vec_len;
//@end
//@fn set_header
requires old(self).wf(), old(self).offset <= hdr.pos, hdr.pos + 4 <= old(self).at()
ensures ret is Ok, ret->Ok_0 == old(self).at() - hdr.pos,
  exists|x: u32| #[trigger] patched(*old(self), *final(self), hdr.pos - old(self).offset, be32(x)),
  old(self).at() - hdr.pos - 4 < 0x4000_0000 ==> patched(*old(self), *final(self), hdr.pos - old(self).offset, be32(count_word((old(self).at() - hdr.pos - 4) as u32)))
//@start
broadcast use axiom_vec_len;
proof { if self.at() - hdr.pos - 4 < 0x4000_0000 { lemma_count_word(self.at() - hdr.pos - 4); } }
//@end
//@fn write_in_place
requires old(self).wf(), pos >= old(self).offset, pos - old(self).offset + p0@.len() <= old(self).v().len()
ensures ret is Ok, patched(*old(self), *final(self), pos - old(self).offset, p0@)
//@end
//@fn write_object_nil
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), be32(0))
//@end
//@fn len
ensures ret == self.v().len()
//@end
//@fn write_cstring
requires old(self).wf()
ensures ret is Ok, appended(*old(self), *final(self), encode_utf8(p0@) + be8(0))
//@start
broadcast use lemma_appended;
//@end
//@fn clear
ensures final(self).v().len() == 0, final(self).wf(), final(self).offset == old(self).offset, final(self).refs_p == old(self).refs_p, final(self).refs_s == old(self).refs_s
//@end
//@fn new
ensures ret.v().len() == 0, ret.wf(), ret.offset == offset, ret.refs_p@ == Map::<usize, i64>::empty(), ret.refs_s@ == Map::<String, i64>::empty()
//@end
//@fn buffer
ensures ret@ == self.v()
//@end
//@fn p
ensures ret@ == self.v()
//@end
//@fn pos
requires self.wf()
ensures ret == self.at()
//@start
broadcast use axiom_vec_len;
//@end
//@endimpl

/// s with b laid over it at pos
pub open spec fn overlay(s: Seq<u8>, pos: int, b: Seq<u8>) -> Seq<u8> {
    s.subrange(0, pos) + b + s.subrange(pos + b.len(), s.len() as int)
}
/// only the bytes at pos changed
pub open spec fn patched(pre: WBuffer, post: WBuffer, pos: int, b: Seq<u8>) -> bool {
    &&& post.wf()
    &&& post.v() =~= overlay(pre.v(), pos, b)
    &&& post.offset == pre.offset
    &&& post.refs_p == pre.refs_p
    &&& post.refs_s == pre.refs_s
}
pub open spec fn count_word(n: u32) -> u32 { n | 0x4000_0000 }
pub proof fn lemma_count_word(n: int)
    requires 0 <= n < 0x4000_0000
    ensures ((n as i64) | 0x4000_0000) as u32 == count_word(n as u32), count_word(n as u32) == n + 0x4000_0000,
       count_word(n as u32) & 0xBFFF_FFFF == n as u32, count_word(n as u32) & 0x4000_0000 != 0
{
    let x = n as i64; let y = n as u32;
    assert((x | 0x4000_0000) as u32 == (x as u32) | 0x4000_0000) by (bit_vector);
    assert((y | 0x4000_0000) == y + 0x4000_0000 && (y | 0x4000_0000) & 0xBFFF_FFFF == y && (y | 0x4000_0000) & 0x4000_0000 != 0) by (bit_vector)
        requires y < 0x4000_0000;
}
/// appending twice is appending the concatenation
pub broadcast proof fn lemma_appended(a: WBuffer, b: WBuffer, c: WBuffer, x: Seq<u8>, y: Seq<u8>)
    requires #[trigger] appended(a, b, x), #[trigger] appended(b, c, y)
    ensures appended(a, c, x + y)
{ assert(c.v() =~= a.v() + (x + y)); }
pub open spec fn enc_i64s(s: Seq<i64>) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { enc_i64s(s.drop_last()) + be64(s.last() as u64) } }
pub open spec fn enc_i32s(s: Seq<i32>) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { enc_i32s(s.drop_last()) + be32(s.last() as u32) } }
pub open spec fn enc_i16s(s: Seq<i16>) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { enc_i16s(s.drop_last()) + be16(s.last() as u16) } }
pub open spec fn enc_i8s(s: Seq<i8>) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { enc_i8s(s.drop_last()) + be8(s.last() as u8) } }
pub open spec fn enc_u64s(s: Seq<u64>) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { enc_u64s(s.drop_last()) + be64(s.last()) } }
pub open spec fn enc_u32s(s: Seq<u32>) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { enc_u32s(s.drop_last()) + be32(s.last()) } }
pub open spec fn enc_u16s(s: Seq<u16>) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { enc_u16s(s.drop_last()) + be16(s.last()) } }
/// layout of a counted string: one length byte, or 255 and a 32-bit length
pub open spec fn str_hdr(s: Seq<u8>) -> int { if s[0] == 255 { 5 } else { 1 } }
pub open spec fn str_len(s: Seq<u8>) -> nat { if s[0] != 255 { s[0] as nat } else { w32(from_at(s, 1)) as nat } }
pub open spec fn str_body(s: Seq<u8>) -> Seq<u8> { s.subrange(str_hdr(s), str_hdr(s) + str_len(s)) }
pub open spec fn str_fits(s: Seq<u8>) -> bool { s.len() >= 1 && s.len() >= str_hdr(s) && s.len() >= str_hdr(s) + str_len(s) }
pub open spec fn enc_str(b: Seq<u8>) -> Seq<u8> {
    if b.len() < 255 { seq![b.len() as u8] + b } else { seq![255u8] + be32(b.len() as u32) + b }
}
pub open spec fn has_count(s: Seq<u8>) -> bool { w32(s) & 0x4000_0000 != 0 }
pub proof fn lemma_count_bits(x: u32)
    ensures ((x as i64) & 0x40000000 != 0) == (x & 0x40000000 != 0),
        (x as i64) & !0x40000000i64 == x & 0xBFFF_FFFF
{
    assert(((x as i64) & 0x40000000 != 0) == (x & 0x40000000 != 0)) by (bit_vector);
    assert((x as i64) & !0x40000000i64 == x & 0xBFFF_FFFF) by (bit_vector);
}
pub proof fn lemma_bool_bits(x: u8)
    ensures (x != 0) == (x as i8 != 0)
{ assert((x != 0) == (x as i8 != 0)) by (bit_vector); }
/// how many bytes do_skip_header skips at the start of s
pub open spec fn skipn(s: Seq<u8>, k: Option<i32>) -> int {
    if k is None { 0 }
    else { let n = k->0 as int; if s.len() < n { 0 } else if s.len() > 1 && n > 1 && w8(s) != 64 { 0 } else { n } }
}
pub open spec fn hdr_skip(r: RBuffer) -> int { skipn(r.rest(), r.skip_header) }
// chains of writes and reads, rooted at where they start (so that they cost one step per call)
#[verifier::opaque]
pub open spec fn acc(o: WBuffer, w: WBuffer, x: Seq<u8>) -> bool { appended(o, w, x) }
pub proof fn acc_start(w: WBuffer)
    requires w.wf()
    ensures acc(w, w, Seq::<u8>::empty())
{ reveal(acc); assert(w.v() + Seq::<u8>::empty() =~= w.v()); }
pub broadcast proof fn acc_step(o: WBuffer, a: WBuffer, b: WBuffer, x: Seq<u8>, y: Seq<u8>)
    requires #[trigger] acc(o, a, x), #[trigger] appended(a, b, y)
    ensures acc(o, b, x + y)
{ reveal(acc); assert(b.v() =~= o.v() + (x + y)); }
pub broadcast proof fn acc_end(o: WBuffer, w: WBuffer, x: Seq<u8>)
    requires #[trigger] acc(o, w, x)
    ensures w.wf(), w.v() == o.v() + x, w.offset == o.offset, w.refs_p == o.refs_p, w.refs_s == o.refs_s
{ reveal(acc); }
pub broadcast proof fn empty_add(x: Seq<u8>)
    ensures #[trigger] (Seq::<u8>::empty() + x) == x
{ assert(Seq::<u8>::empty() + x =~= x); }
pub broadcast group group_acc { acc_step, acc_end, empty_add }
#[verifier::opaque]
pub open spec fn rd(s: Seq<u8>, o: RBuffer, r: RBuffer, k: int) -> bool {
    0 <= k <= s.len() && s == o.rest() && o.wf() && took(o, r, k)
}
pub proof fn rd_start(r: RBuffer)
    requires r.wf()
    ensures rd(r.rest(), r, r, 0)
{ reveal(rd); }
pub broadcast proof fn rd_step(s: Seq<u8>, o: RBuffer, a: RBuffer, b: RBuffer, k: int, n: int)
    requires #[trigger] rd(s, o, a, k), #[trigger] consumed(a, b, n), 0 <= k + n <= s.len()
    ensures rd(s, o, b, k + n)
{ reveal(rd); }
pub broadcast proof fn rd_took(s: Seq<u8>, o: RBuffer, a: RBuffer, b: RBuffer, k: int, n: int)
    requires #[trigger] rd(s, o, a, k), #[trigger] took(a, b, n), 0 <= k + n <= s.len()
    ensures rd(s, o, b, k + n)
{ reveal(rd); }
pub broadcast proof fn rd_at(s: Seq<u8>, o: RBuffer, r: RBuffer, k: int)
    requires #[trigger] rd(s, o, r, k)
    ensures r.wf(), r.rest() == from_at(s, k), r.rest().len() == s.len() - k, 0 <= k <= s.len(), s == o.rest(),
        r.r.p == o.r.p, r.r.c == o.r.c + k, r.offset == o.offset, r.refs == o.refs
{ reveal(rd); assert(r.rest() =~= from_at(s, k)); }
pub broadcast group group_rd { rd_step, rd_took, rd_at }
