// ------------------------------------------------------------------ values (Marshaler / Unmarshaler)
pub trait Marshaler: Sized {
    /// the bytes the value is written as
    spec fn enc(&self) -> Seq<u8>;
    /// sizes that the format can count
    spec fn encodable(&self) -> bool;
    /// bytes that have to be in the buffer already (some functions look back at the last one)
    open spec fn lead() -> int { 0 }
    fn marshal(&self, w: &mut WBuffer) -> (ret: Result<i64>)
        requires old(w).wf(), self.encodable(), old(w).v().len() >= Self::lead(),
        ensures ret is Ok, ret->Ok_0 == self.enc().len(), appended(*old(w), *final(w), self.enc());
}
pub trait Unmarshaler: Sized {
    /// s holds at least one whole value
    spec fn fits(s: Seq<u8>) -> bool;
    /// the number of bytes of the value at the start of s
    spec fn used(s: Seq<u8>) -> int;
    /// self is the value at the start of s
    spec fn is(&self, s: Seq<u8>) -> bool;
    /// a value as Default makes it
    spec fn fresh(&self) -> bool;
    /// the skip states under which reading is defined
    spec fn skips(k: Option<i32>) -> bool;
    /// reading starts by skipping a header
    spec fn headered() -> bool;
    /// reading leaves no header skipping behind it
    spec fn calm() -> bool;
    /// s announces something this reader refuses
    open spec fn rejects(s: Seq<u8>) -> bool { false }
    proof fn lemma_used(s: Seq<u8>)
        requires Self::fits(s)
        ensures 0 <= Self::used(s) <= s.len();
    fn unmarshal(&mut self, r: &mut RBuffer) -> (ret: Result<()>)
        requires old(self).fresh(), old(r).wf(), Self::skips(old(r).skip_header), Self::fits(after_skip(*old(r), Self::headered())) || Self::rejects(after_skip(*old(r), Self::headered()))
        ensures Self::rejects(after_skip(*old(r), Self::headered())) ==> ret is Err,
            Self::fits(after_skip(*old(r), Self::headered())) ==> ret is Ok && final(self).is(after_skip(*old(r), Self::headered())) && took(*old(r), *final(r), skip_of(*old(r), Self::headered()) + Self::used(after_skip(*old(r), Self::headered()))),
            Self::calm() ==> quiet(*old(r), *final(r));
}
pub open spec fn noskip(k: Option<i32>) -> bool { k is None || k == Some(0i32) }
pub open spec fn skip_of(r: RBuffer, headered: bool) -> int { if headered { hdr_skip(r) } else { 0 } }
pub open spec fn after_skip(r: RBuffer, headered: bool) -> Seq<u8> { from_at(r.rest(), skip_of(r, headered)) }
/// like consumed, except that the header-skip state may have been switched off
pub open spec fn took(pre: RBuffer, post: RBuffer, n: int) -> bool {
    &&& post.wf() && post.r.p == pre.r.p && post.r.c == pre.r.c + n && post.offset == pre.offset && post.refs == pre.refs
}
/// header skipping was left as it was, or switched off
pub open spec fn quiet(pre: RBuffer, post: RBuffer) -> bool { post.skip_header == pre.skip_header || noskip(post.skip_header) }
pub broadcast proof fn lemma_took(pre: RBuffer, post: RBuffer, n: int)
    requires #[trigger] took(pre, post, n), pre.wf(), 0 <= n
    ensures post.rest() == from_at(pre.rest(), n)
{ assert(post.rest() =~= from_at(pre.rest(), n)); }
// <T as Default>::default(): only that the value is as fresh as its type's contract needs
#[verifier::external_body]
pub fn vx_default<T: Default + Unmarshaler>() -> (r: T) ensures r.fresh() { T::default() }

pub trait UnmarshalerInto: Sized {
    type Item: Default + Unmarshaler;
    fn unmarshal_into(r: &mut RBuffer) -> (ret: Result<Self::Item>)
        requires old(r).wf(), <Self::Item as Unmarshaler>::skips(old(r).skip_header), <Self::Item as Unmarshaler>::fits(after_skip(*old(r), <Self::Item as Unmarshaler>::headered())) || <Self::Item as Unmarshaler>::rejects(after_skip(*old(r), <Self::Item as Unmarshaler>::headered()))
        ensures <Self::Item as Unmarshaler>::rejects(after_skip(*old(r), <Self::Item as Unmarshaler>::headered())) ==> ret is Err,
            <Self::Item as Unmarshaler>::fits(after_skip(*old(r), <Self::Item as Unmarshaler>::headered())) ==> ret is Ok && ret->Ok_0.is(after_skip(*old(r), <Self::Item as Unmarshaler>::headered()))
                && took(*old(r), *final(r), skip_of(*old(r), <Self::Item as Unmarshaler>::headered()) + <Self::Item as Unmarshaler>::used(after_skip(*old(r), <Self::Item as Unmarshaler>::headered()))),
            <Self::Item as Unmarshaler>::calm() ==> quiet(*old(r), *final(r));
}
//@impl oxyroot/src/rbytes/mod.rs | UnmarshalerInto for T
type Item = T;
//@fn unmarshal_into
//@rewrite Self::Item::default\(\) => vx_default::<Self::Item>()
//@end
//@endimpl
//@impl oxyroot/src/rbytes/rbuffer.rs | RBuffer
//@fn read_object_into
requires old(self).wf(), T::skips(old(self).skip_header), T::fits(after_skip(*old(self), T::headered())) || T::rejects(after_skip(*old(self), T::headered()))
ensures T::rejects(after_skip(*old(self), T::headered())) ==> ret is Err,
  T::fits(after_skip(*old(self), T::headered())) ==> ret is Ok && ret->Ok_0.is(after_skip(*old(self), T::headered()))
    && took(*old(self), *final(self), skip_of(*old(self), T::headered()) + T::used(after_skip(*old(self), T::headered()))), T::calm() ==> quiet(*old(self), *final(self))
//@end
//@fn read_object
requires old(obj).fresh(), old(self).wf(), T::skips(old(self).skip_header), T::fits(after_skip(*old(self), T::headered())) || T::rejects(after_skip(*old(self), T::headered()))
ensures T::rejects(after_skip(*old(self), T::headered())) ==> ret is Err,
  T::fits(after_skip(*old(self), T::headered())) ==> ret is Ok && final(obj).is(after_skip(*old(self), T::headered()))
    && took(*old(self), *final(self), skip_of(*old(self), T::headered()) + T::used(after_skip(*old(self), T::headered()))), T::calm() ==> quiet(*old(self), *final(self))
//@end
//@endimpl
//@impl oxyroot/src/rbytes/wbuffer.rs | WBuffer
//@fn write_object
requires old(self).wf(), obj.encodable(), old(self).v().len() >= vx_lead(obj)
ensures ret is Ok, ret->Ok_0 == obj.enc().len(), appended(*old(self), *final(self), obj.enc())
//@start
broadcast use axiom_vec_len;
//@end
//@endimpl
pub open spec fn vx_lead<T: Marshaler>(x: &T) -> int { T::lead() }

//@macro oxyroot/src/rbytes/mod.rs impl_marshalers_primitive 0 buffer_read_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:1 buffer_write_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:2 ftype=i8
//@impl @ | Marshaler for i8
open spec fn enc(&self) -> Seq<u8> { be8(*self as u8) }
open spec fn encodable(&self) -> bool { true }
//@fn marshal
//@start
broadcast use axiom_vec_len;
//@end
//@endimpl
//@impl @ | Unmarshaler for i8
open spec fn fits(s: Seq<u8>) -> bool { s.len() >= 1 }
open spec fn used(s: Seq<u8>) -> int { 1 }
open spec fn is(&self, s: Seq<u8>) -> bool { *self == w8(s) as i8 }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@start
broadcast use lemma_from_at, lemma_took;
proof { assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rbytes/mod.rs impl_marshalers_primitive 0 buffer_read_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:1 buffer_write_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:2 ftype=u8
//@impl @ | Marshaler for u8
open spec fn enc(&self) -> Seq<u8> { be8(*self) }
open spec fn encodable(&self) -> bool { true }
//@fn marshal
//@start
broadcast use axiom_vec_len;
//@end
//@endimpl
//@impl @ | Unmarshaler for u8
open spec fn fits(s: Seq<u8>) -> bool { s.len() >= 1 }
open spec fn used(s: Seq<u8>) -> int { 1 }
open spec fn is(&self, s: Seq<u8>) -> bool { *self == w8(s) }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@start
broadcast use lemma_from_at, lemma_took;
proof { assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rbytes/mod.rs impl_marshalers_primitive 0 buffer_read_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:1 buffer_write_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:2 ftype=i16
//@impl @ | Marshaler for i16
open spec fn enc(&self) -> Seq<u8> { be16(*self as u16) }
open spec fn encodable(&self) -> bool { true }
//@fn marshal
//@start
broadcast use axiom_vec_len;
//@end
//@endimpl
//@impl @ | Unmarshaler for i16
open spec fn fits(s: Seq<u8>) -> bool { s.len() >= 2 }
open spec fn used(s: Seq<u8>) -> int { 2 }
open spec fn is(&self, s: Seq<u8>) -> bool { *self == w16(s) as i16 }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@start
broadcast use lemma_from_at, lemma_took;
proof { assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rbytes/mod.rs impl_marshalers_primitive 0 buffer_read_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:1 buffer_write_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:2 ftype=u16
//@impl @ | Marshaler for u16
open spec fn enc(&self) -> Seq<u8> { be16(*self) }
open spec fn encodable(&self) -> bool { true }
//@fn marshal
//@start
broadcast use axiom_vec_len;
//@end
//@endimpl
//@impl @ | Unmarshaler for u16
open spec fn fits(s: Seq<u8>) -> bool { s.len() >= 2 }
open spec fn used(s: Seq<u8>) -> int { 2 }
open spec fn is(&self, s: Seq<u8>) -> bool { *self == w16(s) }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@start
broadcast use lemma_from_at, lemma_took;
proof { assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rbytes/mod.rs impl_marshalers_primitive 0 buffer_read_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:1 buffer_write_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:2 ftype=i32
//@impl @ | Marshaler for i32
open spec fn enc(&self) -> Seq<u8> { be32(*self as u32) }
open spec fn encodable(&self) -> bool { true }
//@fn marshal
//@start
broadcast use axiom_vec_len;
//@end
//@endimpl
//@impl @ | Unmarshaler for i32
open spec fn fits(s: Seq<u8>) -> bool { s.len() >= 4 }
open spec fn used(s: Seq<u8>) -> int { 4 }
open spec fn is(&self, s: Seq<u8>) -> bool { *self == w32(s) as i32 }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@start
broadcast use lemma_from_at, lemma_took;
proof { assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rbytes/mod.rs impl_marshalers_primitive 0 buffer_read_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:1 buffer_write_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:2 ftype=u32
//@impl @ | Marshaler for u32
open spec fn enc(&self) -> Seq<u8> { be32(*self) }
open spec fn encodable(&self) -> bool { true }
//@fn marshal
//@start
broadcast use axiom_vec_len;
//@end
//@endimpl
//@impl @ | Unmarshaler for u32
open spec fn fits(s: Seq<u8>) -> bool { s.len() >= 4 }
open spec fn used(s: Seq<u8>) -> int { 4 }
open spec fn is(&self, s: Seq<u8>) -> bool { *self == w32(s) }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@start
broadcast use lemma_from_at, lemma_took;
proof { assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rbytes/mod.rs impl_marshalers_primitive 0 buffer_read_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:1 buffer_write_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:2 ftype=i64
//@impl @ | Marshaler for i64
open spec fn enc(&self) -> Seq<u8> { be64(*self as u64) }
open spec fn encodable(&self) -> bool { true }
//@fn marshal
//@start
broadcast use axiom_vec_len;
//@end
//@endimpl
//@impl @ | Unmarshaler for i64
open spec fn fits(s: Seq<u8>) -> bool { s.len() >= 8 }
open spec fn used(s: Seq<u8>) -> int { 8 }
open spec fn is(&self, s: Seq<u8>) -> bool { *self == w64(s) as i64 }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@start
broadcast use lemma_from_at, lemma_took;
proof { assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rbytes/mod.rs impl_marshalers_primitive 0 buffer_read_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:1 buffer_write_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:2 ftype=u64
//@impl @ | Marshaler for u64
open spec fn enc(&self) -> Seq<u8> { be64(*self) }
open spec fn encodable(&self) -> bool { true }
//@fn marshal
//@start
broadcast use axiom_vec_len;
//@end
//@endimpl
//@impl @ | Unmarshaler for u64
open spec fn fits(s: Seq<u8>) -> bool { s.len() >= 8 }
open spec fn used(s: Seq<u8>) -> int { 8 }
open spec fn is(&self, s: Seq<u8>) -> bool { *self == w64(s) }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@start
broadcast use lemma_from_at, lemma_took;
proof { assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rbytes/mod.rs impl_marshalers_primitive 0 buffer_read_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:1 buffer_write_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:2 ftype=f32
//@impl @ | Marshaler for f32
open spec fn enc(&self) -> Seq<u8> { be32(f32_bits(*self)) }
open spec fn encodable(&self) -> bool { true }
//@fn marshal
//@start
broadcast use axiom_vec_len;
//@end
//@endimpl
//@impl @ | Unmarshaler for f32
open spec fn fits(s: Seq<u8>) -> bool { s.len() >= 4 }
open spec fn used(s: Seq<u8>) -> int { 4 }
open spec fn is(&self, s: Seq<u8>) -> bool { f32_bits(*self) == w32(s) }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@start
broadcast use lemma_from_at, lemma_took;
proof { assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rbytes/mod.rs impl_marshalers_primitive 0 buffer_read_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:1 buffer_write_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:2 ftype=f64
//@impl @ | Marshaler for f64
open spec fn enc(&self) -> Seq<u8> { be64(f64_bits(*self)) }
open spec fn encodable(&self) -> bool { true }
//@fn marshal
//@start
broadcast use axiom_vec_len;
//@end
//@endimpl
//@impl @ | Unmarshaler for f64
open spec fn fits(s: Seq<u8>) -> bool { s.len() >= 8 }
open spec fn used(s: Seq<u8>) -> int { 8 }
open spec fn is(&self, s: Seq<u8>) -> bool { f64_bits(*self) == w64(s) }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@start
broadcast use lemma_from_at, lemma_took;
proof { assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rbytes/mod.rs impl_marshalers_primitive 0 buffer_read_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:1 buffer_write_fn=@oxyroot/src/rbytes/mod.rs:impl_marshalers_primitive:$ftype:2 ftype=bool
//@impl @ | Marshaler for bool
open spec fn enc(&self) -> Seq<u8> { be8(if *self { 1u8 } else { 0u8 }) }
open spec fn encodable(&self) -> bool { true }
//@fn marshal
//@start
broadcast use axiom_vec_len;
//@end
//@endimpl
//@impl @ | Unmarshaler for bool
open spec fn fits(s: Seq<u8>) -> bool { s.len() >= 1 }
open spec fn used(s: Seq<u8>) -> int { 1 }
open spec fn is(&self, s: Seq<u8>) -> bool { *self == (w8(s) != 0) }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@start
broadcast use lemma_from_at, lemma_took;
proof { assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
//@endmacro
//@impl oxyroot/src/rbytes/mod.rs | Marshaler for String
open spec fn enc(&self) -> Seq<u8> { enc_str(encode_utf8(self@)) }
open spec fn encodable(&self) -> bool { encode_utf8(self@).len() <= i32::MAX }
//@fn marshal
//@start
broadcast use axiom_vec_len;
//@end
//@endimpl
//@impl oxyroot/src/rbytes/mod.rs | Unmarshaler for String
open spec fn fits(s: Seq<u8>) -> bool { str_fits(s) }
open spec fn used(s: Seq<u8>) -> int { str_hdr(s) + str_len(s) }
open spec fn is(&self, s: Seq<u8>) -> bool { valid_utf8(str_body(s)) ==> encode_utf8(self@) == str_body(s) }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { k is Some ==> 0 <= k->0 }
open spec fn headered() -> bool { true }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@start
broadcast use lemma_from_at, lemma_took, lemma_consumed;
proof { lemma_hdr_skip(*r); }
//@end
//@endimpl
pub proof fn lemma_hdr_skip(r: RBuffer)
    requires r.wf(), r.skip_header is Some ==> 0 <= r.skip_header->0
    ensures 0 <= hdr_skip(r) <= r.rest().len(), noskip(r.skip_header) ==> hdr_skip(r) == 0
{}
// ---- element lists: n values of T one after the other
pub open spec fn list_used<T: Unmarshaler>(s: Seq<u8>, n: int) -> int decreases n
{ if n <= 0 { 0 } else { list_used::<T>(s, n - 1) + T::used(from_at(s, list_used::<T>(s, n - 1))) } }
pub open spec fn list_fits<T: Unmarshaler>(s: Seq<u8>, n: int) -> bool
{ forall|i: int| 0 <= i < n ==> T::fits(from_at(s, #[trigger] list_used::<T>(s, i))) }
pub open spec fn list_is<T: Unmarshaler>(v: Seq<T>, s: Seq<u8>) -> bool
{ forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i].is(from_at(s, list_used::<T>(s, i))) }
pub broadcast proof fn lemma_list<T: Unmarshaler>(s: Seq<u8>, n: int)
    requires list_fits::<T>(s, n), 0 <= n
    ensures 0 <= #[trigger] list_used::<T>(s, n) <= s.len(), forall|i: int| 0 <= i < n ==> 0 <= #[trigger] list_used::<T>(s, i) <= s.len()
    decreases n
{
    if n > 0 {
        assert(list_fits::<T>(s, n - 1));
        lemma_list::<T>(s, n - 1);
        assert(T::fits(from_at(s, list_used::<T>(s, n - 1))));
        T::lemma_used(from_at(s, list_used::<T>(s, n - 1)));
    }
}
pub open spec fn list_enc<T: Marshaler>(v: Seq<T>) -> Seq<u8> decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { list_enc(v.drop_last()) + v.last().enc() } }
pub open spec fn cnt(s: Seq<u8>) -> int { (w32(s) as i32) as int }

//@impl oxyroot/src/rbytes/mod.rs | Unmarshaler for Vec<T>
open spec fn fits(s: Seq<u8>) -> bool { s.len() >= 4 && cnt(s) >= 0 && list_fits::<T>(from_at(s, 4), cnt(s)) && T::skips(None) && T::calm() && T::skips(Some(0)) }
open spec fn used(s: Seq<u8>) -> int { 4 + list_used::<T>(from_at(s, 4), cnt(s)) }
open spec fn is(&self, s: Seq<u8>) -> bool { self@.len() == cnt(s) && list_is(self@, from_at(s, 4)) }
open spec fn fresh(&self) -> bool { self@.len() == 0 }
open spec fn skips(k: Option<i32>) -> bool { k is Some ==> 0 <= k->0 }
open spec fn headered() -> bool { true }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { lemma_list::<T>(from_at(s, 4), cnt(s)); }
//@fn unmarshal
//@start
broadcast use lemma_from_at, lemma_took, lemma_consumed;
let ghost r0 = *r;
let ghost s0 = after_skip(*r, true);
proof { lemma_hdr_skip(*r); lemma_list::<T>(from_at(s0, 4), cnt(s0)); }
//@loop 0 for it
invariant it.seq().len() == cnt(s0), self@.len() == it.index@, r0.wf(), noskip(r.skip_header), Self::fits(s0), r0.skip_header is Some ==> 0 <= r0.skip_header->0,
  s0 == after_skip(r0, true), hdr_skip(r0) >= 0,
  took(r0, *r, hdr_skip(r0) + 4 + list_used::<T>(from_at(s0, 4), it.index@)),
  list_is(self@, from_at(s0, 4))
//@loopstart 0
broadcast use lemma_from_at, lemma_took, lemma_consumed;
proof { lemma_list::<T>(from_at(s0, 4), it.index@); lemma_hdr_skip(*r); lemma_hdr_skip(r0); assert(T::fits(from_at(from_at(s0, 4), list_used::<T>(from_at(s0, 4), it.index@)))); 
  assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
//@impl oxyroot/src/rbytes/mod.rs | Marshaler for Vec<T>
open spec fn lead() -> int { T::lead() }
open spec fn enc(&self) -> Seq<u8> { be32(self@.len() as u32) + list_enc(self@) }
open spec fn encodable(&self) -> bool { self@.len() <= i32::MAX && forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i].encodable() }
//@fn marshal
//@start
broadcast use axiom_vec_len, lemma_appended;
let ghost w0 = *w;
//@loop 0 for it
invariant it.seq().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *it.seq()[i] == self@[i], self.encodable(), w0.v().len() >= T::lead(),
  appended(w0, *w, be32(self@.len() as u32) + list_enc(self@.subrange(0, it.index@ as int)))
//@loopend 0
broadcast use lemma_appended;
proof {
  let k = it.index@ as int;
  assert(self@.subrange(0, k + 1).drop_last() =~= self@.subrange(0, k));
  assert(self@.subrange(0, k + 1).last() == self@[k]);
  let a = be32(self@.len() as u32); let b = list_enc(self@.subrange(0, k)); let c = self@[k].enc();
  assert((a + b) + c =~= a + (b + c));
}
//@afterloop 0
assert(self@.subrange(0, self@.len() as int) =~= self@);
//@end
//@endimpl
//@impl oxyroot/src/rbytes/mod.rs | Unmarshaler for [T;N]
open spec fn fits(s: Seq<u8>) -> bool { list_fits::<T>(s, N as int) && T::skips(None) && T::calm() && T::skips(Some(0)) }
open spec fn used(s: Seq<u8>) -> int { list_used::<T>(s, N as int) }
open spec fn is(&self, s: Seq<u8>) -> bool { list_is(self@, s) }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { noskip(k) || !T::headered() && T::skips(k) }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { T::calm() }
proof fn lemma_used(s: Seq<u8>) { lemma_list::<T>(s, N as int); }
//@fn unmarshal
//@start
broadcast use lemma_from_at, lemma_took, lemma_consumed;
let ghost r0 = *r;
let ghost s0 = r.rest();
proof { assert(from_at(s0, 0) =~= s0); lemma_list::<T>(s0, N as int); }
//@hoist 0
//@beforeloop 0
let ghost q0 = vstd::std_specs::iter::IteratorSpec::remaining(&vx_it0);
//@loop 0 for it
invariant it.seq() == q0, q0.len() == N, r0.wf(), Self::fits(s0), Self::skips(r0.skip_header), s0 == r0.rest(), 
  quiet(r0, *r),
  took(r0, *r, list_used::<T>(s0, it.index@ as int)),
  forall|i: int| 0 <= i < it.index@ ==> (*final(#[trigger] q0[i])).is(from_at(s0, list_used::<T>(s0, i)))
//@loopstart 0
broadcast use lemma_from_at, lemma_took, lemma_consumed;
proof { 
  let k = it.index@ as int;
  lemma_list::<T>(s0, k); assert(T::fits(from_at(s0, list_used::<T>(s0, k))));
  assert(r.rest() == from_at(s0, list_used::<T>(s0, k)));
  assert(from_at(r.rest(), 0) =~= r.rest());
  assert(T::skips(r.skip_header));
  if noskip(r.skip_header) { lemma_hdr_skip(*r); } }
//@afterloop 0
proof {
  assert forall|i: int| 0 <= i < N implies #[trigger] final(self)@[i].is(from_at(s0, list_used::<T>(s0, i))) by {
    assert(final(self)@[i] == *final(q0[i]));
  }
}
//@end
//@endimpl
//@impl oxyroot/src/rbytes/mod.rs | Marshaler for [T;N]
open spec fn lead() -> int { T::lead() }
open spec fn enc(&self) -> Seq<u8> { list_enc(self@) }
open spec fn encodable(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i].encodable() }
//@fn marshal
//@start
broadcast use axiom_vec_len, lemma_appended;
let ghost w0 = *w;
//@loop 0 for it
invariant it.seq().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *it.seq()[i] == self@[i], self.encodable(), w0.v().len() >= T::lead(),
  appended(w0, *w, list_enc(self@.subrange(0, it.index@ as int)))
//@loopend 0
broadcast use lemma_appended;
proof {
  let k = it.index@ as int;
  assert(self@.subrange(0, k + 1).drop_last() =~= self@.subrange(0, k));
  assert(self@.subrange(0, k + 1).last() == self@[k]);
}
//@afterloop 0
assert(self@.subrange(0, self@.len() as int) =~= self@);
//@end
//@endimpl
pub open spec fn key_model<K>() -> bool { vstd::std_specs::hash::obeys_key_model::<K>() && vstd::std_specs::hash::builds_valid_hashers::<std::hash::RandomState>() }
pub open spec fn set_of<T>(v: Seq<T>) -> Set<T> decreases v.len()
{ if v.len() == 0 { Set::empty() } else { set_of(v.drop_last()).insert(v.last()) } }
//@impl oxyroot/src/rbytes/mod.rs | Unmarshaler for HashSet<T>
open spec fn fits(s: Seq<u8>) -> bool { s.len() >= 4 && cnt(s) >= 0 && list_fits::<T>(from_at(s, 4), cnt(s)) && T::skips(None) && T::calm() && T::skips(Some(0)) && key_model::<T>() }
open spec fn used(s: Seq<u8>) -> int { 4 + list_used::<T>(from_at(s, 4), cnt(s)) }
open spec fn is(&self, s: Seq<u8>) -> bool { exists|v: Seq<T>| #![all_triggers] v.len() == cnt(s) && list_is(v, from_at(s, 4)) && self@ == set_of(v) }
open spec fn fresh(&self) -> bool { self@ == Set::<T>::empty() }
open spec fn skips(k: Option<i32>) -> bool { k is Some ==> 0 <= k->0 }
open spec fn headered() -> bool { true }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { lemma_list::<T>(from_at(s, 4), cnt(s)); }
//@fn unmarshal
//@start
broadcast use lemma_from_at, lemma_took, lemma_consumed;
let ghost r0 = *r;
let ghost s0 = after_skip(*r, true);
let ghost mut v: Seq<T> = Seq::empty();
proof { lemma_hdr_skip(*r); lemma_list::<T>(from_at(s0, 4), cnt(s0)); }
//@loop 0 for it
invariant it.seq().len() == cnt(s0), v.len() == it.index@, self@ == set_of(v), r0.wf(), noskip(r.skip_header), Self::fits(s0), r0.skip_header is Some ==> 0 <= r0.skip_header->0,
  s0 == after_skip(r0, true), hdr_skip(r0) >= 0,
  took(r0, *r, hdr_skip(r0) + 4 + list_used::<T>(from_at(s0, 4), it.index@)),
  list_is(v, from_at(s0, 4))
//@loopstart 0
broadcast use lemma_from_at, lemma_took, lemma_consumed;
proof { lemma_list::<T>(from_at(s0, 4), it.index@); lemma_hdr_skip(*r); lemma_hdr_skip(r0); assert(T::fits(from_at(from_at(s0, 4), list_used::<T>(from_at(s0, 4), it.index@)))); 
  assert(from_at(r.rest(), 0) =~= r.rest()); }
//@before self\.insert
let ghost v0 = v;
proof { v = v.push(a); assert(v.drop_last() =~= v0); }
//@end
//@endimpl
pub open spec fn map_of<K, V>(k: Seq<K>, v: Seq<V>) -> Map<K, V> decreases k.len()
{ if k.len() == 0 { Map::empty() } else { map_of(k.drop_last(), v.drop_last()).insert(k.last(), v.last()) } }
/// where the n keys (or values) of a map start: a header in front of the first one is skipped
pub open spec fn run<K: Unmarshaler>(s: Seq<u8>, n: int) -> Seq<u8>
{ from_at(s, run_skip::<K>(s, n)) }
pub open spec fn run_skip<K: Unmarshaler>(s: Seq<u8>, n: int) -> int { if K::headered() && n > 0 { skipn(s, Some(6)) } else { 0 } }
pub open spec fn run_ok<K: Unmarshaler>() -> bool { K::skips(Some(6)) && K::skips(Some(0)) }
//@impl oxyroot/src/rbytes/mod.rs | Unmarshaler for HashMap<K,V>
open spec fn fits(s: Seq<u8>) -> bool {
  s.len() >= 4 && cnt(s) >= 0 && key_model::<K>() && run_ok::<K>() && run_ok::<V>() && ({
    let n = cnt(s); let ks = run::<K>(from_at(s, 4), n);
    list_fits::<K>(ks, n) && list_fits::<V>(run::<V>(from_at(ks, list_used::<K>(ks, n)), n), n) }) }
open spec fn used(s: Seq<u8>) -> int {
  let n = cnt(s); let ks = run::<K>(from_at(s, 4), n); let v1 = from_at(ks, list_used::<K>(ks, n));
  4 + run_skip::<K>(from_at(s, 4), n) + list_used::<K>(ks, n) + run_skip::<V>(v1, n) + list_used::<V>(run::<V>(v1, n), n) }
open spec fn is(&self, s: Seq<u8>) -> bool {
  let n = cnt(s); let ks = run::<K>(from_at(s, 4), n); let v1 = from_at(ks, list_used::<K>(ks, n));
  exists|k: Seq<K>, v: Seq<V>| #![all_triggers] k.len() == n && v.len() == n && list_is(k, ks) && list_is(v, run::<V>(v1, n)) && self@ == map_of(k, v) }
open spec fn fresh(&self) -> bool { self@ == Map::<K, V>::empty() }
open spec fn skips(k: Option<i32>) -> bool { k is Some ==> 0 <= k->0 }
open spec fn headered() -> bool { true }
open spec fn calm() -> bool { false }
proof fn lemma_used(s: Seq<u8>) { 
  let n = cnt(s); let ks = run::<K>(from_at(s, 4), n); lemma_list::<K>(ks, n);
  let v1 = from_at(ks, list_used::<K>(ks, n)); lemma_list::<V>(run::<V>(v1, n), n); }
//@fn unmarshal
//@attr #[verifier::rlimit(100)]
//@attr #[verifier::spinoff_prover]
//@start
broadcast use lemma_from_at, lemma_took, lemma_consumed;
let ghost r0 = *r;
let ghost s0 = after_skip(*r, true);
let ghost n = cnt(s0); 
let ghost s4 = from_at(s0, 4);
let ghost ks = run::<K>(s4, n); 
let ghost v1 = from_at(ks, list_used::<K>(ks, n));
let ghost vs = run::<V>(v1, n);
let ghost k4 = run_skip::<K>(s4, n);
let ghost kv = run_skip::<V>(v1, n);
let ghost h0 = hdr_skip(*r);
let ghost ku = list_used::<K>(ks, n);
proof { lemma_hdr_skip(*r); lemma_list::<K>(ks, n); lemma_list::<V>(vs, n); }
//@loop 0 for it
invariant it.seq().len() == n, keys@.len() == it.index@, r0.wf(), Self::fits(s0), n == cnt(s0), s4 == from_at(s0, 4), ks == run::<K>(s4, n), k4 == run_skip::<K>(s4, n),
  r.skip_header == Some(if it.index@ == 0 { 6i32 } else { 0i32 }), self@ == Map::<K, V>::empty(),
  h0 == hdr_skip(r0), 0 <= h0 <= r0.rest().len(), s0 == from_at(r0.rest(), h0),
  took(r0, *r, h0 + 4 + (if it.index@ == 0 { 0 } else { k4 + list_used::<K>(ks, it.index@ as int) })),
  list_is(keys@, ks)
//@loopstart 0
broadcast use lemma_from_at, lemma_took, lemma_consumed;
let ghost rr = *r;
let ghost i = it.index@ as int;
proof {
  lemma_list::<K>(ks, i); assert(K::fits(from_at(ks, list_used::<K>(ks, i))));
  assert(from_at(r.rest(), 0) =~= r.rest());
  if i == 0 { assert(list_used::<K>(ks, 0) == 0); assert(from_at(ks, 0) =~= ks); assert(r.rest() == s4); }
  else { assert(r.rest() == from_at(ks, list_used::<K>(ks, i))); }
  assert(after_skip(*r, K::headered()) == from_at(ks, list_used::<K>(ks, i)));
  K::lemma_used(from_at(ks, list_used::<K>(ks, i)));
}
//@loop 1 for it
invariant it.seq().len() == n, values@.len() == it.index@, keys@.len() == n, list_is(keys@, ks), r0.wf(), Self::fits(s0), n == cnt(s0), s4 == from_at(s0, 4), ks == run::<K>(s4, n), k4 == run_skip::<K>(s4, n),
  v1 == from_at(ks, ku), ku == list_used::<K>(ks, n), vs == run::<V>(v1, n), kv == run_skip::<V>(v1, n), 0 <= ku <= ks.len(), self@ == Map::<K, V>::empty(),
  r.skip_header == Some(if it.index@ == 0 { 6i32 } else { 0i32 }),
  h0 == hdr_skip(r0), 0 <= h0 <= r0.rest().len(), s0 == from_at(r0.rest(), h0),
  took(r0, *r, h0 + 4 + k4 + ku + (if it.index@ == 0 { 0 } else { kv + list_used::<V>(vs, it.index@ as int) })),
  list_is(values@, vs)
//@loopstart 1
broadcast use lemma_from_at, lemma_took, lemma_consumed;
let ghost rr = *r;
let ghost i = it.index@ as int;
proof {
  lemma_list::<V>(vs, i); assert(V::fits(from_at(vs, list_used::<V>(vs, i))));
  assert(from_at(r.rest(), 0) =~= r.rest());
  if i == 0 { assert(list_used::<V>(vs, 0) == 0); assert(from_at(vs, 0) =~= vs); assert(r.rest() == v1); }
  else { assert(r.rest() == from_at(vs, list_used::<V>(vs, i))); }
  assert(after_skip(*r, V::headered()) == from_at(vs, list_used::<V>(vs, i)));
  V::lemma_used(from_at(vs, list_used::<V>(vs, i)));
}
//@beforeloop 2
let ghost kk = keys@; let ghost vv = values@;
//@loop 2 for it
invariant it.seq().len() == n, kk.len() == n, vv.len() == n, key_model::<K>(), forall|i: int| 0 <= i < n ==> #[trigger] it.seq()[i] == (kk[i], vv[i]),
  self@ == map_of(kk.subrange(0, it.index@ as int), vv.subrange(0, it.index@ as int)),
//@loopend 2
proof {
  let i = it.index@ as int;
  assert(kk.subrange(0, i + 1).drop_last() =~= kk.subrange(0, i));
  assert(vv.subrange(0, i + 1).drop_last() =~= vv.subrange(0, i));
}
//@afterloop 2
proof { assert(kk.subrange(0, n) =~= kk); assert(vv.subrange(0, n) =~= vv); }
//@end
//@endimpl
