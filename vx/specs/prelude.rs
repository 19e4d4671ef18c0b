#![allow(unused, non_upper_case_globals, non_snake_case, dead_code, non_camel_case_types, private_interfaces, private_bounds)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;

pub mod base {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
/// where the source panics: has to be shown unreachable
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { panic!() }
// ------------------------------------------------------------------ machine bytes (spec)
pub open spec fn be8(x: u8) -> Seq<u8> { seq![x] }
pub open spec fn be16(x: u16) -> Seq<u8> { seq![(x >> 8) as u8, x as u8] }
pub open spec fn be32(x: u32) -> Seq<u8> { seq![(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8] }
pub open spec fn be64(x: u64) -> Seq<u8> {
    seq![(x >> 56) as u8, (x >> 48) as u8, (x >> 40) as u8, (x >> 32) as u8,
         (x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8]
}
pub open spec fn w8(s: Seq<u8>) -> u8 { s[0] }
pub open spec fn w16(s: Seq<u8>) -> u16 { (s[0] as u16) << 8 | (s[1] as u16) }
pub open spec fn w32(s: Seq<u8>) -> u32 { (s[0] as u32) << 24 | (s[1] as u32) << 16 | (s[2] as u32) << 8 | (s[3] as u32) }
pub open spec fn w64(s: Seq<u8>) -> u64 {
    (s[0] as u64) << 56 | (s[1] as u64) << 48 | (s[2] as u64) << 40 | (s[3] as u64) << 32
    | (s[4] as u64) << 24 | (s[5] as u64) << 16 | (s[6] as u64) << 8 | (s[7] as u64)
}
pub uninterp spec fn f32_bits(x: f32) -> u32;
pub uninterp spec fn f64_bits(x: f64) -> u64;

/// a word function inverts the encoding of its width, wherever the encoding is a prefix
pub broadcast proof fn lemma_w8(s: Seq<u8>, x: u8)
    requires #[trigger] starts_with(s, be8(x))
    ensures w8(s) == x, s.len() >= 1
{ assert(s.subrange(0, 1)[0] == be8(x)[0]); }
pub broadcast proof fn lemma_w16(s: Seq<u8>, x: u16)
    requires #[trigger] starts_with(s, be16(x))
    ensures w16(s) == x, s.len() >= 2
{
    let p = s.subrange(0, 2);
    assert(p[0] == s[0] && p[1] == s[1]);
    assert(be16(x)[0] == (x >> 8) as u8 && be16(x)[1] == x as u8);
    assert((((x >> 8) as u8) as u16) << 8 | ((x as u8) as u16) == x) by (bit_vector);
}
pub broadcast proof fn lemma_w32(s: Seq<u8>, x: u32)
    requires #[trigger] starts_with(s, be32(x))
    ensures w32(s) == x, s.len() >= 4
{
    let p = s.subrange(0, 4);
    assert(p[0] == s[0] && p[1] == s[1] && p[2] == s[2] && p[3] == s[3]);
    assert(be32(x)[0] == (x >> 24) as u8 && be32(x)[1] == (x >> 16) as u8 && be32(x)[2] == (x >> 8) as u8 && be32(x)[3] == x as u8);
    assert((((x >> 24) as u8) as u32) << 24 | (((x >> 16) as u8) as u32) << 16 | (((x >> 8) as u8) as u32) << 8 | ((x as u8) as u32) == x) by (bit_vector);
}
pub broadcast proof fn lemma_w64(s: Seq<u8>, x: u64)
    requires #[trigger] starts_with(s, be64(x))
    ensures w64(s) == x, s.len() >= 8
{
    let p = s.subrange(0, 8);
    assert(p[0] == s[0] && p[1] == s[1] && p[2] == s[2] && p[3] == s[3] && p[4] == s[4] && p[5] == s[5] && p[6] == s[6] && p[7] == s[7]);
    let b = be64(x);
    assert(b[0] == (x >> 56) as u8 && b[1] == (x >> 48) as u8 && b[2] == (x >> 40) as u8 && b[3] == (x >> 32) as u8
        && b[4] == (x >> 24) as u8 && b[5] == (x >> 16) as u8 && b[6] == (x >> 8) as u8 && b[7] == x as u8);
    assert((((x >> 56) as u8) as u64) << 56 | (((x >> 48) as u8) as u64) << 48 | (((x >> 40) as u8) as u64) << 40 | (((x >> 32) as u8) as u64) << 32
        | (((x >> 24) as u8) as u64) << 24 | (((x >> 16) as u8) as u64) << 16 | (((x >> 8) as u8) as u64) << 8 | ((x as u8) as u64) == x) by (bit_vector);
}
pub broadcast group group_words { lemma_w8, lemma_w16, lemma_w32, lemma_w64 }

// shims: the names the extraction puts in place of to_be_bytes/from_be_bytes; the bodies are the
// std functions, the contracts are assumed (and checked for every value by the Kani harnesses).
pub trait VxBytes1: Sized { fn vx_to_be_bytes(self) -> [u8; 1]; fn vx_from_be_bytes(b: [u8; 1]) -> Self; }
pub trait VxBytes2: Sized { fn vx_to_be_bytes(self) -> [u8; 2]; fn vx_from_be_bytes(b: [u8; 2]) -> Self; }
pub trait VxBytes4: Sized { fn vx_to_be_bytes(self) -> [u8; 4]; fn vx_from_be_bytes(b: [u8; 4]) -> Self; }
pub trait VxBytes8: Sized { fn vx_to_be_bytes(self) -> [u8; 8]; fn vx_from_be_bytes(b: [u8; 8]) -> Self; }
impl VxBytes1 for u8 {
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 1]) ensures r@ == be8(self) { self.to_be_bytes() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 1]) -> (r: u8) ensures r == w8(b@) { u8::from_be_bytes(b) }
}
impl VxBytes1 for i8 {
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 1]) ensures r@ == be8(self as u8) { self.to_be_bytes() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 1]) -> (r: i8) ensures r == w8(b@) as i8 { i8::from_be_bytes(b) }
}
impl VxBytes2 for u16 {
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 2]) ensures r@ == be16(self) { self.to_be_bytes() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r == w16(b@) { u16::from_be_bytes(b) }
}
impl VxBytes2 for i16 {
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 2]) ensures r@ == be16(self as u16) { self.to_be_bytes() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 2]) -> (r: i16) ensures r == w16(b@) as i16 { i16::from_be_bytes(b) }
}
impl VxBytes4 for u32 {
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 4]) ensures r@ == be32(self) { self.to_be_bytes() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r == w32(b@) { u32::from_be_bytes(b) }
}
impl VxBytes4 for i32 {
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 4]) ensures r@ == be32(self as u32) { self.to_be_bytes() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 4]) -> (r: i32) ensures r == w32(b@) as i32 { i32::from_be_bytes(b) }
}
impl VxBytes4 for f32 {
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 4]) ensures r@ == be32(f32_bits(self)) { self.to_be_bytes() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 4]) -> (r: f32) ensures f32_bits(r) == w32(b@) { f32::from_be_bytes(b) }
}
impl VxBytes8 for u64 {
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 8]) ensures r@ == be64(self) { self.to_be_bytes() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 8]) -> (r: u64) ensures r == w64(b@) { u64::from_be_bytes(b) }
}
impl VxBytes8 for i64 {
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 8]) ensures r@ == be64(self as u64) { self.to_be_bytes() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 8]) -> (r: i64) ensures r == w64(b@) as i64 { i64::from_be_bytes(b) }
}
impl VxBytes8 for f64 {
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 8]) ensures r@ == be64(f64_bits(self)) { self.to_be_bytes() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 8]) -> (r: f64) ensures f64_bits(r) == w64(b@) { f64::from_be_bytes(b) }
}

// ------------------------------------------------------------------ std contracts (assumed)
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(std::array::TryFromSliceError);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);

pub assume_specification<T> [<[T] as std::convert::AsRef<[T]>>::as_ref] (s: &[T]) -> (r: &[T])
    ensures r@ == s@;

pub assume_specification<T, const N: usize> [<[T; N] as std::convert::AsRef<[T]>>::as_ref] (s: &[T; N]) -> (r: &[T])
    ensures r@ == s@;

// .try_into() is extracted as .vx_try_into(): the std conversion, with its contract assumed
pub trait VxTryInto<T>: Sized { type E; fn vx_try_into(self) -> core::result::Result<T, Self::E>; }
pub open spec fn array_from<T, const N: usize>(s: Seq<T>, r: core::result::Result<[T; N], std::array::TryFromSliceError>) -> bool {
    (r is Ok <==> s.len() == N) && (r is Ok ==> r->Ok_0@ == s)
}
impl<'a, T: Copy, const N: usize> VxTryInto<[T; N]> for &'a [T] {
    type E = std::array::TryFromSliceError;
    #[verifier::external_body]
    fn vx_try_into(self) -> (r: core::result::Result<[T; N], std::array::TryFromSliceError>)
        ensures array_from::<T, N>(self@, r)
    { self.try_into() }
}
impl VxTryInto<u32> for i64 {
    type E = std::num::TryFromIntError;
    #[verifier::external_body]
    fn vx_try_into(self) -> (r: core::result::Result<u32, std::num::TryFromIntError>)
        ensures r is Ok <==> 0 <= self <= u32::MAX, r is Ok ==> r->Ok_0 == self
    { self.try_into() }
}
impl VxTryInto<i32> for usize {
    type E = std::num::TryFromIntError;
    #[verifier::external_body]
    fn vx_try_into(self) -> (r: core::result::Result<i32, std::num::TryFromIntError>)
        ensures r is Ok <==> self <= i32::MAX, r is Ok ==> r->Ok_0 == self
    { self.try_into() }
}

/// .unwrap() where the caller accepts that a failing read stops the program
pub trait VxOrStop<T>: Sized { fn vx_or_stop(self) -> T; }
impl<T, E> VxOrStop<T> for core::result::Result<T, E> {
    #[verifier::external_body]
    fn vx_or_stop(self) -> (r: T) ensures self is Ok, r == self->Ok_0 { match self { Ok(x) => x, Err(_) => panic!() } }
}
/// Iterator::map over all the elements
pub trait VxMap<T>: Sized {
    spec fn all(&self) -> Seq<T>;
    fn vx_map<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.all().len() ==> call_requires(f, (#[trigger] self.all()[i],))
        ensures r@.len() == self.all().len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (self.all()[i],), #[trigger] r@[i]);
}
impl<T> VxMap<T> for Vec<T> {
    open spec fn all(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_map<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>) { self.into_iter().map(f).collect() }
}
/// <[u8]>::to_vec
#[verifier::external_body]
pub fn vx_to_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }
/// the i-th of the pieces of n bytes of s (the last may be shorter)
pub open spec fn chunk(s: Seq<u8>, n: int, i: int) -> Seq<u8> { s.subrange(n * i, if n * i + n <= s.len() { n * i + n } else { s.len() as int }) }
/// <[T]>::chunks
#[verifier::external_body]
pub fn vx_chunks(s: &[u8], n: usize) -> (r: Vec<&[u8]>)
    requires n > 0
    ensures r@.len() == (s@.len() + n - 1) / (n as int), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == chunk(s@, n as int, i)
{ s.chunks(n).collect() }

// No byte container reaches 2^62 elements (Rust caps allocations at isize::MAX bytes).
pub broadcast axiom fn axiom_vec_len(v: Vec<u8>)
    ensures #[trigger] v@.len() < 0x4000_0000_0000_0000;
pub broadcast axiom fn axiom_slice_len(v: &[u8])
    ensures #[trigger] v@.len() < 0x4000_0000_0000_0000;

pub broadcast axiom fn axiom_str_len(s: &str)
    ensures s.spec_bytes().len() < 0x4000_0000_0000_0000, #[trigger] s.spec_bytes() == encode_utf8(s@);

// ------------------------------------------------------------------ strings
pub assume_specification [std::string::String::as_bytes] (s: &std::string::String) -> (r: &[u8])
    ensures r@ == encode_utf8(s@);
pub assume_specification [std::string::String::len] (s: &std::string::String) -> (r: usize)
    ensures r == encode_utf8(s@).len(), r < 0x4000_0000_0000_0000;
pub assume_specification [std::str::from_utf8] (s: &[u8]) -> (r: core::result::Result<&str, std::str::Utf8Error>)
    ensures r is Ok <==> valid_utf8(s@), r is Ok ==> encode_utf8(r->Ok_0@) == s@;

pub proof fn lemma_utf8_inj(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a) == encode_utf8(b)
    ensures a == b
{
    broadcast use group_utf8_lib;
    assert(decode_utf8(encode_utf8(a)) == a);
    assert(decode_utf8(encode_utf8(b)) == b);
}

pub open spec fn starts_with(s: Seq<u8>, p: Seq<u8>) -> bool {
    p.len() <= s.len() && s.subrange(0, p.len() as int) == p
}
/// the bytes of s from k on
pub open spec fn from_at(s: Seq<u8>, k: int) -> Seq<u8> { s.subrange(k, s.len() as int) }

pub broadcast proof fn lemma_from_at(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] from_at(from_at(s, a), b) == from_at(s, a + b)
{ assert(from_at(from_at(s, a), b) =~= from_at(s, a + b)); }
pub broadcast proof fn lemma_from_0(s: Seq<u8>)
    ensures #[trigger] from_at(s, 0) == s
{ assert(from_at(s, 0) =~= s); }
pub proof fn lemma_starts_concat(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures starts_with(s, a + b) <==> starts_with(s, a) && starts_with(from_at(s, a.len() as int), b)
{
    if starts_with(s, a + b) {
        assert(s.subrange(0, a.len() as int) =~= a) by {
            assert forall|i: int| 0 <= i < a.len() implies s[i] == a[i] by {
                assert(s.subrange(0, (a + b).len() as int)[i] == (a + b)[i]);
            }
        }
        assert(from_at(s, a.len() as int).subrange(0, b.len() as int) =~= b) by {
            assert forall|i: int| 0 <= i < b.len() implies s[a.len() + i] == b[i] by {
                assert(s.subrange(0, (a + b).len() as int)[a.len() + i] == (a + b)[a.len() + i]);
            }
        }
    }
    if starts_with(s, a) && starts_with(from_at(s, a.len() as int), b) {
        assert(s.subrange(0, (a + b).len() as int) =~= a + b) by {
            assert forall|i: int| 0 <= i < a.len() + b.len() implies s[i] == (a + b)[i] by {
                if i < a.len() { assert(s.subrange(0, a.len() as int)[i] == a[i]); }
                else { assert(from_at(s, a.len() as int).subrange(0, b.len() as int)[i - a.len()] == b[i - a.len()]); }
            }
        }
    }
}

} // mod base
