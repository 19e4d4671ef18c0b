pub mod rcompress {
use vstd::prelude::*;
use super::base::*;
use super::io::*;
//@enum oxyroot/src/rcompress.rs Error std::io::Error => IoError
pub type Result<T> = core::result::Result<T, Error>;
//@enum oxyroot/src/rcompress.rs Kind = -?\d+ => /**/ 
// #[derive(PartialEq)] as the compiler expands it
impl PartialEq for Kind { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { core::mem::discriminant(self) == core::mem::discriminant(o) } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Kind { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl vstd::std_specs::convert::FromSpecImpl<IoError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: IoError) -> Self { Error::Io(v) } }
impl From<IoError> for Error { fn from(e: IoError) -> Self { Error::Io(e) } }
//@const oxyroot/src/rcompress.rs HEADER_SIZE
// ---- a record's payload: blocks one after another, each behind nine bytes that say how it is stored,
// how many bytes it takes and how many it stands for
pub open spec fn le24(s: Seq<u8>, i: int) -> int { s[i] + 256 * s[i + 1] + 65536 * s[i + 2] }
pub open spec fn vx_tag(s: Seq<u8>) -> Kind {
    if s[0] == 0x5a && s[1] == 0x4c { Kind::Zlib } else if s[0] == 0x58 && s[1] == 0x5a { Kind::Lzma } else if s[0] == 0x4c && s[1] == 0x34 { Kind::LZ4 }
    else if s[0] == 0x5a && s[1] == 0x53 { Kind::Zstd } else if s[0] == 0x43 && s[1] == 0x53 { Kind::OldCompression } else { Kind::UndefinedCompression }
}
/// the first block of s is there and stands for no more than n bytes
pub open spec fn first_fits(s: Seq<u8>, n: int) -> bool { s.len() >= 9 && le24(s, 3) <= s.len() - 9 && le24(s, 6) <= n }
pub open spec fn vx_block(s: Seq<u8>) -> Seq<u8> { s.subrange(9, 9 + le24(s, 3)) }
pub open spec fn vx_next(s: Seq<u8>) -> Seq<u8> { s.subrange(9 + le24(s, 3), s.len() as int) }
/// what a block stands for
pub open spec fn unpacked(k: Kind, b: Seq<u8>, n: int) -> Option<Seq<u8>> {
    if k is Zlib { if zlib_out(b).len() >= n { Some(zlib_out(b).subrange(0, n)) } else { None } }
    else if k is Lzma { if xz_out(b).len() >= n { Some(xz_out(b).subrange(0, n)) } else { None } }
    else if b.len() >= 8 && lz4_out(b.subrange(8, b.len() as int)) is Some && lz4_out(b.subrange(8, b.len() as int))->0.len() == n { lz4_out(b.subrange(8, b.len() as int)) } else { None }
}
/// the blocks are stored in a way this library reads
pub open spec fn supported(s: Seq<u8>, n: int) -> bool decreases s.len() {
    n > 0 && s.len() >= 9 && first_fits(s, n) ==> (vx_tag(s) is Zlib || vx_tag(s) is Lzma || vx_tag(s) is LZ4) && (vx_tag(s) is LZ4 ==> le24(s, 3) >= 8) && (supported(vx_next(s), n - le24(s, 6)))
}
/// the blocks of s stand for n bytes
pub open spec fn whole(s: Seq<u8>, n: int) -> bool decreases s.len() {
    n <= 0 || (s.len() >= 9 && first_fits(s, n) && whole(vx_next(s), n - le24(s, 6)))
}
/// the n bytes the blocks of s stand for
pub open spec fn plain(s: Seq<u8>, n: int) -> Option<Seq<u8>> decreases s.len() {
    if n <= 0 { Some(Seq::empty()) } else if s.len() < 9 || !first_fits(s, n) { None } else {
        match (unpacked(vx_tag(s), vx_block(s), le24(s, 6)), plain(vx_next(s), n - le24(s, 6))) { (Some(a), Some(b)) => Some(a + b), _ => None }
    }
}
pub proof fn lemma_three(a: u8, b: u8, c: u8)
    ensures (a as usize) | (b as usize) << 8 | (c as usize) << 16 == a + 256 * b + 65536 * c
{
    assert((a as usize) | (b as usize) << 8 | (c as usize) << 16 == add(add(a as usize, mul(256usize, b as usize)), mul(65536usize, c as usize))) by (bit_vector);
}
/// a record stored in two blocks stands for what the blocks stand for, one after the other
pub proof fn lemma_two_blocks(h1: Seq<u8>, b1: Seq<u8>, h2: Seq<u8>, b2: Seq<u8>, d1: Seq<u8>, d2: Seq<u8>)
    requires h1.len() == 9, h2.len() == 9, le24(h1, 3) == b1.len(), le24(h2, 3) == b2.len(), le24(h1, 6) == d1.len(), le24(h2, 6) == d2.len(), d2.len() > 0,
        unpacked(vx_tag(h1), b1, d1.len() as int) == Some(d1), unpacked(vx_tag(h2), b2, d2.len() as int) == Some(d2)
    ensures plain(h1 + b1 + (h2 + b2), (d1 + d2).len() as int) == Some(d1 + d2)
{
    let t = h2 + b2; let s = h1 + b1 + t;
    assert(vx_block(s) =~= b1); assert(vx_next(s) =~= t); assert(vx_block(t) =~= b2);
    assert(vx_tag(s) == vx_tag(h1)); assert(vx_tag(t) == vx_tag(h2));
    assert(d2 + Seq::<u8>::empty() =~= d2);
    assert(plain(vx_next(t), 0) == Some(Seq::<u8>::empty()));
    assert(plain(t, d2.len() as int) == Some(d2 + Seq::<u8>::empty()));
}
// ---- the decoders (flate2, xz2, lz4), opaque: what each makes of a block is assumed to depend on the block alone
pub uninterp spec fn zlib_out(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn xz_out(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn lz4_out(b: Seq<u8>) -> Option<Seq<u8>>;
#[verifier::external_body]
pub struct ZlibDecoder { x: u8 }
impl ZlibDecoder {
    pub uninterp spec fn left(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(b: &[u8]) -> (r: Self) ensures r.left() == zlib_out(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, o: &mut [u8]) -> (r: core::result::Result<(), IoError>)
        ensures final(o)@.len() == old(o)@.len(), r is Ok <==> old(o)@.len() <= old(self).left().len(), r is Ok ==> final(o)@ == old(self).left().subrange(0, old(o)@.len() as int)
    { unimplemented!() }
}
#[verifier::external_body]
pub struct XzDecoder { x: u8 }
impl XzDecoder {
    pub uninterp spec fn left(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(b: &[u8]) -> (r: Self) ensures r.left() == xz_out(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, o: &mut [u8]) -> (r: core::result::Result<(), IoError>)
        ensures final(o)@.len() == old(o)@.len(), r is Ok <==> old(o)@.len() <= old(self).left().len(), r is Ok ==> final(o)@ == old(self).left().subrange(0, old(o)@.len() as int)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn LZ4_decompress_to_buffer(b: &[u8], n: Option<i32>, o: &mut [u8]) -> (r: core::result::Result<usize, IoError>)
    requires n is Some, 0 <= n->0 <= old(o)@.len()
    ensures final(o)@.len() == old(o)@.len(), lz4_out(b@) is Some && lz4_out(b@)->0.len() == n->0 && n->0 == old(o)@.len() ==> r is Ok && final(o)@ == lz4_out(b@)->0
{ unimplemented!() }
/// <&[u8] as Read>::read_exact
#[verifier::external_body]
pub fn vx_read_exact(s: &mut &[u8], o: &mut [u8]) -> (r: core::result::Result<(), IoError>)
    ensures final(o)@.len() == old(o)@.len(), r is Ok <==> old(o)@.len() <= (*old(s))@.len(),
        r is Ok ==> final(o)@ == (*old(s))@.subrange(0, old(o)@.len() as int) && (*final(s))@ == (*old(s))@.subrange(old(o)@.len() as int, (*old(s))@.len() as int)
{ use std::io::Read; s.read_exact(o).map_err(|_| unimplemented!()) }
//@freefn oxyroot/src/rcompress.rs kind_of
requires buf@.len() >= 2
ensures ret == vx_tag(buf@)
//@end
//@freefn oxyroot/src/rcompress.rs decompress
requires supported(src@, old(dst)@.len() as int)
ensures final(dst)@.len() == old(dst)@.len(),
  plain(src@, old(dst)@.len() as int) is Some ==> ret is Ok && final(dst)@ == plain(src@, old(dst)@.len() as int)->0,
  !whole(src@, old(dst)@.len() as int) ==> ret is Err
//@rewrite src\.read_exact\(&mut hdr\) => vx_read_exact(&mut src, &mut hdr)
//@rewrite std::io::ErrorKind::UnexpectedEof\.into\(\) => vx_eof()
//@attr #[verifier::loop_isolation(false)]
//@start
let ghost vx_src = src@;
proof { assert(dst@.subrange(0, 0) =~= Seq::<u8>::empty()); if plain(vx_src, dst@.len() as int) is Some { assert(Seq::<u8>::empty() + plain(vx_src, dst@.len() as int)->0 =~= plain(vx_src, dst@.len() as int)->0); } }
//@loop 0 while
invariant buflen == dst@.len(), buflen == old(dst)@.len(), end <= buflen, HEADER_SIZE == 9,
  supported(src@, buflen - end), whole(src@, buflen - end) ==> whole(vx_src, buflen as int),
  plain(vx_src, buflen as int) is Some ==> plain(src@, buflen - end) is Some && dst@.subrange(0, end as int) + plain(src@, buflen - end)->0 == plain(vx_src, buflen as int)->0
decreases src@.len()
//@loopstart 0
let ghost vx_s = src@; let ghost vx_n = buflen - end; let ghost vx_done = dst@.subrange(0, end as int); let ghost vx_at = end as int;
proof {
  assert(hdr@.len() == 9);
  if plain(vx_s, vx_n) is Some { assert(first_fits(vx_s, vx_n)); assert(unpacked(vx_tag(vx_s), vx_block(vx_s), le24(vx_s, 6)) is Some); }
}
//@after vx_read_exact\([^;]*;
proof {
  lemma_three(hdr@[3], hdr@[4], hdr@[5]); lemma_three(hdr@[6], hdr@[7], hdr@[8]);
  assert(hdr@ =~= vx_s.subrange(0, 9)); assert(hdr@[3] == vx_s[3] && hdr@[4] == vx_s[4] && hdr@[5] == vx_s[5] && hdr@[6] == vx_s[6] && hdr@[7] == vx_s[7] && hdr@[8] == vx_s[8] && hdr@[0] == vx_s[0] && hdr@[1] == vx_s[1]);
  assert(vx_tag(hdr@) == vx_tag(vx_s)); assert(src@ =~= vx_s.subrange(9, vx_s.len() as int));
  if first_fits(vx_s, vx_n) { assert(src@.subrange(0, le24(vx_s, 3)) =~= vx_block(vx_s)); assert(src@.subrange(le24(vx_s, 3), src@.len() as int) =~= vx_next(vx_s)); }
}
//@loopend 0
proof {
  if plain(vx_src, buflen as int) is Some {
    let part = unpacked(vx_tag(vx_s), vx_block(vx_s), le24(vx_s, 6))->0;
    assert(dst@.subrange(vx_at, end as int) =~= part);
    assert(dst@.subrange(0, vx_at) =~= vx_done);
    assert(dst@.subrange(0, end as int) =~= vx_done + part);
    assert(vx_done + part + plain(src@, buflen - end)->0 =~= vx_done + (part + plain(src@, buflen - end)->0));
  }
}
//@before Ok\(0\)\s*\}\s*$
proof { assert(dst@.subrange(0, end as int) =~= dst@); assert(dst@ + Seq::<u8>::empty() =~= dst@); }
//@end
//@freefn oxyroot/src/rcompress.rs root_compress_algo_level
requires algo >= 0
ensures ret.1 == algo % 100, algo / 100 == 0 ==> ret.0 is UseGlobal, algo / 100 == 1 ==> ret.0 is Zlib, algo / 100 == 2 ==> ret.0 is Lzma,
  algo / 100 == 3 ==> ret.0 is OldCompression, algo / 100 == 4 ==> ret.0 is LZ4, algo / 100 == 5 ==> ret.0 is Zstd, algo / 100 >= 6 ==> ret.0 is UndefinedCompression
//@end
//@freefn oxyroot/src/rcompress.rs compress
requires compression == 1
ensures ret is Ok, ret->Ok_0@ == src@
//@end
} // mod rcompress
