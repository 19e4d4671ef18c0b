pub mod branch {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use super::base::*;
use super::rbytes::*;
use super::rtree::*;
use super::riofs;
use super::riofs::*;
use super::tree::*;
// ---- what a branch hands out, and what its readers make of it
//@enum oxyroot/src/rtree/branch/mod.rs BranchChunks
// a reader of the file a second time: sees the same bytes
impl Clone for RootFileReader {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.content() == self.content(), r.reader is Some { unimplemented!() }
}
// lazy iterators over slices, taken as lists (their closures do nothing but compute)
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
#[verifier::external_body]
pub fn vx_iter<'a, T>(s: &'a [T]) -> (r: Vec<&'a T>) ensures r@ == refs(s@) { s.iter().collect() }
#[verifier::external_body]
pub fn vx_once<'a, T>(s: &'a T) -> (r: Vec<&'a T>) ensures r@ == seq![s] { vec![s] }
pub trait VxList<T>: Sized {
    spec fn list(&self) -> Seq<T>;
    fn vx_skip(self, n: usize) -> (r: Vec<T>) ensures r@ == (if n <= self.list().len() { self.list().subrange(n as int, self.list().len() as int) } else { Seq::empty() });
    fn vx_take(self, n: usize) -> (r: Vec<T>) ensures r@ == (if n <= self.list().len() { self.list().subrange(0, n as int) } else { self.list() });
    fn vx_chain(self, o: Vec<T>) -> (r: Vec<T>) ensures r@ == self.list() + o@;
    fn vx_zip<U>(self, o: Vec<U>) -> (r: Vec<(T, U)>)
        ensures r@.len() == if self.list().len() < o@.len() { self.list().len() } else { o@.len() }, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (self.list()[i], o@[i]);
    fn vx_any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.list().len() ==> call_requires(f, (#[trigger] self.list()[i],))
        ensures r ==> exists|i: int| 0 <= i < self.list().len() && call_ensures(f, (#[trigger] self.list()[i],), true), !r ==> forall|i: int| 0 <= i < self.list().len() ==> call_ensures(f, (#[trigger] self.list()[i],), false);
}
impl<T> VxList<T> for Vec<T> {
    open spec fn list(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_skip(self, n: usize) -> (r: Vec<T>) { self.into_iter().skip(n).collect() }
    #[verifier::external_body] fn vx_take(self, n: usize) -> (r: Vec<T>) { self.into_iter().take(n).collect() }
    #[verifier::external_body] fn vx_chain(self, o: Vec<T>) -> (r: Vec<T>) { self.into_iter().chain(o).collect() }
    #[verifier::external_body] fn vx_zip<U>(self, o: Vec<U>) -> (r: Vec<(T, U)>) { self.into_iter().zip(o).collect() }
    #[verifier::external_body] fn vx_any<F: Fn(T) -> bool>(self, f: F) -> (r: bool) { self.into_iter().any(f) }
}
#[verifier::external_body]
pub fn vx_copied(v: Vec<&u8>) -> (r: Vec<u8>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> r@[i] == *v@[i] { v.into_iter().cloned().collect() }
#[verifier::external_body]
pub fn vx_again<'a>(v: &Vec<&'a i32>) -> (r: Vec<&'a i32>) ensures r@ == v@ { v.clone() }
impl Leaf {
    /// a dimension in the title is the name of another leaf (what is done with the text of the title is checked by running it)
    pub uninterp spec fn varying(&self) -> bool;
    #[verifier::external_body]
    pub fn varies(&self) -> (r: bool) ensures r == self.varying() { unimplemented!() }
    pub open spec fn texts(&self) -> bool { *self is C || *self is Element }
}
/// how many bytes an entry starts with that are not part of its value, from the dictionary of the file
pub uninterp spec fn header_of(b: TBranchElement) -> i32;
#[verifier::external_body]
pub fn vx_header(b: &TBranchElement) -> (r: i32) ensures r == header_of(*b) { unimplemented!() }

/// places where entries start and end, one behind the other
pub open spec fn ordered(t: Seq<i32>, n: int) -> bool { forall|i: int| 0 <= i < t.len() - 1 ==> 0 <= #[trigger] t[i] && t[i] <= t[i + 1] && t[i + 1] <= n }
pub open spec fn piece(d: Seq<u8>, t: Seq<i32>, i: int) -> Seq<u8> { d.subrange(t[i] as int, t[i + 1] as int) }
/// v is d cut at the places t
pub open spec fn cut(d: Seq<u8>, t: Seq<i32>, v: Seq<Vec<u8>>) -> bool { v.len() == (if t.len() == 0 { 0int } else { t.len() - 1 }) && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == piece(d, t, i) }
/// what a basket of its own is handed out as
pub open spec fn chunk_of(leaf: Leaf, size: i32, nev_size: i32, entries: i64, x: BasketData, header: Option<i32>, c: BranchChunks) -> bool {
    let z = if leaf.texts() { nev_size } else { size };
    match x {
        BasketData::TrustNEntries(y) => c is RegularSized && c->RegularSized_0.0 == y.0 && c->RegularSized_0.1 == z && c->RegularSized_0.2@ == y.1@,
        BasketData::UnTrustNEntries(y) =>
            if leaf is C { c is RegularSized && c->RegularSized_0.0 == y.0 && c->RegularSized_0.1 == z && c->RegularSized_0.2@ == y.1@ }
            else if leaf is Element { c is IrregularSized && c->IrregularSized_0.2 == header->0 && cut(y.1@, y.2@, c->IrregularSized_0.1@) }
            else if header is None && (y.1@.len() as int / z as int != entries || leaf.varying()) { c is IrregularSized && c->IrregularSized_0.2 == 0 && cut(y.1@, y.2@, c->IrregularSized_0.1@) }
            else { c is RegularSized && c->RegularSized_0.0 == (y.1@.len() as int / z as int) as i32 && c->RegularSized_0.1 == z && c->RegularSized_0.2@ == y.1@ },
    }
}
pub open spec fn tame(x: BasketData, leaf: Leaf, element: bool) -> bool {
    &&& x is UnTrustNEntries && !(leaf is C) ==> x->UnTrustNEntries_0.1@.len() <= i32::MAX && ordered(x->UnTrustNEntries_0.2@, x->UnTrustNEntries_0.1@.len() as int) && (leaf is Element ==> element)
    &&& !leaf.texts() ==> leaf@.etype > 0
}
/// the basket at this place can be read, and its table, when its leaf needs one, names places inside it one behind the other
pub open spec fn chunk_ok(s: Seq<u8>, start: i64, len: i32, leaf: Leaf, element: bool) -> bool {
    let rec = s.subrange(start as int, start + len);
    &&& 0 <= start && 0 < len && start + len <= s.len() && Basket::fits(rec)
    &&& forall|r: Basket| #[trigger] r.is(rec) ==> riofs::readable(r.key, s)
    &&& forall|r: Basket, d: Seq<u8>| #[trigger] r.is(rec) && #[trigger] riofs::loaded(r.key, s, d) ==> r.holds(d)
    &&& forall|r: Basket, d: Seq<u8>, x: BasketData| #[trigger] r.is(rec) && riofs::loaded(r.key, s, d) && #[trigger] r.raw(d, x) ==> tame(x, leaf, element)
}
pub open spec fn chunk_is(s: Seq<u8>, start: i64, len: i32, size: i32, leaf: Leaf, entries: i64, header: Option<i32>, c: BranchChunks) -> bool {
    exists|r: Basket, d: Seq<u8>, x: BasketData| #![trigger r.raw(d, x)] r.is(s.subrange(start as int, start + len)) && riofs::loaded(r.key, s, d) && r.raw(d, x) && chunk_of(leaf, size, r.nev_size, entries, x, header, c)
}
/// the places zipped with those that follow them
pub proof fn vx_windows()
    ensures forall|s: Seq<i32>, i: int| 0 <= i < s.len() ==> *(#[trigger] refs(s)[i]) == s[i]
{ }
pub open spec fn stops_of(t: Seq<i32>, n: int, len: int) -> Seq<i32> { (if n <= t.len() { t.subrange(0, n) } else { t }).push(len as i32) }
//@impl oxyroot/src/rtree/branch/tbranch.rs | TBranch
//@fn reader
ensures *ret == self.reader
//@end
//@fn get_baskets_buffer
//@closure 1 vx_kept(&self, vx_arg: &Basket) -> (ret: BranchChunks)
requires 0 <= vx_arg.key.key_len <= vx_arg.key.buffer@.len() <= i32::MAX, 0 <= vx_arg.nev_buf,
  ordered(stops_of(vx_arg.offsets@, vx_arg.nev_buf as int, vx_arg.key.buffer@.len() as int), vx_arg.key.buffer@.len() as int)
ensures ({ let b = *vx_arg; let buf = b.key.buffer@;
    if b.offsets@.len() > 0 && exists|i: int| 0 <= i < self.leaves@.len() && (#[trigger] self.leaves@[i]).varying() { ret is IrregularSized && ret->IrregularSized_0.2 == 0 && cut(buf, stops_of(b.offsets@, b.nev_buf as int, buf.len() as int), ret->IrregularSized_0.1@) }
    else { ret is RegularSized && ret->RegularSized_0.0 == b.nev_buf && ret->RegularSized_0.2@ == from_at(buf, b.key.key_len as int) } })
//@rewrite b\s*\.key\(\)\s*\.buffer\(\)\s*\.iter\(\)\s*\.skip\((\w+)\)\s*\.cloned\(\)\s*\.collect::<Vec<_>>\(\) => vx_copied(vx_iter(b.key().buffer()).vx_skip(\1))
//@rewrite self\.leaves\.iter\(\)\.any\(\|l\| l\.varies\(\)\) => { let vx_ls = vx_iter(&self.leaves); let ghost vx_g = vx_ls; let vx_y = vx_ls.vx_any(|l: &Leaf| -> (y: bool) ensures y == l.varying() { l.varies() }); proof { assert forall|i: int| !vx_y && 0 <= i < self.leaves@.len() implies !(#[trigger] self.leaves@[i]).varying() by { assert(*vx_g.list()[i] == self.leaves@[i]); } } vx_y }
//@rewrite (b\.offsets\(\))\.iter\(\)\.take => vx_iter(\1).vx_take
//@rewrite \.skip\(1\) => .vx_skip(1)
//@rewrite std::iter::once\( => vx_once(
//@rewrite \.zip\( => .vx_zip(
//@rewrite \.chain\( => .vx_chain(
//@rewrite (buf\[[^\]]*\])\.to_vec\(\) => vx_to_vec(&\1)
//@rewrite \.map\(\|\(start, stop\)\| (vx_to_vec\([^;]*?\]\))\)\s*\.collect\(\) => .vx_map(|vx_q: (&i32, &i32)| -> (y: Vec<u8>) requires 0 <= *vx_q.0 <= *vx_q.1 <= buf@.len() ensures y@ == buf@.subrange(*vx_q.0 as int, *vx_q.1 as int) { let (start, stop) = vx_q; \1 })
//@start
proof { vx_windows(); }
//@beforeall let chunk_size
proof { assert(buf@ =~= from_at(b.key.buffer@, b.key.key_len as int)); }
//@before let data
let ghost vx_t = stops_of(b.offsets@, n as int, buf@.len() as int);
proof {
  let z = stops@ + seq![&end];
  assert(forall|i: int| 0 <= i < starts@.len() ==> *(#[trigger] starts@[i]) == vx_t[i]);
  assert forall|i: int| 0 <= i < starts@.len() implies *(#[trigger] z[i]) == vx_t[i + 1] && 0 <= vx_t[i] <= vx_t[i + 1] <= buf@.len() by { assert(0 <= vx_t[i]); }
}
//@end
//@fn get_baskets_buffer
//@closure -1 vx_chunk(&self, vx_arg: (&i64, &i32, i32, &Leaf)) -> (ret: BranchChunks)
requires 0 <= self.entries, self.reader is Some, self.reader->0.reader is Some, chunk_ok(self.reader->0.content(), *vx_arg.0, *vx_arg.1, *vx_arg.3, false), vx_arg.2 == vx_arg.3@.etype
ensures chunk_is(self.reader->0.content(), *vx_arg.0, *vx_arg.1, vx_arg.2, *vx_arg.3, self.entries, None, ret)
//@rewrite (\w+)\.iter\(\)\.zip\((\w+)\.iter\(\)\.skip\(1\)\) => vx_iter(&\1).vx_zip(vx_iter(&\2).vx_skip(1))
//@rewrite \bb\.to_vec\(\) => vx_to_vec(b)
//@rewrite \.map\(\|\(start, stop\)\| (\{.*?\})\)\s*\.collect\(\) => .vx_map(|vx_q: (&i32, &i32)| -> (y: Vec<u8>) requires 0 <= *vx_q.0 <= *vx_q.1 <= buf@.len() ensures y@ == buf@.subrange(*vx_q.0 as int, *vx_q.1 as int) { let (start, stop) = vx_q; \1 })
//@rewrite \.read_at\(([^;]*?)\)\.unwrap\(\); => .read_at(\1).vx_or_stop();
//@rewrite \.read_object_into::<Basket>\(\)\.unwrap\(\) => .read_object_into::<Basket>().vx_or_stop()
//@start
proof { vx_windows(); }
//@after read_object_into::<Basket>[^;]*;
let ghost vx_s = self.reader->0.content(); let ghost vx_rec = buf@;
proof { assert(vx_rec == vx_s.subrange(*start as int, *start + *len)); assert(from_at(vx_rec, 0) =~= vx_rec); assert(b.is(vx_rec)); }
//@end
//@endimpl
//@impl oxyroot/src/rtree/branch/tbranch_element.rs | TBranchElement
//@fn get_baskets_buffer
//@closure 1 vx_kept(&self, vx_arg: &Basket, header_bytes: i32) -> (ret: BranchChunks)
requires vx_arg.key.buffer@.len() <= i32::MAX, ordered(vx_arg.offsets@.push(vx_arg.key.buffer@.len() as i32), vx_arg.key.buffer@.len() as int)
ensures ret is IrregularSized, ret->IrregularSized_0.2 == header_bytes, cut(vx_arg.key.buffer@, vx_arg.offsets@.push(vx_arg.key.buffer@.len() as i32), ret->IrregularSized_0.1@)
//@rewrite b\.offsets\(\)\.iter\(\)\.chain\(once\(&n\)\) => vx_iter(b.offsets()).vx_chain(vx_once(&n))
//@rewrite offsets\.clone\(\)\.zip\(offsets\.skip\(1\)\) => vx_again(&offsets).vx_zip(offsets.vx_skip(1))
//@rewrite \bb\.to_vec\(\) => vx_to_vec(b)
//@rewrite \.map\(\|\(start, stop\)\| (\{.*?\})\)\s*\.collect\(\) => .vx_map(|vx_q: (&i32, &i32)| -> (y: Vec<u8>) requires 0 <= *vx_q.0 <= *vx_q.1 <= buf@.len() ensures y@ == buf@.subrange(*vx_q.0 as int, *vx_q.1 as int) { let (start, stop) = vx_q; \1 })
//@start
proof { vx_windows(); }
//@before let data
let ghost vx_t = b.offsets@.push(buf@.len() as i32);
proof {
  assert forall|i: int| 0 <= i < byte_offsets@.len() implies *(#[trigger] byte_offsets@[i]).0 == vx_t[i] && *byte_offsets@[i].1 == vx_t[i + 1] && 0 <= vx_t[i] <= vx_t[i + 1] <= buf@.len() by { assert(0 <= vx_t[i]); }
}
//@end
//@fn get_baskets_buffer
//@closure -1 vx_chunk(&self, vx_arg: (&i64, &i32, i32, &Leaf)) -> (ret: BranchChunks)
requires 0 <= self.branch.entries, self.branch.reader is Some, self.branch.reader->0.reader is Some, chunk_ok(self.branch.reader->0.content(), *vx_arg.0, *vx_arg.1, *vx_arg.3, true), vx_arg.2 == vx_arg.3@.etype
ensures chunk_is(self.branch.reader->0.content(), *vx_arg.0, *vx_arg.1, vx_arg.2, *vx_arg.3, self.branch.entries, Some(header_of(*self)), ret)
//@rewrite streamer_type::header_bytes_from_type\([^()]*\(\)[^()]*\(\),?\s*\) => vx_header(self)
//@rewrite let element = self\.streamer\(\); => let element = ();
//@rewrite \.read_at\(([^;]*?)\)\.unwrap\(\); => .read_at(\1).vx_or_stop();
//@rewrite \.read_object_into::<Basket>\(\)\.unwrap\(\) => .read_object_into::<Basket>().vx_or_stop()
//@rewrite (\w+)\.iter\(\)\.zip\((\w+)\.iter\(\)\.skip\(1\)\) => vx_iter(&\1).vx_zip(vx_iter(&\2).vx_skip(1))
//@rewrite \bb\.to_vec\(\) => vx_to_vec(b)
//@rewrite \.map\(\|\(start, stop\)\| (\{.*?\})\)\s*\.collect\(\) => .vx_map(|vx_q: (&i32, &i32)| -> (y: Vec<u8>) requires 0 <= *vx_q.0 <= *vx_q.1 <= buf@.len() ensures y@ == buf@.subrange(*vx_q.0 as int, *vx_q.1 as int) { let (start, stop) = vx_q; \1 })
//@start
proof { vx_windows(); }
//@after read_object_into::<Basket>[^;]*;
let ghost vx_s = self.branch.reader->0.content(); let ghost vx_rec = buf@;
proof { assert(vx_rec == vx_s.subrange(*start as int, *start + *len)); assert(from_at(vx_rec, 0) =~= vx_rec); assert(b.is(vx_rec)); }
//@end
//@endimpl
// ---- the function that a branch applies to its entries
pub open spec fn hlen(k: Option<i32>) -> int { match k { None => 0, Some(n) => n as int } }
/// reads one value at the place the reader stands, h bytes of header before it
pub trait VxFunc<T>: Sized {
    spec fn can(&self, s: Seq<u8>, h: int) -> bool;
    spec fn takes(&self, s: Seq<u8>, h: int) -> int;
    spec fn gives(&self, s: Seq<u8>, h: int, x: T) -> bool;
    fn vx_call(&self, r: &mut RBuffer) -> (x: T)
        requires old(r).wf(), self.can(old(r).rest(), hlen(old(r).skip_header))
        ensures self.gives(old(r).rest(), hlen(old(r).skip_header), x), took(*old(r), *final(r), self.takes(old(r).rest(), hlen(old(r).skip_header))), quiet(*old(r), *final(r));
}
/// where the i-th of the values one behind the other starts
pub open spec fn pos<T, F: VxFunc<T>>(f: &F, s: Seq<u8>, i: int) -> int decreases i { if i <= 0 { 0 } else { pos::<T, F>(f, s, i - 1) + f.takes(from_at(s, pos::<T, F>(f, s, i - 1)), 0) } }
pub open spec fn in_a_row<T, F: VxFunc<T>>(f: &F, s: Seq<u8>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> 0 <= #[trigger] pos::<T, F>(f, s, i) <= s.len() && f.can(from_at(s, pos::<T, F>(f, s, i)), 0) && 0 <= f.takes(from_at(s, pos::<T, F>(f, s, i)), 0)
}
pub open spec fn applies<T, F: VxFunc<T>>(f: &F, c: BranchChunks) -> bool {
    match c {
        BranchChunks::RegularSized(y) => in_a_row::<T, F>(f, y.2@, y.0 as int),
        BranchChunks::IrregularSized(y) => 0 <= y.2 && forall|i: int| 0 <= i < y.1@.len() ==> f.can((#[trigger] y.1@[i])@, y.2 as int),
    }
}
/// the values made of what a basket is handed out as: one for each entry, from its bytes
pub open spec fn values<T, F: VxFunc<T>>(f: &F, c: BranchChunks, v: Seq<T>) -> bool {
    match c {
        BranchChunks::RegularSized(y) => v.len() == (if y.0 > 0 { y.0 as int } else { 0 }) && forall|i: int| 0 <= i < v.len() ==> f.gives(from_at(y.2@, pos::<T, F>(f, y.2@, i)), 0, #[trigger] v[i]),
        BranchChunks::IrregularSized(y) => v.len() == y.1@.len() && forall|i: int| 0 <= i < v.len() ==> f.gives(y.1@[i]@, y.2 as int, #[trigger] v[i]),
    }
}
/// values of a type, as as_iter reads them
pub struct VxTyped<T> { pub x: core::marker::PhantomData<T> }
pub open spec fn lead_of<T: Unmarshaler>(s: Seq<u8>, h: int) -> int { if T::headered() { skipn(s, Some(h as i32)) } else { 0 } }
//@impl oxyroot/src/rtree/branch/mod.rs | Branch
//@fn get_basket
//@closure -1 vx_values<T, F: VxFunc<T>>(vx_arg: BranchChunks, func: &F) -> (ret: Vec<T>)
requires applies::<T, F>(func, vx_arg)
ensures values::<T, F>(func, vx_arg, ret@)
//@rewrite func\(&mut r\) => func.vx_call(&mut r)
//@rewrite (\w+)\s*\.iter\(\)\s*\.map\(\|buf\| \{ => vx_iter(&\1).vx_map(|buf: &Vec<u8>| -> (y: T) requires func.can(buf@, header_bytes as int) ensures func.gives(buf@, header_bytes as int, y) {
//@rewrite RBuffer::new\(buf, 0\); => RBuffer::new(buf, 0); proof { assert(r.rest() =~= buf@); }
//@rewrite \.collect::<Vec<_>>\(\) => .vx_skip(0)
//@loop 0 for it
invariant in_a_row::<T, F>(func, buf@, n as int), r.wf(), r.r.p@ == buf@, hlen(r.skip_header) == 0, v@.len() == it.index@, r.r.c == pos::<T, F>(func, buf@, it.index@ as int),
  forall|i: int| 0 <= i < v@.len() ==> func.gives(from_at(buf@, pos::<T, F>(func, buf@, i)), 0, #[trigger] v@[i])
//@end
//@fn as_iter
//@closure -1 vx_entry<T: Default + Unmarshaler>(vx_arg: &mut RBuffer) -> (ret: T)
requires old(vx_arg).wf(), T::skips(old(vx_arg).skip_header), T::fits(after_skip(*old(vx_arg), T::headered())), !T::rejects(after_skip(*old(vx_arg), T::headered())), T::calm()
ensures ret.is(after_skip(*old(vx_arg), T::headered())), took(*old(vx_arg), *final(vx_arg), skip_of(*old(vx_arg), T::headered()) + T::used(after_skip(*old(vx_arg), T::headered()))), quiet(*old(vx_arg), *final(vx_arg))
//@end
//@endimpl
impl<T: Default + Unmarshaler> VxFunc<T> for VxTyped<T> {
    open spec fn can(&self, s: Seq<u8>, h: int) -> bool {
        let t = from_at(s, lead_of::<T>(s, h));
        0 <= h <= i32::MAX && T::calm() && T::fits(t) && !T::rejects(t) && T::skips(Some(h as i32)) && (h == 0 ==> T::skips(None))
    }
    open spec fn takes(&self, s: Seq<u8>, h: int) -> int { let n = lead_of::<T>(s, h); n + T::used(from_at(s, n)) }
    open spec fn gives(&self, s: Seq<u8>, h: int, x: T) -> bool { x.is(from_at(s, lead_of::<T>(s, h))) }
    fn vx_call(&self, r: &mut RBuffer) -> (x: T) { Branch::vx_entry::<T>(r) }
}
// ---- the entries come back, each from its own bytes, in the order they were written
/// what is handed out is these entries
pub open spec fn hands(c: BranchChunks, p: Seq<Seq<u8>>) -> bool {
    match c {
        BranchChunks::RegularSized(y) => y.0 == p.len() && y.2@ == joined(p),
        BranchChunks::IrregularSized(y) => y.1@.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> (#[trigger] y.1@[i])@ == p[i],
    }
}
/// entries of one size, when there is nothing else to tell them apart
pub open spec fn one_size(leaf: Leaf, p: Seq<Seq<u8>>) -> bool { leaf.texts() || leaf.varying() || joined(p).len() == leaf@.etype * p.len() }
pub proof fn lemma_hands(x: BasketData, p: Seq<Seq<u8>>, leaf: Leaf, nev_size: i32, entries: i64, header: Option<i32>, c: BranchChunks)
    requires gives(x, p), p.len() < 0x1000_0000, joined(p).len() <= i32::MAX, !leaf.texts() ==> leaf@.etype > 0, one_size(leaf, p), header is Some ==> !leaf.varying(),
        chunk_of(leaf, leaf@.etype, nev_size, entries, x, header, c)
    ensures hands(c, p)
{
    if x is UnTrustNEntries {
        let y = x->UnTrustNEntries_0; let z = leaf@.etype as int; let n = p.len() as int;
        if !leaf.texts() && !leaf.varying() { assert(joined(p).len() as int / z == n) by (nonlinear_arith) requires joined(p).len() == z * n, z > 0; }
        if c is IrregularSized {
            let v = c->IrregularSized_0.1@;
            assert forall|i: int| 0 <= i < n implies (#[trigger] v[i])@ == p[i] by { lemma_entry(p, i); assert(y.2@[i] == start_of(p, i) && y.2@[i + 1] == start_of(p, i + 1)); }
        }
    }
}
/// a basket stored for entries is one that can be handed out, and as these entries
pub proof fn lemma_chunk_back(b: Basket, p: Seq<Seq<u8>>, s: Seq<u8>, start: i64, leaf: Leaf, entries: i64, header: Option<i32>, c: BranchChunks)
    requires basket_for(b, p), b.key.fits_format(), b.rvers <= super::rvers::BASKET, 0 <= b.nev_size, b.key.seek_key == start, 0 <= start < 0x4000_0000_0000_0000, start + b.key.n_bytes <= s.len(), p.len() < 0x1000_0000, 0 <= b.key.key_len,
        s.subrange(start as int, start + b.key.n_bytes) == b.key.enc() + basket_head(b) + payload(joined(p), b.offsets@, p.len() as int),
        0 < b.key.n_bytes, joined(p).len() <= i32::MAX, !leaf.texts() ==> leaf@.etype > 0, one_size(leaf, p), leaf is Element ==> header is Some, header is Some ==> !leaf.varying()
    ensures chunk_ok(s, start, b.key.n_bytes, leaf, header is Some), chunk_is(s, start, b.key.n_bytes, leaf@.etype, leaf, entries, header, c) ==> hands(c, p)
{
    hide(Basket::holds); hide(Basket::raw); hide(riofs::readable); hide(riofs::loaded); hide(payload); hide(names_starts); hide(chunk_of); hide(basket_for); hide(one_size); hide(gives); hide(tame);
    let rec = s.subrange(start as int, start + b.key.n_bytes); let a = start as int;
    lemma_basket_back(b, p, s, a, arbitrary(), Seq::empty(), arbitrary());
    assert forall|r: Basket| #[trigger] r.is(rec) implies riofs::readable(r.key, s) by { lemma_basket_back(b, p, s, a, r, Seq::empty(), arbitrary()); }
    assert forall|r: Basket, d: Seq<u8>| #[trigger] r.is(rec) && #[trigger] riofs::loaded(r.key, s, d) implies r.holds(d) by { lemma_basket_back(b, p, s, a, r, d, arbitrary()); }
    assert forall|r: Basket, d: Seq<u8>, x: BasketData| #[trigger] r.is(rec) && riofs::loaded(r.key, s, d) && #[trigger] r.raw(d, x) implies tame(x, leaf, header is Some) by { lemma_basket_back(b, p, s, a, r, d, x); lemma_tame(x, p, leaf, header is Some); }
    if chunk_is(s, start, b.key.n_bytes, leaf@.etype, leaf, entries, header, c) {
        let (r, d, x) = choose|r: Basket, d: Seq<u8>, x: BasketData| #![trigger r.raw(d, x)] r.is(rec) && riofs::loaded(r.key, s, d) && r.raw(d, x) && chunk_of(leaf, leaf@.etype, r.nev_size, entries, x, header, c);
        lemma_basket_back(b, p, s, a, r, d, x);
        lemma_hands(x, p, leaf, r.nev_size, entries, header, c);
    }
}
pub proof fn lemma_tame(x: BasketData, p: Seq<Seq<u8>>, leaf: Leaf, element: bool)
    requires gives(x, p), joined(p).len() <= i32::MAX, !leaf.texts() ==> leaf@.etype > 0, leaf is Element ==> element
    ensures tame(x, leaf, element)
{ if x is UnTrustNEntries { lemma_ordered(p, x->UnTrustNEntries_0.2@); } }
pub proof fn lemma_ordered(p: Seq<Seq<u8>>, t: Seq<i32>)
    requires t.len() == p.len() + 1, forall|i: int| 0 <= i <= p.len() ==> #[trigger] t[i] == start_of(p, i)
    ensures ordered(t, joined(p).len() as int)
{
    assert forall|i: int| 0 <= i < t.len() - 1 implies 0 <= #[trigger] t[i] && t[i] <= t[i + 1] && t[i + 1] <= joined(p).len() by { lemma_entry(p, i); assert(t[i + 1] == start_of(p, i + 1)); }
}
/// e is an entry that the function reads to its end, whatever follows it
pub open spec fn reads<T, F: VxFunc<T>>(f: &F, e: Seq<u8>) -> bool { forall|s: Seq<u8>| #[trigger] starts_with(s, e) ==> f.can(s, 0) && f.takes(s, 0) == e.len() }
pub open spec fn made_of<T, F: VxFunc<T>>(f: &F, c: BranchChunks, e: Seq<u8>, x: T) -> bool { exists|s: Seq<u8>| #[trigger] starts_with(s, e) && f.gives(s, if c is RegularSized { 0 } else { c->IrregularSized_0.2 as int }, x) }
/// each of the values is made of the bytes of its entry
pub proof fn lemma_values<T, F: VxFunc<T>>(f: &F, c: BranchChunks, p: Seq<Seq<u8>>, v: Seq<T>)
    requires hands(c, p), c is RegularSized ==> forall|i: int| 0 <= i < p.len() ==> reads::<T, F>(f, #[trigger] p[i]),
        c is IrregularSized ==> 0 <= c->IrregularSized_0.2 && forall|i: int| 0 <= i < p.len() ==> f.can(#[trigger] p[i], c->IrregularSized_0.2 as int)
    ensures applies::<T, F>(f, c), values::<T, F>(f, c, v) ==> v.len() == p.len(),
        values::<T, F>(f, c, v) ==> forall|i: int| 0 <= i < p.len() ==> made_of::<T, F>(f, c, p[i], #[trigger] v[i])
{
    if c is RegularSized {
        let d = joined(p);
        assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] pos::<T, F>(f, d, i) <= d.len() && pos::<T, F>(f, d, i) == start_of(p, i) && starts_with(from_at(d, pos::<T, F>(f, d, i)), p[i]) && f.can(from_at(d, pos::<T, F>(f, d, i)), 0) && 0 <= f.takes(from_at(d, pos::<T, F>(f, d, i)), 0) by { lemma_pos::<T, F>(f, p, i); }
        if values::<T, F>(f, c, v) {
            assert forall|i: int| 0 <= i < p.len() implies made_of::<T, F>(f, c, p[i], #[trigger] v[i]) by { let s = from_at(d, pos::<T, F>(f, d, i)); assert(starts_with(s, p[i]) && f.gives(s, 0, v[i])); }
        }
    } else if values::<T, F>(f, c, v) {
        assert forall|i: int| 0 <= i < p.len() implies made_of::<T, F>(f, c, p[i], #[trigger] v[i]) by { let e = p[i]; assert(e.subrange(0, e.len() as int) =~= e); assert(c->IrregularSized_0.1@[i]@ == e); assert(starts_with(e, p[i]) && f.gives(e, c->IrregularSized_0.2 as int, v[i])); }
    }
}
pub proof fn lemma_pos<T, F: VxFunc<T>>(f: &F, p: Seq<Seq<u8>>, i: int)
    requires 0 <= i < p.len(), forall|j: int| 0 <= j < p.len() ==> reads::<T, F>(f, #[trigger] p[j])
    ensures pos::<T, F>(f, joined(p), i) == start_of(p, i), 0 <= start_of(p, i) <= joined(p).len(), starts_with(from_at(joined(p), start_of(p, i)), p[i])
    decreases i
{
    let d = joined(p);
    lemma_entry(p, i);
    let t = from_at(d, start_of(p, i));
    assert(start_of(p, i + 1) == start_of(p, i) + p[i].len()) by { assert(d.subrange(start_of(p, i), start_of(p, i + 1)).len() == p[i].len()); }
    assert(t.subrange(0, p[i].len() as int) =~= p[i]);
    if i > 0 {
        lemma_pos::<T, F>(f, p, i - 1); lemma_entry(p, i - 1); assert(reads::<T, F>(f, p[i - 1]));
        assert(d.subrange(start_of(p, i - 1), start_of(p, i)).len() == p[i - 1].len());
    } else { assert(p.subrange(0, 0) =~= Seq::empty()); }
}
/// what a value was written as is an entry that its type reads, and reads as the same value
pub proof fn lemma_typed<T: Default + RoundTrip>(f: &VxTyped<T>, x: T)
    requires x.encodable(), forall|s: Seq<u8>| T::fits(s) ==> !#[trigger] T::rejects(s)
    ensures reads::<T, VxTyped<T>>(f, x.enc()), forall|s: Seq<u8>, y: T| starts_with(s, x.enc()) && #[trigger] f.gives(s, 0, y) ==> x.same(&y)
{
    T::modes();
    assert forall|s: Seq<u8>| #[trigger] starts_with(s, x.enc()) implies f.can(s, 0) && f.takes(s, 0) == x.enc().len() by { x.round_trip(s); assert(lead_of::<T>(s, 0) == 0); assert(from_at(s, 0) =~= s); }
    assert forall|s: Seq<u8>, y: T| starts_with(s, x.enc()) && #[trigger] f.gives(s, 0, y) implies x.same(&y) by { x.round_trip(s); assert(lead_of::<T>(s, 0) == 0); assert(from_at(s, 0) =~= s); }
}
} // mod branch
