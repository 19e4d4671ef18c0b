pub mod rcont {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use super::base::*;
use super::rbytes::*;
use super::root::traits;
use super::root::traits::{Object as _, Named as _};
use super::rvers;
use super::rbase;
use super::rbase::*;
use super::io::*;
use super::riofs::{str_ok, str_end, text_is};
// ---- lists and arrays being written
/// one object record, then sep
pub open spec fn one(a: WBuffer, m: WBuffer, b: WBuffer, c: Seq<char>, addr: usize, sep: Seq<u8>) -> bool {
    a.wf() && extends(a, m) && object_record(a, m, c, addr) && appended(m, b, sep)
}
/// the buffers ws[0], …, ws[n] between which the records of n objects were written, in order
pub open spec fn listed(ws: Seq<WBuffer>, ms: Seq<WBuffer>, objs: Seq<(&dyn FactoryItemWrite, usize)>, n: int, sep: Seq<u8>) -> bool {
    ws.len() == n + 1 && ms.len() == n && forall|i: int| 0 <= i < n ==> one(ws[i], #[trigger] ms[i], ws[i + 1], objs[i].0.cls(), objs[i].1, sep)
}
/// a container record: a header with the right byte count, the leading fields, one record per object
pub open spec fn container(pre: WBuffer, post: WBuffer, front: Seq<u8>, objs: Seq<(&dyn FactoryItemWrite, usize)>, sep: Seq<u8>) -> bool {
    exists|ws: Seq<WBuffer>, ms: Seq<WBuffer>| #[trigger] listed(ws, ms, objs, objs.len() as int, sep)
        && appended(pre, ws[0], front) && patched(ws.last(), post, pre.v().len() as int, be32(count_word((post.v().len() - pre.v().len() - 4) as u32)))
}
pub open spec fn text_or_empty(name: Option<String>) -> Seq<char> { match name { Some(s) => s@, None => Seq::empty() } }
pub open spec fn all_okay(objs: Seq<(&dyn FactoryItemWrite, usize)>) -> bool { forall|i: int| 0 <= i < objs.len() ==> (#[trigger] objs[i]).0.okay() }
pub proof fn lemma_nothing(w: WBuffer)
    requires w.wf()
    ensures appended(w, w, Seq::empty()), extends(w, w)
{ assert(w.v() + Seq::<u8>::empty() =~= w.v()); lemma_starts_refl(w.v(), w.v()); }
pub proof fn lemma_more(ws: Seq<WBuffer>, ms: Seq<WBuffer>, objs: Seq<(&dyn FactoryItemWrite, usize)>, n: int, sep: Seq<u8>, m: WBuffer, b: WBuffer)
    requires listed(ws, ms, objs, n, sep), 0 <= n < objs.len(), one(ws[n], m, b, objs[n].0.cls(), objs[n].1, sep)
    ensures listed(ws.push(b), ms.push(m), objs, n + 1, sep)
{ }
/// writing the byte count into the header leaves everything else as it was
pub proof fn lemma_front(pre: WBuffer, a: WBuffer, b: WBuffer, c: WBuffer, x: Seq<u8>, y: u32)
    requires pre.wf(), appended(pre, a, be32(0) + x), extends(a, b), patched(b, c, pre.v().len() as int, be32(y)),
    ensures extends(pre, c), small(c) && refs_ok(b) && refs_ok(pre) ==> refs_ok(c)
{
    let n = pre.v().len() as int; let m = n + 4; let f = a.v().len() as int; let p = b.v(); let q = c.v();
    assert(f == m + x.len());
    assert forall|i: int| 0 <= i < n implies q[i] == pre.v()[i] by { assert(a.v()[i] == pre.v()[i]); assert(p.subrange(0, f)[i] == p[i]); }
    assert(q.subrange(0, n) =~= pre.v());
    assert(from_at(q, m) =~= from_at(p, m));
    if small(c) && refs_ok(b) && refs_ok(pre) {
        assert forall|s: String| #[trigger] c.refs_s@.contains_key(s) implies class_at(c, s@, c.refs_s@[s]) by {
            assert(b.refs_s@.contains_key(s));
            if a.refs_s@.contains_key(s) { lemma_class_at(pre, c, s@, pre.refs_s@[s]); }
            else { let k = (c.refs_s@[s] - 0x8000_0000) - 2 - c.offset; assert(class_at(b, s@, b.refs_s@[s])); assert(from_at(q, k) =~= from_at(p, k)); }
        }
        assert forall|o: usize| #[trigger] c.refs_p@.contains_key(o) implies object_at(c, c.refs_p@[o]) by {
            assert(b.refs_p@.contains_key(o));
            if a.refs_p@.contains_key(o) { lemma_object_at(pre, c, pre.refs_p@[o]); }
            else { let k = c.refs_p@[o] - 2 - c.offset; assert(object_at(b, b.refs_p@[o])); assert(from_at(q, k + 4) =~= from_at(p, k + 4)); }
        }
    }
}
//@struct oxyroot/src/rcont/objarray.rs WriterObjArray
//@struct oxyroot/src/rcont/list.rs WriterList
//@impl oxyroot/src/rcont/objarray.rs | Object for WriterObjArray => impl traits::Object for WriterObjArray<'_>
open spec fn class_of(&self) -> Seq<char> { "TObjArray"@ }
//@fn class
//@end
//@endimpl
//@impl oxyroot/src/rcont/list.rs | traits::Object for WriterList
open spec fn class_of(&self) -> Seq<char> { match self.name { Some(s) => s@, None => "TList"@ } }
//@fn class
//@end
//@endimpl
//@impl oxyroot/src/rcont/objarray.rs | RVersioner for WriterObjArray => impl WriterObjArray<'_>
//@fn rversion
ensures ret == rvers::OBJ_ARRAY
//@end
//@endimpl
//@impl oxyroot/src/rcont/objarray.rs | WriterObjArray => impl<'a> WriterObjArray<'a>
//@fn push
ensures final(self).objs@ == old(self).objs@.push((obj, ptr)), final(self).name == old(self).name, final(self).obj == old(self).obj, final(self).low == old(self).low
//@end
//@endimpl
//@impl oxyroot/src/rcont/list.rs | WriterList => impl<'a> WriterList<'a>
//@fn push
ensures final(self).objs@ == old(self).objs@.push((obj, ptr)), final(self).name == old(self).name, final(self).obj == old(self).obj
//@end
//@endimpl
pub open spec fn array_front(a: &WriterObjArray) -> Seq<u8> { be16(rvers::OBJ_ARRAY as u16) + a.obj.enc() + enc_str(encode_utf8(text_or_empty(a.name))) + be32(a.objs@.len() as u32) + be32(a.low as u32) }
pub open spec fn list_front(a: &WriterList) -> Seq<u8> { be16(rvers::LIST as u16) + a.obj.enc() + enc_str(encode_utf8(text_or_empty(a.name))) + be32(a.objs@.len() as u32) }
//@impl oxyroot/src/rcont/objarray.rs | Marshaler for WriterObjArray => impl WriterObjArray<'_>
//@fn marshal
requires old(w).wf(), small(*old(w)) ==> refs_ok(*old(w)), all_okay(self.objs@), self.objs@.len() <= i32::MAX, encode_utf8(text_or_empty(self.name)).len() <= i32::MAX
ensures ret is Ok, ret->Ok_0 == final(w).at() - old(w).at(), extends(*old(w), *final(w)),
  small(*final(w)) ==> refs_ok(*final(w)) && container(*old(w), *final(w), be32(0) + array_front(self), self.objs@, Seq::<u8>::empty())
//@start
hide(object_record); hide(refs_ok);
broadcast use axiom_vec_len, group_acc;
let ghost pre = *w; let ghost objs = self.objs@;
proof { acc_start(*w); reveal_strlit(""); assert(encode_utf8(""@) =~= Seq::<u8>::empty()); assert(""@ =~= Seq::<char>::empty()); }
//@beforeloop 0
let ghost w1 = *w; let ghost mut ws: Seq<WBuffer> = seq![w1]; let ghost mut ms: Seq<WBuffer> = Seq::empty();
proof {
  assert(w1.v() =~= pre.v() + (be32(0) + array_front(self)));
  assert(extends(w1, w1)) by { lemma_starts_refl(w1.v(), w1.v()); }
  lemma_ap_ext(pre, w1, be32(0) + array_front(self));
}
//@loop 0 for it
invariant it.seq().len() == objs.len(), forall|i: int| 0 <= i < objs.len() ==> *(#[trigger] it.seq()[i]) == objs[i], all_okay(objs), w1.wf(), w1.v().len() >= 6,
  extends(w1, *w), small(*w) ==> refs_ok(*w) && listed(ws, ms, objs, it.index@ as int, Seq::<u8>::empty()) && ws[0] == w1 && ws.last() == *w
//@loopstart 0
let ghost k = it.index@ as int; let ghost a = *w;
proof { reveal_strlit(""); assert(encode_utf8(""@) =~= Seq::<u8>::empty()); assert(*it.seq()[k] == objs[k]); }
//@after self\.objs\.iter\(\)[^{]*\{[^}]*?w\.write_object_any\([^;]*;
let ghost mm = *w;
//@loopend 0
proof {
  lemma_nothing(mm);
 lemma_ext_trans(a, mm, *w); lemma_ext_trans(w1, a, *w);
  if small(*w) {
    assert(one(a, mm, *w, objs[k].0.cls(), objs[k].1, Seq::<u8>::empty()));
    lemma_more(ws, ms, objs, k, Seq::<u8>::empty(), mm, *w);
  }
  ws = ws.push(*w); ms = ms.push(mm);
}
//@before w\.set_header\(hdr\)
let ghost w2 = *w;
proof {
  assert forall|c: WBuffer, y: u32| #[trigger] patched(w2, c, pre.v().len() as int, be32(y)) implies extends(pre, c) && (small(c) && refs_ok(w2) && refs_ok(pre) ==> refs_ok(c)) by { lemma_front(pre, w1, w2, c, array_front(self), y); }
}
//@end
//@endimpl
//@impl oxyroot/src/rcont/list.rs | Marshaler for WriterList => impl WriterList<'_>
//@fn marshal
requires old(w).wf(), small(*old(w)) ==> refs_ok(*old(w)), all_okay(self.objs@), self.objs@.len() <= i32::MAX, encode_utf8(text_or_empty(self.name)).len() <= i32::MAX
ensures ret is Ok, ret->Ok_0 == final(w).at() - old(w).at(), extends(*old(w), *final(w)),
  small(*final(w)) ==> refs_ok(*final(w)) && container(*old(w), *final(w), be32(0) + list_front(self), self.objs@, be8(0))
//@start
hide(object_record); hide(refs_ok);
broadcast use axiom_vec_len, group_acc;
let ghost pre = *w; let ghost objs = self.objs@;
proof { acc_start(*w); reveal_strlit(""); assert(encode_utf8(""@) =~= Seq::<u8>::empty()); assert(""@ =~= Seq::<char>::empty()); }
//@beforeloop 0
let ghost w1 = *w; let ghost mut ws: Seq<WBuffer> = seq![w1]; let ghost mut ms: Seq<WBuffer> = Seq::empty();
proof {
  assert(w1.v() =~= pre.v() + (be32(0) + list_front(self)));
  assert(extends(w1, w1)) by { lemma_starts_refl(w1.v(), w1.v()); }
  lemma_ap_ext(pre, w1, be32(0) + list_front(self));
}
//@loop 0 for it
invariant it.seq().len() == objs.len(), forall|i: int| 0 <= i < objs.len() ==> *(#[trigger] it.seq()[i]) == objs[i], all_okay(objs), w1.wf(), w1.v().len() >= 6,
  extends(w1, *w), small(*w) ==> refs_ok(*w) && listed(ws, ms, objs, it.index@ as int, be8(0)) && ws[0] == w1 && ws.last() == *w
//@loopstart 0
let ghost k = it.index@ as int; let ghost a = *w;
proof { reveal_strlit(""); assert(encode_utf8(""@) =~= Seq::<u8>::empty()); assert(*it.seq()[k] == objs[k]); }
//@after self\.objs\.iter\(\)[^{]*\{[^}]*?w\.write_object_any\([^;]*;
let ghost mm = *w;
//@loopend 0
proof {
  assert(seq![0u8] =~= be8(0)); assert(enc_str(Seq::<u8>::empty()) =~= be8(0));
  lemma_ap_ext(mm, *w, be8(0)); lemma_ext_trans(a, mm, *w); lemma_ext_trans(w1, a, *w);
  if small(*w) {
    assert(one(a, mm, *w, objs[k].0.cls(), objs[k].1, be8(0)));
    lemma_more(ws, ms, objs, k, be8(0), mm, *w);
  }
  ws = ws.push(*w); ms = ms.push(mm);
}
//@before w\.set_header\(hdr\)
let ghost w2 = *w;
proof {
  assert forall|c: WBuffer, y: u32| #[trigger] patched(w2, c, pre.v().len() as int, be32(y)) implies extends(pre, c) && (small(c) && refs_ok(w2) && refs_ok(pre) ==> refs_ok(c)) by { lemma_front(pre, w1, w2, c, list_front(self), y); }
}
//@end
//@endimpl
// ---- lists and arrays being read
/// where reading stands after n records, each followed by gap more bytes
pub open spec fn run(p: Seq<u8>, off: u32, s: Spot, gap: int, n: int) -> Spot decreases n {
    if n <= 0 { s } else { let q = any_next(p, off, run(p, off, s, gap, n - 1)); Spot { c: q.c + gap, refs: q.refs } }
}
/// the class of each object found in n records, and where its own bytes start
pub open spec fn found(p: Seq<u8>, off: u32, s: Spot, gap: int, n: int) -> Seq<(Seq<char>, int)> decreases n {
    if n <= 0 { Seq::empty() } else {
        let q = run(p, off, s, gap, n - 1); let l = found(p, off, s, gap, n - 1);
        if any_some(p, q) { l.push((any_class(p, q), any_body(p, q) + off)) } else { l }
    }
}
pub open spec fn all_fit(p: Seq<u8>, off: u32, s: Spot, gap: int, n: int) -> bool { forall|i: int| 0 <= i < n ==> any_fits(p, #[trigger] run(p, off, s, gap, i)) }
/// every record holds an object and is followed by an empty string
pub open spec fn all_there(p: Seq<u8>, off: u32, s: Spot, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> any_some(p, #[trigger] run(p, off, s, 1, i)) && ({ let c = any_next(p, off, run(p, off, s, 1, i)).c; c < p.len() && p[c] == 0 })
}
pub open spec fn objs_of(v: Seq<VxObj>) -> Seq<(Seq<char>, int)> { Seq::new(v.len(), |i: int| (v[i].cls(), v[i].read_at())) }
pub open spec fn arr_p1(s: Seq<u8>) -> int { hdr_n(s) + if hdr_v(s) > 2 { Object::used(from_at(s, hdr_n(s))) } else { 0 } }
pub open spec fn arr_p2(s: Seq<u8>) -> int { if hdr_v(s) > 1 { str_end(s, arr_p1(s)) } else { arr_p1(s) } }
pub open spec fn arr_fits(s: Seq<u8>) -> bool { (hdr_v(s) > 2 ==> Object::fits(from_at(s, hdr_n(s)))) && (hdr_v(s) > 1 ==> str_ok(s, arr_p1(s))) && arr_p2(s) + 8 <= s.len() }
pub open spec fn list_p1(s: Seq<u8>) -> int { hdr_n(s) + Object::used(from_at(s, hdr_n(s))) }
pub open spec fn list_p2(s: Seq<u8>) -> int { str_end(s, list_p1(s)) }
pub open spec fn list_fits(s: Seq<u8>) -> bool { Object::fits(from_at(s, hdr_n(s))) && str_ok(s, list_p1(s)) && list_p2(s) + 4 <= s.len() }
pub open spec fn spot_at(r: RBuffer, n: int) -> Spot { Spot { c: r.r.c + n, refs: classes(r.refs@) } }
pub open spec fn count_at(s: Seq<u8>, n: int) -> int { w32(from_at(s, n)) as i32 as int }
pub proof fn lemma_found(v: Seq<VxObj>, o: VxObj)
    ensures objs_of(v.push(o)) =~= objs_of(v).push((o.cls(), o.read_at()))
{ }
//@struct oxyroot/src/rcont/objarray.rs ReaderObjArray Box<dyn FactoryItemRead> => VxObj
//@struct oxyroot/src/rcont/list.rs ReaderList Box<dyn FactoryItemRead> => VxObj
//@impl oxyroot/src/rcont/objarray.rs | Object for ReaderObjArray => impl traits::Object for ReaderObjArray
open spec fn class_of(&self) -> Seq<char> { "TObjArray"@ }
//@fn class
//@end
//@endimpl
//@impl oxyroot/src/rcont/list.rs | traits::Object for ReaderList
open spec fn class_of(&self) -> Seq<char> { match self.name { Some(s) => s@, None => "TList"@ } }
//@fn class
//@end
//@endimpl
//@impl oxyroot/src/rcont/objarray.rs | ReaderObjArray
//@fn take_objs
//@rewrite Box<dyn FactoryItemRead> => VxObj
ensures ret@ == old(self).objs@, final(self).objs@.len() == 0
//@end
//@endimpl
//@impl oxyroot/src/rcont/list.rs | ReaderList
//@fn len
ensures ret == self.objs@.len()
//@end
//@fn is_empty
ensures ret == (self.objs@.len() == 0)
//@end
//@fn remove
//@rewrite Box<dyn FactoryItemRead> => VxObj
requires i < old(self).objs@.len()
ensures ret == old(self).objs@[i as int], final(self).objs@ == old(self).objs@.remove(i as int)
//@end
//@endimpl
//@impl oxyroot/src/rcont/objarray.rs | Unmarshaler for ReaderObjArray => impl ReaderObjArray
//@fn unmarshal
requires old(r).wf(), hdr_ok(old(r).rest()), hdr_v(old(r).rest()) <= rvers::OBJ_ARRAY ==> arr_fits(old(r).rest())
    && all_fit(old(r).r.p@, old(r).offset, spot_at(*old(r), arr_p2(old(r).rest()) + 8), 0, count_at(old(r).rest(), arr_p2(old(r).rest())))
ensures hdr_v(old(r).rest()) > rvers::OBJ_ARRAY ==> ret is Err,
  ret is Ok ==> {
    let s = old(r).rest(); let n = count_at(s, arr_p2(s)); let t = spot_at(*old(r), arr_p2(s) + 8);
    &&& hdr_v(s) > 2 ==> final(self).obj.is(from_at(s, hdr_n(s)))
    &&& hdr_v(s) > 1 ==> final(self).name is Some && text_is(final(self).name->0@, s, arr_p1(s))
    &&& final(self).low == w32(from_at(s, arr_p2(s) + 4)) as i32
    &&& objs_of(final(self).objs@) == objs_of(old(self).objs@) + found(old(r).r.p@, old(r).offset, t, 0, n)
    &&& final(r).wf() && final(r).r.p == old(r).r.p && final(r).offset == old(r).offset && spot(*final(r)) == run(old(r).r.p@, old(r).offset, t, 0, n)
  }
//@start
broadcast use group_rd;
let ghost s = r.rest(); let ghost p = r.r.p@; let ghost off = r.offset; let ghost r0 = *r; let ghost objs0 = self.objs@;
proof { rd_start(*r); reveal_strlit("TObjArray"); assert(from_at(r.rest(), 0) =~= r.rest()); }
//@beforeloop 0
let ghost t = spot(*r); let ghost h = (self.obj, self.name, self.low);
proof {
  assert(t == spot_at(r0, arr_p2(s) + 8));
  assert(objs_of(objs0) + Seq::<(Seq<char>, int)>::empty() =~= objs_of(objs0));
}
//@loop 0 for it
invariant r.wf(), r.r.p == r0.r.p, r.offset == off, p == r0.r.p@, all_fit(p, off, t, 0, nobjs as int), 0 < nobjs ==> 0 <= it.index@ <= nobjs, nobjs <= 0 ==> it.index@ == 0,
  spot(*r) == run(p, off, t, 0, it.index@ as int), objs_of(self.objs@) == objs_of(objs0) + found(p, off, t, 0, it.index@ as int), h == (self.obj, self.name, self.low)
//@loopstart 0
let ghost k = it.index@ as int; let ghost o1 = self.objs@;
proof { assert(any_fits(p, run(p, off, t, 0, k))); assert(from_at(p, r.r.c as int) =~= r.rest()); }
//@loopend 0
proof {
  let q = run(p, off, t, 0, k);
  if any_some(p, q) { lemma_found(o1, self.objs@.last()); assert(self.objs@ =~= o1.push(self.objs@.last())); assert(objs_of(self.objs@) =~= objs_of(objs0) + found(p, off, t, 0, k + 1)); }
}
//@end
//@endimpl
//@impl oxyroot/src/rcont/list.rs | Unmarshaler for ReaderList => impl ReaderList
//@fn unmarshal
requires old(r).wf(), hdr_ok(old(r).rest()), 3 < hdr_v(old(r).rest()) <= rvers::LIST ==> list_fits(old(r).rest())
    && all_fit(old(r).r.p@, old(r).offset, spot_at(*old(r), list_p2(old(r).rest()) + 4), 1, count_at(old(r).rest(), list_p2(old(r).rest())))
    && all_there(old(r).r.p@, old(r).offset, spot_at(*old(r), list_p2(old(r).rest()) + 4), count_at(old(r).rest(), list_p2(old(r).rest())))
ensures !(3 < hdr_v(old(r).rest()) <= rvers::LIST) ==> ret is Err,
  ret is Ok ==> {
    let s = old(r).rest(); let n = count_at(s, list_p2(s)); let t = spot_at(*old(r), list_p2(s) + 4);
    &&& final(self).obj.is(from_at(s, hdr_n(s)))
    &&& final(self).name is Some && text_is(final(self).name->0@, s, list_p1(s))
    &&& objs_of(final(self).objs@) == objs_of(old(self).objs@) + found(old(r).r.p@, old(r).offset, t, 1, n)
    &&& final(r).wf() && final(r).r.p == old(r).r.p && final(r).offset == old(r).offset && spot(*final(r)) == run(old(r).r.p@, old(r).offset, t, 1, n)
  }
//@start
broadcast use group_rd;
let ghost s = r.rest(); let ghost p = r.r.p@; let ghost off = r.offset; let ghost r0 = *r; let ghost objs0 = self.objs@;
proof { rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); }
//@beforeloop 0
let ghost t = spot(*r); let ghost h = (self.obj, self.name);
proof {
  assert(t == spot_at(r0, list_p2(s) + 4));
  assert(objs_of(objs0) + Seq::<(Seq<char>, int)>::empty() =~= objs_of(objs0));
}
//@loop 0 for it
invariant r.wf(), r.r.p == r0.r.p, r.offset == off, p == r0.r.p@, all_fit(p, off, t, 1, size as int), all_there(p, off, t, size as int), 0 < size ==> 0 <= it.index@ <= size, size <= 0 ==> it.index@ == 0,
  spot(*r) == run(p, off, t, 1, it.index@ as int), objs_of(self.objs@) == objs_of(objs0) + found(p, off, t, 1, it.index@ as int), h == (self.obj, self.name)
//@loopstart 0
let ghost k = it.index@ as int; let ghost o1 = self.objs@;
proof { assert(any_fits(p, run(p, off, t, 1, k))); assert(from_at(p, r.r.c as int) =~= r.rest()); }
//@loopend 0
proof {
  let q = run(p, off, t, 1, k);
  lemma_found(o1, self.objs@.last()); assert(self.objs@ =~= o1.push(self.objs@.last())); assert(objs_of(self.objs@) =~= objs_of(objs0) + found(p, off, t, 1, k + 1));
}
//@end
//@endimpl
// ---- what is written is what is read
/// the reader's classes contain every class the writer can refer back to
pub open spec fn agree(refs: Map<i64, Seq<char>>, m: Map<String, i64>) -> bool {
    forall|s: String| #[trigger] m.contains_key(s) ==> refs.contains_key((m[s] - 0x8000_0000) as i64) && refs[(m[s] - 0x8000_0000) as i64] == s@
}
pub open spec fn nameable(c: Seq<char>) -> bool { known_class(c) && encode_utf8(c).len() < 80 && forall|i: int| 0 <= i < encode_utf8(c).len() ==> encode_utf8(c)[i] != 0 }
pub open spec fn body_of(a: WBuffer, c: Seq<char>) -> int { a.v().len() + 8 + if has_class(a.refs_s@, c) { 0int } else { encode_utf8(c).len() as int + 1 } }
/// an object of class c reads back exactly the bytes it wrote between a and m, meeting the classes it named
pub open spec fn behaves(p: Seq<u8>, off: u32, a: WBuffer, m: WBuffer, c: Seq<char>) -> bool {
    forall|t: Spot| t.c == body_of(a, c) && agree(t.refs, a.refs_s@) && (!has_class(a.refs_s@, c) ==> t.refs.contains_key((a.at() + 6) as i64) && t.refs[(a.at() + 6) as i64] == c)
        ==> (#[trigger] self_read(p, off, t, c)).c == m.v().len() && agree(self_read(p, off, t, c).refs, m.refs_s@)
}
pub proof fn lemma_prefix_of(p: Seq<u8>, v: Seq<u8>, n: int, x: Seq<u8>)
    requires 0 <= n <= v.len() <= p.len(), forall|i: int| n <= i < v.len() ==> p[i] == v[i], starts_with(from_at(v, n), x)
    ensures starts_with(from_at(p, n), x)
{
    assert forall|i: int| 0 <= i < x.len() implies from_at(p, n)[i] == x[i] by { assert(from_at(v, n).subrange(0, x.len() as int)[i] == x[i]); }
    assert(from_at(p, n).subrange(0, x.len() as int) =~= x);
}
/// a record written for a new object is one the reader accepts, as an object of the class
pub proof fn lemma_record(p: Seq<u8>, off: u32, s: Spot, a: WBuffer, m: WBuffer, c: Seq<char>, addr: usize)
    requires a.wf(), m.wf(), extends(a, m), object_record(a, m, c, addr), refs_ok(a), small(m), !a.refs_p@.contains_key(addr), nameable(c), behaves(p, off, a, m, c),
        m.v().len() <= p.len(), forall|i: int| a.v().len() <= i < m.v().len() ==> p[i] == m.v()[i], off == a.offset, s.c == a.v().len(), agree(s.refs, a.refs_s@)
    ensures any_fits(p, s), any_some(p, s), any_class(p, s) == c, any_body(p, s) == body_of(a, c), any_next(p, off, s).c == m.v().len(), agree(any_next(p, off, s).refs, m.refs_s@)
{
    broadcast use group_words, lemma_from_at, group_utf8_lib;
    let n = a.v().len() as int; let t = from_at(p, n); let b = encode_utf8(c); let mv = m.v();
    assert(mv.len() >= n) by { assert(starts_with(mv, a.v())); }
    assert(from_at(mv, n).len() == mv.len() - n);
    let x = (mv.len() - n - 4) as u32;
    lemma_prefix_of(p, mv, n, be32(count_word(x)));
    assert(mv.len() >= n + 4);
    lemma_count_word(x as int);
    assert(w32(t) == count_word(x));
    let y = count_word(x);
    assert(y < 0x8000_0000) by { assert((x | 0x4000_0000) < 0x8000_0000) by (bit_vector) requires x < 0x4000_0000; }
    assert(counted(t));
    assert(from_at(t, 4) == from_at(p, n + 4));
    lemma_tag_bits(w32(from_at(t, 4)));
    if has_class(a.refs_s@, c) {
        lemma_has_ref(a.refs_s@, a, c);
        let k = choose|s: String| #[trigger] a.refs_s@.contains_key(s) && s@ == c;
        let v = class_ref(a.refs_s@, c);
        lemma_prefix_of(p, mv, n + 4, be32(v as u32));
        assert(class_at(a, k@, a.refs_s@[k]));
        let u = v as u32;
        assert(u & 0x7FFF_FFFF == u - 0x8000_0000 && u & 0x8000_0000 != 0) by (bit_vector) requires u >= 0x8000_0000;
        assert((v - 0x8000_0000) as i64 == (u & 0x7FFF_FFFF) as i64);
        assert(u != 0xFFFF_FFFF);
        assert(tag_of(t) == u);
    } else {
        lemma_prefix_of(p, mv, n + 4, enc_newclass(c));
        lemma_starts_concat(from_at(t, 4), be32(0xFFFF_FFFFu32), b + be8(0));
        assert(tag_of(t) == 0xFFFF_FFFF);
        let q = from_at(t, 8);
        assert(q == from_at(from_at(t, 4), 4));
        lemma_starts_concat(q, b, be8(0));
        assert(q.subrange(0, b.len() as int) == b);
        assert forall|i: int| 0 <= i < b.len() implies q[i] != 0 by { assert(q.subrange(0, b.len() as int)[i] == q[i]); }
        assert(from_at(q, b.len() as int).subrange(0, 1)[0] == be8(0)[0]);
        assert(is_cls(q, b.len() as int));
        assert(is_cstr(q, b.len() as int));
        let k = name_len(q);
        assert(is_cstr(q, k));
        assert(k == b.len()) by { if k < b.len() { assert(q[k] != 0); } else if k > b.len() { assert(q[b.len() as int] != 0); } }
        assert(encode_utf8(name_at(q)) == q.subrange(0, k));
        lemma_utf8_inj(c, name_at(q));
        assert(0xFFFF_FFFFu32 & 0x8000_0000 != 0) by (bit_vector);
        let r2 = s.refs.insert((s.c + off + 4 + 2) as i64, c);
        assert(agree(r2, a.refs_s@)) by {
            assert forall|z: String| #[trigger] a.refs_s@.contains_key(z) implies r2.contains_key((a.refs_s@[z] - 0x8000_0000) as i64) && r2[(a.refs_s@[z] - 0x8000_0000) as i64] == z@ by { assert(class_at(a, z@, a.refs_s@[z])); }
        }
        assert(s.c + off + 4 + 2 == a.at() + 6);
    }
}
/// everything known about the i-th object written, as its reader needs it
pub open spec fn fair(p: Seq<u8>, off: u32, a: WBuffer, m: WBuffer, o: (&dyn FactoryItemWrite, usize)) -> bool {
    refs_ok(a) && !a.refs_p@.contains_key(o.1) && nameable(o.0.cls()) && behaves(p, off, a, m, o.0.cls())
}
pub open spec fn read_ok(p: Seq<u8>, off: u32, s: Spot, c: Seq<char>, a: WBuffer) -> bool { any_fits(p, s) && any_some(p, s) && any_class(p, s) == c && any_body(p, s) == body_of(a, c) }
pub open spec fn agrees(s: Spot, w: WBuffer) -> bool { s.c == w.v().len() && agree(s.refs, w.refs_s@) }
/// the i-th record, read where the reader stands after i of them
#[verifier::spinoff_prover]
pub proof fn lemma_read_one(p: Seq<u8>, off: u32, q: Spot, ws: Seq<WBuffer>, ms: Seq<WBuffer>, objs: Seq<(&dyn FactoryItemWrite, usize)>, i: int, sep: Seq<u8>)
    requires listed(ws, ms, objs, objs.len() as int, sep), 0 <= i < objs.len(), small(ws.last()), off == ws.last().offset, agrees(q, ws[i]), fair(p, off, ws[i], ms[i], objs[i]),
        bytes_kept(p, ws[i].v().len() as int, ws.last())
    ensures read_ok(p, off, q, objs[i].0.cls(), ws[i]), agrees(Spot { c: any_next(p, off, q).c + sep.len(), refs: any_next(p, off, q).refs }, ws[i + 1]),
        sep == be8(0) ==> any_next(p, off, q).c < p.len() && p[any_next(p, off, q).c] == 0
{
    hide(object_record); hide(refs_ok); hide(any_fits); hide(any_some); hide(any_class); hide(any_body); hide(any_next); hide(behaves); hide(nameable); hide(agree);
    let a = ws[i]; let m = ms[i]; let b = ws[i + 1];
    assert(one(a, m, b, objs[i].0.cls(), objs[i].1, sep));
    lemma_later(ws, ms, objs, i, sep); lemma_later(ws, ms, objs, i + 1, sep);
    assert forall|k: int| a.v().len() <= k < m.v().len() implies p[k] == m.v()[k] by { assert(b.v()[k] == m.v()[k]); assert(b.v()[k] == ws.last().v()[k]); }
    assert(b.v().len() == m.v().len() + sep.len() && b.offset == m.offset); assert(b.v().len() <= ws.last().v().len()); assert(b.offset == ws.last().offset); assert(small(m));
    lemma_record(p, off, q, a, m, objs[i].0.cls(), objs[i].1);
    if sep == be8(0) {
        let c = m.v().len() as int;
        assert(b.v()[c] == be8(0)[0]); assert(b.v()[c] == ws.last().v()[c]); assert(p[c] == 0);
    }
}
pub open spec fn pushed(ws: Seq<WBuffer>, objs: Seq<(&dyn FactoryItemWrite, usize)>, off: u32, n: int) -> Seq<(Seq<char>, int)> decreases n {
    if n <= 0 { Seq::empty() } else { pushed(ws, objs, off, n - 1).push((objs[n - 1].0.cls(), body_of(ws[n - 1], objs[n - 1].0.cls()) + off)) }
}
pub open spec fn bytes_kept(p: Seq<u8>, n: int, w: WBuffer) -> bool { p.len() >= w.v().len() && forall|i: int| n <= i < w.v().len() ==> p[i] == #[trigger] w.v()[i] }
pub open spec fn setup(p: Seq<u8>, off: u32, s: Spot, ws: Seq<WBuffer>, ms: Seq<WBuffer>, objs: Seq<(&dyn FactoryItemWrite, usize)>, sep: Seq<u8>) -> bool {
    &&& listed(ws, ms, objs, objs.len() as int, sep) && small(ws.last()) && off == ws.last().offset && agrees(s, ws[0]) && bytes_kept(p, ws[0].v().len() as int, ws.last())
    &&& forall|i: int| 0 <= i < objs.len() ==> fair(p, off, ws[i], #[trigger] ms[i], objs[i])
}
#[verifier::spinoff_prover]
pub proof fn lemma_setup(p: Seq<u8>, off: u32, s: Spot, ws: Seq<WBuffer>, ms: Seq<WBuffer>, objs: Seq<(&dyn FactoryItemWrite, usize)>, sep: Seq<u8>)
    requires setup(p, off, s, ws, ms, objs, sep)
    ensures agrees(s, ws[0]), ws.len() == objs.len() + 1, ws.last() == ws[objs.len() as int]
{ hide(fair); hide(agree); hide(one); hide(bytes_kept); hide(small); hide(agrees); }
#[verifier::spinoff_prover]
pub proof fn lemma_one_more(p: Seq<u8>, off: u32, s: Spot, q: Spot, ws: Seq<WBuffer>, ms: Seq<WBuffer>, objs: Seq<(&dyn FactoryItemWrite, usize)>, i: int, sep: Seq<u8>)
    requires setup(p, off, s, ws, ms, objs, sep), 0 <= i < objs.len(), agrees(q, ws[i])
    ensures read_ok(p, off, q, objs[i].0.cls(), ws[i]), agrees(Spot { c: any_next(p, off, q).c + sep.len(), refs: any_next(p, off, q).refs }, ws[i + 1]),
        sep == be8(0) ==> any_next(p, off, q).c < p.len() && p[any_next(p, off, q).c] == 0
{
    hide(any_fits); hide(any_some); hide(any_class); hide(any_body); hide(any_next); hide(fair); hide(body_of); hide(agree); hide(one);
    assert(fair(p, off, ws[i], ms[i], objs[i]));
    lemma_from_first(ws, ms, objs, i, sep);
    lemma_read_one(p, off, q, ws, ms, objs, i, sep);
}
pub proof fn lemma_from_first(ws: Seq<WBuffer>, ms: Seq<WBuffer>, objs: Seq<(&dyn FactoryItemWrite, usize)>, k: int, sep: Seq<u8>)
    requires listed(ws, ms, objs, objs.len() as int, sep), 0 <= k <= objs.len()
    ensures ws[0].v().len() <= ws[k].v().len()
    decreases k
{ hide(one); if k > 0 { lemma_from_first(ws, ms, objs, k - 1, sep); lemma_growing(ws, ms, objs, k - 1, sep); } }
/// after n records the reader stands where the writer stood
#[verifier::spinoff_prover]
pub proof fn lemma_stands(p: Seq<u8>, off: u32, s: Spot, ws: Seq<WBuffer>, ms: Seq<WBuffer>, objs: Seq<(&dyn FactoryItemWrite, usize)>, n: int, sep: Seq<u8>, g: int)
    requires setup(p, off, s, ws, ms, objs, sep), g == sep.len(), 0 <= n <= objs.len()
    ensures agrees(run(p, off, s, g, n), ws[n])
    decreases n
{
    hide(any_fits); hide(any_some); hide(any_class); hide(any_body); hide(any_next); hide(fair); hide(body_of); hide(agree); hide(one); hide(setup); hide(agrees); hide(small); hide(listed); hide(nameable);
    if n > 0 {
        lemma_stands(p, off, s, ws, ms, objs, n - 1, sep, g);
        lemma_one_more(p, off, s, run(p, off, s, g, n - 1), ws, ms, objs, n - 1, sep);
    } else { lemma_setup(p, off, s, ws, ms, objs, sep);
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_reads(p: Seq<u8>, off: u32, s: Spot, ws: Seq<WBuffer>, ms: Seq<WBuffer>, objs: Seq<(&dyn FactoryItemWrite, usize)>, i: int, sep: Seq<u8>, g: int)
    requires setup(p, off, s, ws, ms, objs, sep), g == sep.len(), 0 <= i < objs.len()
    ensures read_ok(p, off, run(p, off, s, g, i), objs[i].0.cls(), ws[i]), sep == be8(0) ==> any_next(p, off, run(p, off, s, g, i)).c < p.len() && p[any_next(p, off, run(p, off, s, g, i)).c] == 0
{
    hide(any_fits); hide(any_some); hide(any_class); hide(any_body); hide(any_next); hide(fair); hide(body_of); hide(agree); hide(one); hide(setup); hide(agrees); hide(run); hide(read_ok);
    lemma_stands(p, off, s, ws, ms, objs, i, sep, g);
    lemma_one_more(p, off, s, run(p, off, s, g, i), ws, ms, objs, i, sep);
}
#[verifier::spinoff_prover]
pub proof fn lemma_found_all(p: Seq<u8>, off: u32, s: Spot, ws: Seq<WBuffer>, ms: Seq<WBuffer>, objs: Seq<(&dyn FactoryItemWrite, usize)>, n: int, sep: Seq<u8>, g: int)
    requires setup(p, off, s, ws, ms, objs, sep), g == sep.len(), 0 <= n <= objs.len()
    ensures found(p, off, s, g, n) == pushed(ws, objs, off, n)
    decreases n
{
    hide(any_fits); hide(any_some); hide(any_class); hide(any_body); hide(any_next); hide(fair); hide(body_of); hide(agree); hide(one); hide(setup); hide(agrees); hide(run);
    if n > 0 {
        lemma_found_all(p, off, s, ws, ms, objs, n - 1, sep, g);
        lemma_reads(p, off, s, ws, ms, objs, n - 1, sep, g);
    }
}
/// a list or an array read back where it was written gives the objects that were pushed, in that order
#[verifier::spinoff_prover]
pub proof fn lemma_read_back(p: Seq<u8>, off: u32, s: Spot, ws: Seq<WBuffer>, ms: Seq<WBuffer>, objs: Seq<(&dyn FactoryItemWrite, usize)>, sep: Seq<u8>, g: int)
    requires setup(p, off, s, ws, ms, objs, sep), g == sep.len()
    ensures agrees(run(p, off, s, g, objs.len() as int), ws.last()), all_fit(p, off, s, g, objs.len() as int), sep == be8(0) ==> all_there(p, off, s, objs.len() as int),
        found(p, off, s, g, objs.len() as int) == pushed(ws, objs, off, objs.len() as int)
{
    hide(any_fits); hide(any_some); hide(any_class); hide(any_body); hide(any_next); hide(fair); hide(body_of); hide(agree); hide(one); hide(setup); hide(agrees); hide(run); hide(found); hide(pushed);
    let n = objs.len() as int; lemma_setup(p, off, s, ws, ms, objs, sep);
    lemma_stands(p, off, s, ws, ms, objs, n, sep, g);
    lemma_found_all(p, off, s, ws, ms, objs, n, sep, g);
    assert forall|i: int| 0 <= i < n implies any_fits(p, #[trigger] run(p, off, s, g, i)) by { lemma_reads(p, off, s, ws, ms, objs, i, sep, g); }
    if sep == be8(0) {
        broadcast use group_words; assert(g == 1);
        assert forall|i: int| 0 <= i < n implies any_some(p, #[trigger] run(p, off, s, 1, i)) && any_next(p, off, run(p, off, s, 1, i)).c < p.len() && p[any_next(p, off, run(p, off, s, 1, i)).c] == 0 by { lemma_reads(p, off, s, ws, ms, objs, i, sep, g); }
    }
}
pub proof fn lemma_growing(ws: Seq<WBuffer>, ms: Seq<WBuffer>, objs: Seq<(&dyn FactoryItemWrite, usize)>, k: int, sep: Seq<u8>)
    requires listed(ws, ms, objs, objs.len() as int, sep), 0 <= k < objs.len()
    ensures ws[k].v().len() <= ws[k + 1].v().len()
{ assert(one(ws[k], ms[k], ws[k + 1], objs[k].0.cls(), objs[k].1, sep)); }
/// later records leave earlier ones as they are
pub proof fn lemma_later(ws: Seq<WBuffer>, ms: Seq<WBuffer>, objs: Seq<(&dyn FactoryItemWrite, usize)>, k: int, sep: Seq<u8>)
    requires listed(ws, ms, objs, objs.len() as int, sep), 0 <= k <= objs.len()
    ensures ws[k].v().len() <= ws.last().v().len(), forall|i: int| 0 <= i < ws[k].v().len() ==> (#[trigger] ws[k].v()[i]) == ws.last().v()[i], ws[k].offset == ws.last().offset, 0 < k ==> ws[k].wf(), objs.len() > 0 ==> ws.last().wf()
    decreases objs.len() - k
{
    if k > 0 { assert(one(ws[k - 1], ms[k - 1], ws[k - 1 + 1], objs[k - 1].0.cls(), objs[k - 1].1, sep)); }
    if k < objs.len() {
        lemma_later(ws, ms, objs, k + 1, sep);
        assert(one(ws[k], ms[k], ws[k + 1], objs[k].0.cls(), objs[k].1, sep));
        assert(starts_with(ms[k].v(), ws[k].v()));
        assert forall|i: int| 0 <= i < ws[k].v().len() implies (#[trigger] ws[k].v()[i]) == ws.last().v()[i] by {
            assert(ms[k].v().subrange(0, ws[k].v().len() as int)[i] == ms[k].v()[i]);
            assert(ws[k + 1].v()[i] == ms[k].v()[i]);
        }
    }
}
} // mod rcont
// ------------------------------------------------------------------ baskets, branches and the tree writer
pub mod tree {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use super::base::*;
use super::rbytes::*;
use super::root::traits;
use super::root::traits::{Object as _, Named as _, str_size};
use super::rvers;
use super::rbase;
use super::rtree::*;
use super::rbase::*;
use super::riofs;
use super::riofs::*;
use super::riofs::{Result, Error};
use super::io::*;
// derive(Default)
impl Default for TioFeatures { #[verifier::external_body] fn default() -> (r: Self) ensures r.0 == 0 { unimplemented!() } }
//@struct oxyroot/src/rtree/basket.rs Basket
//@enum oxyroot/src/rtree/basket.rs BasketData
//@impl oxyroot/src/rtree/basket.rs | Default for Basket
//@fn default
ensures ret.nev_buf == 0, ret.last == 0, ret.nev_size == 0, ret.buf_size == 0, ret.offsets@.len() == 0, ret.rvers == rvers::BASKET, ret.iobits.0 == 0
//@end
//@endimpl
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t=Basket n=@oxyroot/src/rtree/basket.rs:factory_fn_register_impl:Basket:1
//@impl @ | $crate::root::traits::Object for Basket => impl traits::Object for Basket
open spec fn class_of(&self) -> Seq<char> { "TBasket"@ }
//@fn class
//@end
//@endimpl
//@endmacro
//@struct oxyroot/src/rtree/branch/tbranch_props.rs TBranchProps
//@struct oxyroot/src/rtree/branch/tbranch.rs TBranch
//@struct oxyroot/src/rtree/branch/tbranch_element.rs TBranchElement
//@enum oxyroot/src/rtree/branch/mod.rs Branch
/// the number of bytes before the i-th piece
pub open spec fn joined(p: Seq<Seq<u8>>) -> Seq<u8> decreases p.len() { if p.len() == 0 { Seq::empty() } else { joined(p.drop_last()) + p.last() } }
pub open spec fn start_of(p: Seq<Seq<u8>>, i: int) -> int { joined(p.subrange(0, i)).len() as int }
pub proof fn lemma_push(p: Seq<Seq<u8>>, x: Seq<u8>)
    ensures joined(p.push(x)) == joined(p) + x, start_of(p.push(x), p.len() as int) == joined(p).len(),
        forall|i: int| 0 <= i <= p.len() ==> #[trigger] start_of(p.push(x), i) == start_of(p, i)
{
    assert(p.push(x).drop_last() =~= p);
    assert forall|i: int| 0 <= i <= p.len() implies #[trigger] start_of(p.push(x), i) == start_of(p, i) by { assert(p.push(x).subrange(0, i) =~= p.subrange(0, i)); }
    assert(p.subrange(0, p.len() as int) =~= p);
}
/// the offset table names where each entry starts, counted from the beginning of the record
pub open spec fn names_starts(t: Seq<i32>, klen: int, p: Seq<Seq<u8>>) -> bool {
    p.len() <= t.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] t[i] == klen + start_of(p, i)
}
// ---- trees and branches being written
/// what a branch is filled from: yields the items of rest(), then nothing
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { x: core::marker::PhantomData<T> }
impl<T> VxIter<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().subrange(1, old(self).rest().len() as int)
    { unimplemented!() }
}
/// Box<dyn Marshaler>: something that can be written
#[verifier::external_body]
pub struct VxItem { x: u8 }
impl Marshaler for VxItem {
    uninterp spec fn enc(&self) -> Seq<u8>;
    uninterp spec fn encodable(&self) -> bool;
    #[verifier::external_body]
    fn marshal(&self, w: &mut WBuffer) -> (r: super::rbytes::Result<i64>) { unimplemented!() }
}
/// Box<dyn FnMut(StateCallBack)>: does not touch the tree or the file
#[verifier::external_body]
pub struct VxCallback { x: u8 }
impl VxCallback { #[verifier::external_body] pub fn vx_call(&mut self, s: StateCallBack) { unimplemented!() } }
#[verifier::reject_recursive_types(T)]
//@struct oxyroot/src/rtree/branch/wbranch.rs WBranch Box<dyn Iterator<Item = T>> => VxIter<T>
//@struct oxyroot/src/rtree/tree/base.rs Clusters
//@struct oxyroot/src/rtree/tree/base.rs Tree
//@enum oxyroot/src/rtree/tree/writer.rs StateCallBack
//@struct oxyroot/src/rtree/tree/writer.rs WriterTree Box<dyn Marshaler> => VxItem ;; Box<dyn FnMut\(StateCallBack\)> => VxCallback
/// the i-th number of a table
pub open spec fn number(s: Seq<u8>, i: int) -> i32 { w32(chunk(s, 4, i)) as i32 }
impl Basket {
    pub open spec fn mid(&self) -> int { self.last - self.key.key_len }
    /// the bytes of a basket: its entries, and then nothing or a table: a count, where each entry starts, and one number more
    pub open spec fn holds(&self, d: Seq<u8>) -> bool {
        &&& 0 <= self.mid() <= d.len() && 0 <= self.last && 0 <= self.key.key_len
        &&& self.mid() < d.len() ==> (d.len() - self.mid()) % 4 == 0 && d.len() - self.mid() >= 8
        &&& forall|i: int| 0 <= i < (d.len() - self.mid()) / 4 ==> #[trigger] number(from_at(d, self.mid()), i) - self.key.key_len >= i32::MIN
    }
    /// what the readers of branches are given: the entries, and where each starts in them and the last ends
    pub open spec fn raw(&self, d: Seq<u8>, r: BasketData) -> bool {
        if self.mid() == d.len() { r is TrustNEntries && r->TrustNEntries_0.0 == self.nev_buf && r->TrustNEntries_0.1@ == d } else {
            let x = r->UnTrustNEntries_0; let t = from_at(d, self.mid()); let n = t.len() / 4 - 1;
            &&& r is UnTrustNEntries && x.0 == self.nev_buf && x.1@ == d.subrange(0, self.mid()) && x.2@.len() == n && x.2@[n - 1] == self.mid()
            &&& forall|i: int| 0 <= i < n - 1 ==> #[trigger] x.2@[i] == number(t, i + 1) - self.key.key_len
        }
    }
    /// the table, when there is one, has room for the next entry
    pub open spec fn table_ok(&self) -> bool { self.offsets@.len() > 0 ==> 0 < self.nev_size < 0x2000_0000 && self.nev_buf < self.nev_size && self.offsets@.len() == self.nev_size }
    pub open spec fn ok(&self) -> bool {
        &&& 0 <= self.nev_buf < 0x1000_0000 && self.table_ok()
        &&& sized(self.key) && self.key.encodable() && 0 < self.key.key_len <= i16::MAX && self.key.class@ == "TBasket"@
        &&& names_ok("TBasket"@, self.key.name@, self.key.title@)
        &&& self.key.key_len == key_size("TBasket"@, self.key.name@, self.key.title@, self.key.wide()) + 19
        &&& self.key.rvers == rvers::KEY || self.key.rvers == rvers::KEY + 1000
        &&& self.iobits.0 == 0
        &&& forall|i: int| 0 <= i < self.offsets@.len() ==> 0 <= #[trigger] self.offsets@[i] < 0x4100_0000
    }
}
//@struct oxyroot/src/rtree/wbasket.rs BasketBytesWritten
//@struct oxyroot/src/rtree/wbasket.rs WBasket
impl WBasket {
    pub open spec fn ok(&self) -> bool { self.basket.ok() && self.wbuf.wf() && self.wbuf.offset == 0 && self.wbuf.v().len() < 0x4000_0000 }
    /// the basket holds exactly the entries whose bytes are p, in that order
    pub open spec fn holds(&self, p: Seq<Seq<u8>>) -> bool {
        &&& self.wbuf.v() == joined(p) && self.basket.nev_buf == p.len()
        &&& self.basket.offsets@.len() > 0 ==> names_starts(self.basket.offsets@, self.basket.key.key_len as int, p)
    }
}
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t=TBranch n=@oxyroot/src/rtree/branch/tbranch.rs:factory_fn_register_impl:TBranch:1
//@impl @ | $crate::root::traits::Object for TBranch => impl traits::Object for TBranch
open spec fn class_of(&self) -> Seq<char> { "TBranch"@ }
//@fn class
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t=TBranchElement n=@oxyroot/src/rtree/branch/tbranch_element.rs:factory_fn_register_impl:TBranchElement:1
//@impl @ | $crate::root::traits::Object for TBranchElement => impl traits::Object for TBranchElement
open spec fn class_of(&self) -> Seq<char> { "TBranchElement"@ }
//@fn class
//@end
//@endimpl
//@endmacro
//@impl oxyroot/src/rtree/tree/writer.rs | Object for WriterTree => impl traits::Object for WriterTree
open spec fn class_of(&self) -> Seq<char> { "TTree"@ }
//@fn class
//@end
//@endimpl
//@impl oxyroot/src/rtree/branch/tbranch.rs | Named for TBranch => impl traits::Named for TBranch
open spec fn name_of(&self) -> Seq<char> { self.named.name@ }
uninterp spec fn title_of(&self) -> Seq<char>;
/// not overridden: the default body panics
#[verifier::external_body]
fn title(&self) -> (ret: &str) { unimplemented!() }
//@fn name
//@rewrite self\.named\.name\(\) => let t = self.named.name(); assert(t@ == self.named.name_of()); t
//@end
//@endimpl
pub trait BranchView<'a>: Sized { spec fn shows(self, l: &'a Branch) -> bool; fn from(l: &'a Branch) -> (ret: Self) ensures ret.shows(l); }
//@impl oxyroot/src/rtree/branch/tbranch.rs | From<&'aBranch> for &'aTBranch => impl<'a> BranchView<'a> for &'a TBranch
open spec fn shows(self, l: &'a Branch) -> bool { *self == l.tb() }
//@fn from
//@end
//@endimpl
impl Branch {
    pub open spec fn tb(&self) -> TBranch { match self { Branch::Base(b) => *b, Branch::Element(e) => e.branch } }
    /// the same branch around another TBranch
    pub open spec fn with(&self, t: TBranch) -> Branch { match self { Branch::Base(b) => Branch::Base(t), Branch::Element(e) => Branch::Element(TBranchElement { branch: t, ..*e }) } }
}
//@impl oxyroot/src/rtree/branch/tbranch.rs | TBranch
//@fn entries
ensures ret == self.entries
//@end
//@endimpl
//@impl oxyroot/src/rtree/branch/mod.rs | Branch
//@fn tbranch_mut
ensures *ret == old(self).tb(), *final(self) == old(self).with(*final(ret))
//@end
//@fn tbranch
ensures *ret == self.tb()
//@end
//@fn name
//@rewrite self\.into\(\) => <&TBranch as BranchView>::from(self)
ensures ret@ == self.tb().named.name@
//@end
//@fn entries
//@rewrite self\.into\(\) => <&TBranch as BranchView>::from(self)
ensures ret == self.tb().entries
//@end
//@endimpl
//@impl oxyroot/src/rtree/tree/writer.rs | Named for WriterTree => impl traits::Named for WriterTree
open spec fn name_of(&self) -> Seq<char> { self.tree.named.name@ }
open spec fn title_of(&self) -> Seq<char> { self.tree.named.title@ }
//@fn name
//@rewrite self\.tree\.named\.name\(\) => let t = self.tree.named.name(); assert(t@ == self.tree.named.name_of()); t
//@end
//@fn title
//@rewrite self\.tree\.named\.title\(\) => let t = self.tree.named.title(); assert(t@ == self.tree.named.title_of()); t
//@end
//@endimpl
//@impl oxyroot/src/rtree/basket.rs | Basket
//@fn new_from_branch
requires f.wr(), names_ok("TBasket"@, b.tb().named.name@, tree.tree.named.name@), 0 <= offset_len < 0x2000_0000
ensures ret.ok(), made(ret.key, *f, "TBasket"@, b.tb().named.name@, tree.tree.named.name@, 0), ret.key.cycle == cycle, ret.nev_buf == 0, ret.last == 0,
  ret.nev_size == offset_len, ret.buf_size == buf_size, ret.offsets@ == Seq::new(offset_len as nat, |i: int| 0i32), ret.rvers == rvers::BASKET
//@start
proof { reveal_strlit("TBasket"); }
//@end
//@fn border
requires 0 <= self.last, 0 <= self.key.key_len
ensures ret == self.last - self.key.key_len
//@end
//@fn entry_size
ensures ret == self.nev_size
//@end
//@fn nev_buf
ensures ret == self.nev_buf
//@end
//@fn key
ensures *ret == self.key
//@end
//@fn offsets
ensures *ret == self.offsets
//@end
//@fn set_key
ensures *final(self) == (Basket { key: key, ..*old(self) })
//@end
//@fn uncompressed_bytes
ensures ret == self.key.obj_len
//@end
//@fn is_embedded
ensures ret == (self.key.n_bytes <= self.key.key_len)
//@end
//@fn raw_data
requires old(file).reader is Some, readable(self.key, old(file).content()), forall|d: Seq<u8>| #[trigger] loaded(self.key, old(file).content(), d) ==> self.holds(d)
ensures final(file).content() == old(file).content(), final(file).reader is Some, exists|d: Seq<u8>| #[trigger] loaded(self.key, old(file).content(), d) && self.raw(d, ret)
//@rewrite \.bytes\(file, None\)\.unwrap\(\) => .bytes(file, None).vx_or_stop()
//@rewrite (\w+)\s*\.chunks\(4\) => vx_chunks(\1, 4)
//@rewrite \.map\(\|(\w+)\| ([^;]*?)\)\s*\.skip\(1\) => .vx_map(|\1: &[u8]| -> (y: i32) requires \1@.len() == 4, w32(\1@) as i32 - self.key.key_len >= i32::MIN ensures y == w32(\1@) as i32 - self.key.key_len { \2 }).into_iter().skip(1)
//@rewrite (\w+)\.to_vec\(\) => vx_to_vec(\1)
//@start
broadcast use axiom_vec_len, axiom_slice_len;
//@after \.split_at\([^;]*;
proof {
  assert(byte_offsets@ =~= from_at(ret@, self.mid()));
  assert(byte_offsets@.len() % 4 == 0 && byte_offsets@.len() >= 8); assert((byte_offsets@.len() + 4 - 1) / 4 == byte_offsets@.len() / 4);
  assert forall|i: int| 0 <= i < byte_offsets@.len() / 4 implies (#[trigger] chunk(byte_offsets@, 4, i)).len() == 4 && w32(chunk(byte_offsets@, 4, i)) as i32 - self.key.key_len >= i32::MIN by { assert(number(byte_offsets@, i) - self.key.key_len >= i32::MIN); }
}
//@loop 0 for it
invariant it.seq().len() == byte_offsets@.len() / 4 - 1,
  bb@ =~= it.seq().subrange(0, it.index@ as int),
  forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == number(byte_offsets@, i + 1) - self.key.key_len
//@end
//@endimpl
// ---- a basket read
/// what follows the key of the basket at the start of s
pub open spec fn after_key(s: Seq<u8>) -> Seq<u8> { from_at(s, Key::used(s)) }
pub open spec fn bk_vers(t: Seq<u8>) -> i16 { w16(t) as i16 }
pub open spec fn bk_nev(t: Seq<u8>) -> i32 { w32(from_at(t, 10)) as i32 }
pub open spec fn bk_last(t: Seq<u8>) -> i32 { w32(from_at(t, 14)) as i32 }
pub open spec fn bk_gen(t: Seq<u8>) -> bool { w8(from_at(t, 18)) >= 80 }
pub open spec fn bk_flag(t: Seq<u8>) -> int { if bk_gen(t) { w8(from_at(t, 18)) - 80 } else { w8(from_at(t, 18)) as int } }
/// a table of offsets follows
pub open spec fn bk_tab(t: Seq<u8>) -> bool { !bk_gen(t) && bk_flag(t) != 0 && bk_flag(t) % 10 != 2 && bk_nev(t) > 0 }
pub open spec fn bk_n(t: Seq<u8>) -> i32 { w32(from_at(t, 19)) as i32 }
pub open spec fn bk_mid(t: Seq<u8>) -> int { if bk_tab(t) { 23 + 4 * bk_n(t) } else { 19 } }
/// the entries follow
pub open spec fn bk_has(t: Seq<u8>) -> bool { bk_flag(t) == 1 || bk_flag(t) > 10 }
pub open spec fn bk_at(t: Seq<u8>) -> int { bk_mid(t) + if bk_vers(t) <= 1 { 4int } else { 0 } }
pub open spec fn bk_size(t: Seq<u8>) -> i32 { if bk_vers(t) <= 1 { w32(from_at(t, bk_mid(t))) as i32 } else { bk_last(t) } }
/// the flag is one of those the reader knows
pub open spec fn bk_known(t: Seq<u8>) -> bool {
    &&& !bk_gen(t) && bk_flag(t) != 0 && bk_flag(t) % 10 != 2 ==> bk_flag(t) <= 40 && (bk_nev(t) > 0 ==> !(20 < bk_flag(t) < 40))
    &&& bk_gen(t) ==> bk_flag(t) > 40
}
//@impl oxyroot/src/rtree/basket.rs | Unmarshaler for Basket
open spec fn fits(s: Seq<u8>) -> bool {
    let t = after_key(s);
    &&& Key::fits(s) && t.len() >= 19 && bk_vers(t) <= rvers::BASKET && w32(from_at(t, 6)) as i32 >= 0 && bk_known(t)
    &&& bk_tab(t) ==> t.len() >= 23 && bk_n(t) >= 0 && t.len() >= bk_mid(t)
    &&& bk_has(t) ==> t.len() >= bk_at(t) && bk_size(t) >= 0 && t.len() >= bk_at(t) + bk_size(t)
}
open spec fn used(s: Seq<u8>) -> int { let t = after_key(s); Key::used(s) + if bk_has(t) { bk_at(t) + bk_size(t) } else { bk_mid(t) } }
open spec fn is(&self, s: Seq<u8>) -> bool {
    let t = after_key(s);
    &&& exists|k: Key| #[trigger] k.is(s) && self.key == (Key { buffer: self.key.buffer, obj_len: if bk_has(t) { bk_size(t) } else { k.obj_len }, ..k })
    &&& bk_has(t) ==> self.key.buffer@ == t.subrange(bk_at(t), bk_at(t) + bk_size(t))
    &&& self.nev_buf == bk_nev(t) && self.last == bk_last(t) && self.nev_size == w32(from_at(t, 6)) as i32
    &&& self.buf_size == if bk_last(t) > w32(from_at(t, 2)) as i32 { bk_last(t) } else { w32(from_at(t, 2)) as i32 }
    &&& self.offsets@.len() == if bk_tab(t) { bk_n(t) as int } else { 0 }
    &&& bk_tab(t) ==> forall|i: int| 0 <= i < bk_n(t) ==> #[trigger] self.offsets@[i] == w32(from_at(t, 23 + 4 * i)) as i32
}
open spec fn fresh(&self) -> bool { self.offsets@.len() == 0 }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
open spec fn rejects(s: Seq<u8>) -> bool { Key::fits(s) && after_key(s).len() >= 2 && bk_vers(after_key(s)) > rvers::BASKET }
proof fn lemma_used(s: Seq<u8>) { if Key::fits(s) { Key::lemma_used(s); } }
//@fn unmarshal
//@attr #[verifier::spinoff_prover]
//@start
broadcast use group_rd;
let ghost s = r.rest(); let ghost t = after_key(s); let ghost r0 = *r;
proof { rd_start(*r); assert(from_at(s, 0) =~= s); if Key::fits(s) { Key::lemma_used(s); } }
//@rewrite (\w+)\.to_vec\(\) => vx_to_vec(\1)
//@rewrite Error::WrongClass => super::rbytes::Error::WrongClass
//@loop 0 for it
invariant it.seq().len() == n, n == bk_n(t), n >= 0, t.len() >= bk_mid(t), bk_tab(t), t == after_key(s), took(r0, *r, Key::used(s) + 23 + 4 * it.index@), quiet(r0, *r), r0.wf(), r0.rest() == s,
  s == r0.rest(), 0 <= Key::used(s) <= s.len(),
  self.key == vx_k, self.nev_buf == bk_nev(t), self.last == bk_last(t), self.nev_size == w32(from_at(t, 6)) as i32, self.buf_size == (if bk_last(t) > w32(from_at(t, 2)) as i32 { bk_last(t) } else { w32(from_at(t, 2)) as i32 }),
  self.offsets@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> #[trigger] self.offsets@[i] == w32(from_at(t, 23 + 4 * i)) as i32
//@beforeloop 0
let ghost vx_k = self.key;
//@loopstart 0
assert(r.rest() == from_at(t, 23 + 4 * it.index@));
//@after r\.read_object\(&mut self\.key\)\?;
let ghost k0 = self.key;
proof { if Key::fits(s) { assert(k0.is(s)); assert(r.rest() == t); } }
//@before Ok\(\(\)\)\s*\}\s*$
proof {
  if Self::fits(s) {
    assert(k0.is(s));
    assert(self.key == (Key { buffer: self.key.buffer, obj_len: if bk_has(t) { bk_size(t) } else { k0.obj_len }, ..k0 }));
    assert(took(r0, *r, Self::used(s)));
    assert(bk_has(t) ==> self.key.buffer@ =~= t.subrange(bk_at(t), bk_at(t) + bk_size(t)));
    assert(self.nev_buf == bk_nev(t) && self.last == bk_last(t) && self.nev_size == w32(from_at(t, 6)) as i32);
    assert(self.buf_size == if bk_last(t) > w32(from_at(t, 2)) as i32 { bk_last(t) } else { w32(from_at(t, 2)) as i32 });
    assert(self.offsets@.len() == if bk_tab(t) { bk_n(t) as int } else { 0 });
    assert(bk_tab(t) ==> forall|i: int| 0 <= i < bk_n(t) ==> #[trigger] self.offsets@[i] == w32(from_at(t, 23 + 4 * i)) as i32);
    assert(self.is(s));
  }
}
//@end
//@endimpl
/// the 19 bytes after the key
pub open spec fn basket_head(b: Basket) -> Seq<u8> { be16(b.rvers as u16) + be32(b.buf_size as u32) + be32(b.nev_size as u32) + be32(b.nev_buf as u32) + be32(b.last as u32) + be8(0) }
//@impl oxyroot/src/rtree/wbasket.rs | Marshaler for WBasket
open spec fn enc(&self) -> Seq<u8> { self.basket.key.enc() + basket_head(self.basket) }
open spec fn encodable(&self) -> bool { self.basket.key.encodable() && self.basket.iobits.0 == 0 }
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc;
proof { acc_start(*w); }
//@end
//@endimpl
//@impl oxyroot/src/rtree/wbasket.rs | WBasket
//@fn new
ensures ret.basket == b, ret.wbuf.wf(), ret.wbuf.v().len() == 0, ret.wbuf.offset == 0
//@end
//@fn update
requires old(self).ok(), old(self).basket.nev_buf < 0x0fff_ffff, offset == old(self).wbuf.v().len()
ensures ret is Ok, final(self).ok(), final(self).wbuf == old(self).wbuf,
  final(self).basket == (Basket { nev_buf: (old(self).basket.nev_buf + 1) as i32, nev_size: final(self).basket.nev_size, offsets: final(self).basket.offsets, ..old(self).basket }),
  old(self).basket.offsets@.len() == 0 ==> final(self).basket.offsets@.len() == 0 && final(self).basket.nev_size == old(self).basket.nev_size,
  old(self).basket.offsets@.len() > 0 ==> final(self).basket.offsets@.len() > old(self).basket.nev_buf && final(self).basket.offsets@[old(self).basket.nev_buf as int] == old(self).basket.key.key_len + offset
    && forall|i: int| 0 <= i < old(self).basket.nev_buf ==> #[trigger] final(self).basket.offsets@[i] == old(self).basket.offsets@[i]
//@loop 0 for it
invariant delta >= 0, forall|i: int| 0 <= i < b.offsets@.len() ==> 0 <= #[trigger] b.offsets@[i] < 0x4100_0000, b.offsets@.len() == old(self).basket.offsets@.len() + it.index@, forall|i: int| 0 <= i < old(self).basket.offsets@.len() ==> b.offsets@[i] == old(self).basket.offsets@[i]
//@end
//@endimpl
/// the offset table behind the data: how many, the starts, and a zero
pub open spec fn table(t: Seq<i32>, n: int) -> Seq<u8> { be32((n + 1) as u32) + enc_i32s(t.subrange(0, n)) + be32(0) }
/// what is stored for the basket: the data, and the offset table if it has one
pub open spec fn payload(data: Seq<u8>, t: Seq<i32>, n: int) -> Seq<u8> { if t.len() > 0 { data + table(t, n) } else { data } }
pub open spec fn shifted(t: Seq<i32>, d: int) -> Seq<i32> { Seq::new(t.len(), |i: int| (t[i] + d) as i32) }
/// the file grew past 2 GB since the basket was opened: its key got 8 bytes longer
pub open spec fn growth(b: Basket, f: RootFile) -> int { if !b.key.wide() && f.big() { 8 } else { 0 } }
/// the basket b0 went to the end of the file f as b
pub open spec fn stored(b0: WBasket, f: RootFile, b: Basket, g: RootFile) -> bool {
    let d = growth(b0.basket, f); let k = b.key;
    &&& k.buffer@ == payload(b0.wbuf.v(), b.offsets@, b.nev_buf as int) && b.offsets@ =~= shifted(b0.basket.offsets@, d)
    &&& made(k, f, "TBasket"@, b0.basket.key.name@, b0.basket.key.title@, k.buffer@.len() as int) && k.encodable() && sized(k)
    &&& k.cycle == b0.basket.key.cycle && k.seek_key == f.header.end && k.n_bytes == k.key_len + k.buffer@.len()
    &&& b == (Basket { key: k, last: (k.key_len + b0.wbuf.v().len()) as i32, offsets: b.offsets, ..b0.basket })
    &&& g.wr() && moved_only(f, g, f.header.end + k.n_bytes)
    &&& g.content() == laid(laid(f.content(), k.seek_key as int, k.enc() + basket_head(b)), k.seek_key + k.key_len, k.buffer@)
}
pub proof fn lemma_i32s_len(v: Seq<i32>) ensures enc_i32s(v).len() == 4 * v.len() decreases v.len() { if v.len() > 0 { lemma_i32s_len(v.drop_last()); } }
//@impl oxyroot/src/rtree/wbasket.rs | WBasket
//@fn write_to_file
//@attr #[verifier::spinoff_prover]
requires old(self).ok(), old(file).wr(), old(file).header.end <= 0x0400_0000_0000_0000, old(self).basket.key.wide() ==> old(file).big(),
  old(self).wbuf.v().len() + 4 * old(self).basket.nev_buf < 0x6000_0000
ensures ret is Ok ==> stored(*old(self), *old(file), final(self).basket, *final(file)) && final(self).wbuf.wf() && final(self).wbuf.v().len() == 0 && final(self).wbuf.offset == 0
    && ret->Ok_0.tot_bytes == final(self).basket.key.n_bytes && ret->Ok_0.zip_bytes == final(self).basket.key.n_bytes
//@start
broadcast use axiom_vec_len, group_acc;
proof { acc_start(self.wbuf); reveal_strlit("TBasket"); lemma_i32s_len(self.basket.offsets@.subrange(0, self.basket.nev_buf as int)); }
//@before let key = self\.basket\.key\(\);
let ghost t = shifted(old(self).basket.offsets@, growth(old(self).basket, *file));
let ghost pay = payload(old(self).wbuf.v(), t, old(self).basket.nev_buf as int);
proof {
  assert(self.basket.offsets@ =~= t);
  lemma_i32s_len(t.subrange(0, self.basket.nev_buf as int));
  assert(self.wbuf.v() =~= pay);
}
//@after WBuffer::new\([^;]*;
let ghost bb = self.basket;
proof { acc_start(buf); }
//@after self\.marshal\([^;]*;
proof { assert(buf.v() =~= bb.key.enc() + basket_head(bb)); }
//@before let ret = BasketBytesWritten
proof { assert(stored(*old(self), *old(file), self.basket, *file)); }
//@loop 0 for it
invariant it.seq().len() == old(self).basket.offsets@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == old(self).basket.offsets@[i],
  forall|i: int| 0 <= i < it.seq().len() ==> 0 <= #[trigger] old(self).basket.offsets@[i] < 0x4100_0000,
  forall|i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == old(self).basket.offsets@[i] + 8
//@end
//@endimpl
/// how a leaf writes a value
pub open spec fn cell<T: Marshaler>(element: bool, x: T) -> Seq<u8> { if element { framed(head(rvers::STREAMER_INFO) + x.enc()) } else { x.enc() } }
pub open spec fn item_ok<T: Marshaler>(x: T) -> bool { x.encodable() && 1 <= x.enc().len() < 0x1000_0000 }
/// bytes that the values still to come will take
pub open spec fn weight<T: Marshaler>(element: bool, r: Seq<T>) -> int decreases r.len() { if r.len() == 0 { 0 } else { cell(element, r[0]).len() + weight(element, r.subrange(1, r.len() as int)) } }
pub proof fn lemma_weight<T: Marshaler>(e: bool, r: Seq<T>) ensures weight(e, r) >= 0 decreases r.len() { if r.len() > 0 { lemma_weight(e, r.subrange(1, r.len() as int)); } }
/// baskets already closed, each at least half full, and bytes still to come: fewer than 32000 baskets in all
pub open spec fn budget(t: TBranch, bytes: int) -> bool { t.write_basket * t.basket_size + 2 * bytes < 32000 * t.basket_size }
pub proof fn lemma_budget(t: TBranch, bytes: int)
    requires budget(t, bytes), bytes >= 0, t.basket_size > 0
    ensures t.write_basket < 32000
{ let (a, b) = (t.write_basket as int, t.basket_size as int); assert(a * b < 32000 * b); assert(a < 32000) by (nonlinear_arith) requires a * b < 32000 * b, b > 0; }
pub proof fn lemma_budget_same(t: TBranch, u: TBranch, n: int)
    requires budget(t, n), u.write_basket == t.write_basket, u.basket_size == t.basket_size
    ensures budget(u, n)
{ }
pub proof fn lemma_budget_flushed(t: TBranch, u: TBranch, n: int, rest: int)
    requires budget(t, n + rest), 2 * n >= t.basket_size, u.write_basket == t.write_basket + 1, u.basket_size == t.basket_size
    ensures budget(u, rest)
{ let (a, b) = (t.write_basket as int, t.basket_size as int); assert((a + 1) * b == a * b + b) by (nonlinear_arith); }
impl<T: Marshaler> WBranch<T> {
    pub open spec fn tb(&self) -> TBranch { self.branch.tb() }
    pub open spec fn leaf(&self) -> Leaf { self.tb().leaves@[0] }
    pub open spec fn named_ok(&self, t: WriterTree) -> bool { names_ok("TBasket"@, self.tb().named.name@, t.tree.named.name@) }
    pub open spec fn pending(&self) -> int { if self.basket is Some { self.basket->0.wbuf.v().len() as int } else { 0 } }
    /// the branch and its open basket are in a state from which they can be filled; the cycle of a basket is a 16-bit number, so a branch holds up to 32000 baskets
    pub open spec fn ready(&self, t: WriterTree, f: RootFile) -> bool {
        let b = self.tb();
        &&& T::lead() == 0 && self.named_ok(t)
        &&& b.leaves@.len() == 1 && !(b.leaves@[0] is Base)
        &&& 0 <= b.entry_offset_len < 0x2000_0000 && 0 < b.basket_size < 0x0800_0000
        &&& 0 <= b.write_basket && budget(b, self.pending() + weight(self.leaf() is Element, self.iterator.rest()))
        &&& 0 <= b.entries && b.entries + self.iterator.rest().len() < 0x1000_0000_0000_0000 && 0 <= b.entry_number && b.entry_number + self.iterator.rest().len() < 0x1000_0000_0000_0000
        &&& 0 <= b.tot_bytes <= 0x8000_0000 * b.write_basket && 0 <= b.zip_bytes <= 0x8000_0000 * b.write_basket
        &&& forall|i: int| 0 <= i < self.iterator.rest().len() ==> item_ok(#[trigger] self.iterator.rest()[i])
        &&& self.basket is Some ==> self.open_ok(f)
    }
    pub open spec fn open_ok(&self, f: RootFile) -> bool {
        let w = self.basket->0;
        &&& w.ok() && w.basket.nev_buf <= w.wbuf.v().len() < self.tb().basket_size
        &&& w.basket.key.wide() ==> f.big()
    }
    /// the entries of the branch so far are items: those of full baskets are in the file, the rest is in the open basket
    pub open spec fn wrote(&self, f: RootFile, items: Seq<Seq<u8>>) -> bool {
        account(self.tb(), self.basket, f, items)
    }
}
pub open spec fn open_from(t: TBranch) -> int { t.basket_entry@[t.write_basket as int] as int }
pub open spec fn account(t: TBranch, w: Option<WBasket>, f: RootFile, items: Seq<Seq<u8>>) -> bool {
    let a = open_from(t);
    &&& filed(t, f.content(), f.header.end as int, items) && t.entries == items.len()
    &&& if w is Some { w->0.holds(items.subrange(a, items.len() as int)) } else { a == items.len() }
}
impl<T: Marshaler> WBranch<T> {
    /// one turn of the branch: its next value, if there is one, becomes its next entry
    pub open spec fn turned(&self, b: Self, t: WriterTree, f: RootFile, g: RootFile, ret: Option<i32>) -> bool {
        let r = self.iterator.rest(); let e = self.leaf() is Element;
        &&& b.ready(t, g) && b.basket is Some && added(f, g)
        &&& (b.leaf() is Element) == e && b.tb().named == self.tb().named
        &&& g.header.end <= f.header.end + 0x8000_0000 * (b.tb().write_basket - self.tb().write_basket)
        &&& r.len() == 0 ==> ret is None && b.iterator.rest() == r && b.tb().entries == self.tb().entries && g == f
            && forall|items: Seq<Seq<u8>>| #[trigger] self.wrote(f, items) ==> b.wrote(g, items)
        &&& r.len() > 0 ==> {
            &&& ret == Some(cell(e, r[0]).len() as i32) && b.iterator.rest() == r.subrange(1, r.len() as int) && b.tb().entries == self.tb().entries + 1
            &&& forall|items: Seq<Seq<u8>>| #[trigger] self.wrote(f, items) ==> b.wrote(g, items.push(cell(e, r[0])))
        }
    }
}
/// a basket as it is stored for the entries p
pub open spec fn basket_for(b: Basket, p: Seq<Seq<u8>>) -> bool {
    &&& b.nev_buf == p.len() && b.last == b.key.key_len + joined(p).len() && sized(b.key) && b.key.class@ == "TBasket"@ && b.key.encodable()
    &&& b.offsets@.len() > 0 ==> names_starts(b.offsets@, b.key.key_len as int, p)
    &&& b.key.n_bytes == b.key.key_len + b.key.obj_len && b.key.obj_len == payload(joined(p), b.offsets@, p.len() as int).len()
}
/// the n bytes of s from a on are the record of a basket that holds the entries p
pub open spec fn basket_at(s: Seq<u8>, a: int, n: int, p: Seq<Seq<u8>>) -> bool {
    exists|b: Basket| #[trigger] basket_for(b, p) && b.key.seek_key == a && b.key.n_bytes == n && 0 <= a && a + n <= s.len()
        && s.subrange(a, a + n) == b.key.enc() + basket_head(b) + payload(joined(p), b.offsets@, p.len() as int)
}
// ---- what is written comes back
pub proof fn lemma_i32_at(v: Seq<i32>, i: int)
    requires 0 <= i < v.len()
    ensures enc_i32s(v).len() == 4 * v.len(), enc_i32s(v).subrange(4 * i, 4 * i + 4) == be32(v[i] as u32)
    decreases v.len()
{
    lemma_i32s_len(v); lemma_i32s_len(v.drop_last());
    let e = enc_i32s(v.drop_last());
    if i < v.len() - 1 { lemma_i32_at(v.drop_last(), i); assert(enc_i32s(v).subrange(4 * i, 4 * i + 4) =~= e.subrange(4 * i, 4 * i + 4)); }
    else { assert(enc_i32s(v).subrange(4 * i, 4 * i + 4) =~= be32(v[i] as u32)); }
}
/// the numbers of an offset table
pub proof fn lemma_table(t: Seq<i32>, n: int)
    requires 0 <= n <= t.len(), n < 0x1000_0000
    ensures table(t, n).len() == 4 * n + 8, number(table(t, n), 0) == n + 1, number(table(t, n), n + 1) == 0, forall|i: int| 0 <= i < n ==> #[trigger] number(table(t, n), i + 1) == t[i]
{
    broadcast use group_words, lemma_starts_refl;
    let q = t.subrange(0, n); lemma_i32s_len(q); let e = enc_i32s(q); let w = table(t, n);
    signed_words();
    assert(chunk(w, 4, 0) =~= be32((n + 1) as u32)); assert(starts_with(chunk(w, 4, 0), be32((n + 1) as u32)));
    let m = (n + 1) as u32; assert(m < 0x2000_0000u32); assert((m as i32) as int == m as int);
    assert(chunk(w, 4, n + 1) =~= be32(0)); assert(starts_with(chunk(w, 4, n + 1), be32(0)));
    assert forall|i: int| 0 <= i < n implies #[trigger] number(w, i + 1) == t[i] by {
        lemma_i32_at(q, i); let b = be32(t[i] as u32);
        assert(chunk(w, 4, i + 1) =~= e.subrange(4 * i, 4 * i + 4)); assert(starts_with(b, b)) by { assert(b.subrange(0, b.len() as int) =~= b); }
        assert(w32(b) == t[i] as u32);
    }
}
/// the entries, and where each of them is
pub open spec fn gives(x: BasketData, p: Seq<Seq<u8>>) -> bool {
    match x {
        BasketData::TrustNEntries(y) => y.0 == p.len() && y.1@ == joined(p),
        BasketData::UnTrustNEntries(y) => y.0 == p.len() && y.1@ == joined(p) && y.2@.len() == p.len() + 1 && (forall|i: int| 0 <= i <= p.len() ==> #[trigger] y.2@[i] == start_of(p, i)),
    }
}
/// the basket of a record is read with what was written about it
pub proof fn lemma_head_back(b: Basket, p: Seq<Seq<u8>>, rec: Seq<u8>)
    requires basket_for(b, p), b.key.fits_format(), b.rvers <= rvers::BASKET, 0 <= b.nev_size, starts_with(rec, b.key.enc() + basket_head(b))
    ensures Basket::fits(rec), Basket::used(rec) == b.key.enc().len() + 19,
        forall|r: Basket| #[trigger] r.is(rec) ==> r.nev_buf == p.len() && r.last == b.last && r.nev_size == b.nev_size && r.offsets@.len() == 0
            && r.key.n_bytes == b.key.n_bytes && r.key.key_len == b.key.key_len && r.key.obj_len == b.key.obj_len && r.key.seek_key == b.key.seek_key && r.key.cycle == b.key.cycle
            && r.key.name@ == b.key.name@ && r.key.title@ == b.key.title@
{
    broadcast use group_words, lemma_from_at;
    lemma_starts_concat(rec, b.key.enc(), basket_head(b));
    b.key.round_trip(rec);
    let t = after_key(rec);
    let h1 = be16(b.rvers as u16); let h2 = h1 + be32(b.buf_size as u32); let h3 = h2 + be32(b.nev_size as u32); let h4 = h3 + be32(b.nev_buf as u32); let h5 = h4 + be32(b.last as u32);
    lemma_starts_concat(t, h5, be8(0)); lemma_starts_concat(t, h4, be32(b.last as u32)); lemma_starts_concat(t, h3, be32(b.nev_buf as u32)); lemma_starts_concat(t, h2, be32(b.nev_size as u32)); lemma_starts_concat(t, h1, be32(b.buf_size as u32));
    signed_words();
    assert(w8(from_at(t, 18)) == 0);
    assert(bk_vers(t) == b.rvers && bk_nev(t) == b.nev_buf && bk_last(t) == b.last && w32(from_at(t, 6)) as i32 == b.nev_size);
    assert(!bk_has(t) && !bk_tab(t));
    assert forall|r: Basket| #[trigger] r.is(rec) implies r.key.n_bytes == b.key.n_bytes && r.key.key_len == b.key.key_len && r.key.obj_len == b.key.obj_len && r.key.seek_key == b.key.seek_key && r.key.cycle == b.key.cycle
        && r.key.name@ == b.key.name@ && r.key.title@ == b.key.title@ by {
        let k = choose|k: Key| #[trigger] k.is(rec) && r.key == (Key { buffer: r.key.buffer, obj_len: k.obj_len, ..k });
        assert(b.key.same(&k));
    }
}
/// the payload of a record just read is the payload written
pub proof fn lemma_load_back(k: Key, h: Seq<u8>, pay: Seq<u8>, s: Seq<u8>, d: Seq<u8>)
    requires h.len() == k.key_len, k.n_bytes == k.key_len + k.obj_len, pay.len() == k.obj_len, 0 <= k.seek_key < 0x4000_0000_0000_0000, k.seek_key + k.n_bytes <= s.len(),
        s.subrange(k.seek_key as int, k.seek_key + k.n_bytes) == h + pay
    ensures riofs::readable(k, s), riofs::loaded(k, s, d) ==> d == pay
{
    let rec = s.subrange(k.seek_key as int, k.seek_key + k.n_bytes);
    assert(riofs::stored(k, s) =~= pay) by {
        assert forall|i: int| 0 <= i < pay.len() implies s[k.seek_key + k.key_len + i] == pay[i] by { assert(rec[k.key_len + i] == (h + pay)[k.key_len + i]); }
    }
}
/// the payload taken apart is what it was put together from
pub proof fn lemma_raw_back(r: Basket, t: Seq<i32>, p: Seq<Seq<u8>>, x: BasketData)
    requires r.nev_buf == p.len(), p.len() < 0x1000_0000, r.last == r.key.key_len + joined(p).len(), 0 <= r.key.key_len <= i16::MAX, t.len() > 0 ==> names_starts(t, r.key.key_len as int, p), payload(joined(p), t, p.len() as int).len() <= i32::MAX
    ensures r.holds(payload(joined(p), t, p.len() as int)), r.raw(payload(joined(p), t, p.len() as int), x) ==> gives(x, p)
{
    let n = p.len() as int; let data = joined(p); let d = payload(data, t, n);
    if t.len() > 0 {
        lemma_table(t, n);
        let w = table(t, n);
        assert(from_at(d, r.mid()) =~= w);
        assert forall|i: int| 0 <= i < (d.len() - r.mid()) / 4 implies #[trigger] number(from_at(d, r.mid()), i) - r.key.key_len >= i32::MIN by {
            if 0 < i <= n { assert(number(w, (i - 1) + 1) == t[i - 1]); assert(t[i - 1] == r.key.key_len + start_of(p, i - 1)); }
        }
        if r.raw(d, x) {
            let o = x->UnTrustNEntries_0.2@;
            assert(d.subrange(0, r.mid()) =~= data);
            assert forall|i: int| 0 <= i <= n implies #[trigger] o[i] == start_of(p, i) by {
                if i < n { assert(o[i] == number(w, i + 1) - r.key.key_len); assert(t[i] == r.key.key_len + start_of(p, i)); }
                else { assert(p.subrange(0, n) =~= p); }
            }
        }
    }
}
/// a basket stored for entries gives these entries back: the record is read, its payload loaded, its table followed
#[verifier::spinoff_prover]
pub proof fn lemma_basket_back(b: Basket, p: Seq<Seq<u8>>, s: Seq<u8>, a: int, r: Basket, d: Seq<u8>, x: BasketData)
    requires basket_for(b, p), b.key.fits_format(), b.rvers <= rvers::BASKET, 0 <= b.nev_size, b.key.seek_key == a, 0 <= a < 0x4000_0000_0000_0000, a + b.key.n_bytes <= s.len(), p.len() < 0x1000_0000, 0 <= b.key.key_len,
        s.subrange(a, a + b.key.n_bytes) == b.key.enc() + basket_head(b) + payload(joined(p), b.offsets@, p.len() as int)
    ensures Basket::fits(s.subrange(a, a + b.key.n_bytes)),
        r.is(s.subrange(a, a + b.key.n_bytes)) ==> riofs::readable(r.key, s) && (riofs::loaded(r.key, s, d) ==> r.holds(d) && (r.raw(d, x) ==> gives(x, p)))
{
    hide(Basket::holds); hide(Basket::raw); hide(riofs::readable); hide(riofs::loaded); hide(payload); hide(names_starts); hide(gives);
    let rec = s.subrange(a, a + b.key.n_bytes); let h = b.key.enc() + basket_head(b); let pay = payload(joined(p), b.offsets@, p.len() as int);
    assert(rec.subrange(0, h.len() as int) =~= h);
    lemma_head_back(b, p, rec);
    assert(h.len() == b.key.key_len);
    if r.is(rec) { lemma_load_back(r.key, h, pay, s, d); lemma_raw_back(r, b.offsets@, p, x); }
}
/// each entry lies between its start and the next one's
pub proof fn lemma_entry(p: Seq<Seq<u8>>, i: int)
    requires 0 <= i < p.len()
    ensures 0 <= start_of(p, i) <= start_of(p, i + 1) <= joined(p).len(), joined(p).subrange(start_of(p, i), start_of(p, i + 1)) == p[i]
    decreases p.len()
{
    let q = p.drop_last(); lemma_push(q, p.last()); assert(q.push(p.last()) =~= p);
    if i < q.len() {
        lemma_entry(q, i); assert(joined(p).subrange(start_of(p, i), start_of(p, i + 1)) =~= joined(q).subrange(start_of(q, i), start_of(q, i + 1)));
    } else { assert(p.subrange(0, i + 1) =~= p); assert(joined(p).subrange(start_of(p, i), start_of(p, i + 1)) =~= p[i]); }
}
/// what the branch notes about its baskets is true of the file
pub open spec fn filed(b: TBranch, s: Seq<u8>, end: int, items: Seq<Seq<u8>>) -> bool {
    let m = b.write_basket as int; let e = b.basket_entry@;
    &&& 0 <= m && b.basket_bytes@.len() == m && b.basket_seek@.len() == m && e.len() == m + 1 && e[0] == 0
    &&& forall|j: int, k: int| 0 <= j <= k <= m ==> 0 <= #[trigger] e[j] <= #[trigger] e[k] <= items.len()
    &&& forall|j: int| 0 <= j < m ==> #[trigger] filed_one(b, s, end, items, j)
}
pub open spec fn filed_one(b: TBranch, s: Seq<u8>, end: int, items: Seq<Seq<u8>>, j: int) -> bool {
    let a = b.basket_seek@[j] as int; let n = b.basket_bytes@[j] as int;
    a + n <= end && basket_at(s, a, n, items.subrange(b.basket_entry@[j] as int, b.basket_entry@[j + 1] as int))
}
/// what was in the file before its end is still there
pub open spec fn kept(f: RootFile, g: RootFile) -> bool {
    &&& f.header.end <= g.header.end && f.content().len() <= g.content().len()
    &&& forall|i: int| 0 <= i < f.header.end && i < f.content().len() ==> #[trigger] g.content()[i] == f.content()[i]
}
/// the file g comes from f by adding records at its end
pub open spec fn added(f: RootFile, g: RootFile) -> bool {
    &&& kept(f, g) && g.wr() && g.header == (RootFileHeader { end: g.header.end, ..f.header })
    &&& g.dir == f.dir && g.sinfos == f.sinfos && g.id == f.id
}
pub proof fn lemma_added(f: RootFile, g: RootFile, h: RootFile)
    requires added(f, g), added(g, h)
    ensures added(f, h)
{ }
pub proof fn lemma_frame(b: TBranch, f: RootFile, g: RootFile, items: Seq<Seq<u8>>)
    requires filed(b, f.content(), f.header.end as int, items), kept(f, g)
    ensures filed(b, g.content(), g.header.end as int, items)
{
    let s = f.content(); let t = g.content();
    assert forall|j: int| 0 <= j < b.write_basket implies #[trigger] filed_one(b, t, g.header.end as int, items, j) by {
        assert(filed_one(b, s, f.header.end as int, items, j));
        let a = b.basket_seek@[j] as int; let n = b.basket_bytes@[j] as int; let p = items.subrange(b.basket_entry@[j] as int, b.basket_entry@[j + 1] as int);
        let k = choose|k: Basket| #[trigger] basket_for(k, p) && k.key.seek_key == a && k.key.n_bytes == n && 0 <= a && a + n <= s.len()
            && s.subrange(a, a + n) == k.key.enc() + basket_head(k) + payload(joined(p), k.offsets@, p.len() as int);
        assert(t.subrange(a, a + n) =~= s.subrange(a, a + n));
        assert(basket_for(k, p));
    }
}
pub proof fn lemma_more(b: TBranch, c: TBranch, s: Seq<u8>, end: int, items: Seq<Seq<u8>>, x: Seq<u8>)
    requires filed(b, s, end, items), c.basket_bytes == b.basket_bytes, c.basket_entry == b.basket_entry, c.basket_seek == b.basket_seek, c.write_basket == b.write_basket
    ensures filed(c, s, end, items.push(x)), filed(c, s, end, items)
{
    assert forall|j: int| 0 <= j < c.write_basket implies #[trigger] filed_one(c, s, end, items, j) by { assert(filed_one(b, s, end, items, j)); }
    assert forall|j: int| 0 <= j < c.write_basket implies #[trigger] filed_one(c, s, end, items.push(x), j) by {
        assert(filed_one(b, s, end, items, j));
        assert(b.basket_entry@[j + 1] <= items.len());
        assert(items.push(x).subrange(b.basket_entry@[j] as int, b.basket_entry@[j + 1] as int) =~= items.subrange(b.basket_entry@[j] as int, b.basket_entry@[j + 1] as int));
    }
}
pub proof fn lemma_stored(w: WBasket, f: RootFile, b: Basket, g: RootFile, p: Seq<Seq<u8>>)
    requires w.ok(), w.holds(p), stored(w, f, b, g), f.wr(), w.basket.key.wide() ==> f.big(), f.header.end >= 0
    ensures added(f, g), g.header.end == f.header.end + b.key.n_bytes, 0 < b.key.n_bytes, basket_at(g.content(), b.key.seek_key as int, b.key.n_bytes as int, p)
{
    let k = b.key; let s = f.content(); let a = k.seek_key as int; let h = k.enc() + basket_head(b); let y = k.buffer@;
    assert(h.len() == k.key_len);
    let t1 = laid(s, a, h); let t = laid(t1, a + k.key_len, y);
    assert(t == g.content());
    assert(t.subrange(a, a + k.n_bytes) =~= h + y) by { assert(t.len() >= a + k.n_bytes); }
    assert(b.offsets@.len() > 0 ==> names_starts(b.offsets@, k.key_len as int, p));
    assert(basket_for(b, p));
}
/// an empty basket is opened
pub proof fn lemma_opened(t: TBranch, u: TBranch, w: WBasket, f: RootFile, items: Seq<Seq<u8>>)
    requires account(t, None, f, items), w.wbuf.v().len() == 0, w.basket.nev_buf == 0, u.entries == t.entries,
        u.basket_bytes == t.basket_bytes, u.basket_entry == t.basket_entry, u.basket_seek == t.basket_seek, u.write_basket == t.write_basket
    ensures account(u, Some(w), f, items)
{
    lemma_more(t, u, f.content(), f.header.end as int, items, Seq::empty());
    let p = items.subrange(open_from(t), items.len() as int);
    assert(p.len() == 0); assert(w.wbuf.v() =~= joined(p));
}
/// one more entry in the open basket
pub open spec fn grown(w: WBasket, v: WBasket, x: Seq<u8>) -> bool {
    &&& v.wbuf.v() == w.wbuf.v() + x && v.basket.nev_buf == w.basket.nev_buf + 1 && v.basket.key == w.basket.key
    &&& w.basket.offsets@.len() == 0 ==> v.basket.offsets@.len() == 0
    &&& w.basket.offsets@.len() > 0 ==> v.basket.offsets@.len() > w.basket.nev_buf && v.basket.offsets@[w.basket.nev_buf as int] == w.basket.key.key_len + w.wbuf.v().len()
        && forall|i: int| 0 <= i < w.basket.nev_buf ==> #[trigger] v.basket.offsets@[i] == w.basket.offsets@[i]
}
pub proof fn lemma_grown(w: WBasket, v: WBasket, f: RootFile, t: TBranch, u: TBranch, items: Seq<Seq<u8>>, x: Seq<u8>)
    requires account(t, Some(w), f, items), grown(w, v, x), u.entries == t.entries + 1,
        u.basket_bytes == t.basket_bytes, u.basket_entry == t.basket_entry, u.basket_seek == t.basket_seek, u.write_basket == t.write_basket
    ensures account(u, Some(v), f, items.push(x))
{
    lemma_more(t, u, f.content(), f.header.end as int, items, x);
    let a = open_from(t); let n = items.len() as int; let p = items.subrange(a, n);
    lemma_push(p, x);
    assert(items.push(x).subrange(a, n + 1) =~= p.push(x));
    if v.basket.offsets@.len() > 0 {
        assert forall|i: int| 0 <= i < p.push(x).len() implies #[trigger] v.basket.offsets@[i] == v.basket.key.key_len + start_of(p.push(x), i) by {
            if i < p.len() { assert(w.basket.offsets@[i] == w.basket.key.key_len + start_of(p, i)); }
        }
    }
}
pub proof fn lemma_ok_size(b: Basket, n: i32) requires b.ok(), b.offsets@.len() == 0 ensures (Basket { nev_size: n, ..b }).ok() { }
pub proof fn lemma_made_wide(k: Key, f: RootFile, a: Seq<char>, b: Seq<char>, c: Seq<char>, n: int) requires made(k, f, a, b, c, n) ensures k.wide() == f.big() { }
pub proof fn lemma_cell<T: Marshaler>(e: bool, x: T) requires item_ok(x) ensures 1 <= cell(e, x).len() < 0x1000_0020 { }
pub proof fn lemma_ok_n(b: Basket) requires b.ok() ensures 0 <= b.nev_buf < 0x1000_0000 { }
pub proof fn lemma_grew(w: WBasket, f: RootFile, b: Basket, g: RootFile)
    requires w.ok(), stored(w, f, b, g), f.wr(), w.basket.key.wide() ==> f.big(), f.header.end >= 0
    ensures added(f, g), g.header.end == f.header.end + b.key.n_bytes, 0 < b.key.n_bytes
{ }
/// flushing keeps the branch's account true
#[verifier::spinoff_prover]
pub proof fn lemma_flushed(w: WBasket, f: RootFile, b: Basket, g: RootFile, t: TBranch, u: TBranch, items: Seq<Seq<u8>>)
    requires w.ok(), stored(w, f, b, g), f.wr(), w.basket.key.wide() ==> f.big(), f.header.end >= 0, account(t, Some(w), f, items), noted(t, b.key, u), t.write_basket < 0x7fff_ffff
    ensures account(u, None, g, items)
{
    let p = items.subrange(t.basket_entry@[t.write_basket as int] as int, items.len() as int);
    lemma_stored(w, f, b, g, p);
    lemma_frame(t, f, g, items);
    assert forall|j: int| 0 <= j < u.write_basket implies #[trigger] filed_one(u, g.content(), g.header.end as int, items, j) by {
        if j < t.write_basket { assert(filed_one(t, g.content(), g.header.end as int, items, j)); }
    }
}
/// b1 is b0 with its basket flushed to the file
pub open spec fn noted(t: TBranch, k: Key, u: TBranch) -> bool {
    &&& u == (TBranch { tot_bytes: (t.tot_bytes + k.n_bytes) as i64, zip_bytes: (t.zip_bytes + k.n_bytes) as i64, write_basket: (t.write_basket + 1) as i32,
        basket_bytes: u.basket_bytes, basket_entry: u.basket_entry, basket_seek: u.basket_seek, ..t })
    &&& u.basket_bytes@ == t.basket_bytes@.push(k.n_bytes) && u.basket_entry@ == t.basket_entry@.push(t.entries) && u.basket_seek@ == t.basket_seek@.push(k.seek_key)
}
//@impl oxyroot/src/rtree/branch/wbranch.rs | WBranch<T>
//@fn create_new_basket
requires old(self).named_ok(*tree), f.wr(), 0 <= old(self).tb().entry_offset_len < 0x2000_0000, 0 <= old(self).tb().write_basket < 32767
ensures ret.ok(), ret.wbuf.v().len() == 0, ret.basket.nev_buf == 0, ret.basket.offsets@.len() == old(self).tb().entry_offset_len,
  made(ret.basket.key, *f, "TBasket"@, old(self).tb().named.name@, tree.tree.named.name@, 0), ret.basket.key.cycle == old(self).tb().write_basket + 1,
  ret.basket.buf_size == old(self).tb().basket_size, ret.basket.rvers == rvers::BASKET,
  *final(self) == (WBranch { branch: old(self).branch.with(TBranch { max_baskets: final(self).tb().max_baskets, ..old(self).tb() }), ..*old(self) })
//@end
//@fn flush
requires old(self).basket is Some, old(self).basket->0.ok(), old(file).wr(), old(file).header.end <= 0x0400_0000_0000_0000, old(self).basket->0.basket.key.wide() ==> old(file).big(),
  old(self).basket->0.wbuf.v().len() + 4 * old(self).basket->0.basket.nev_buf < 0x6000_0000,
  0 <= old(self).tb().write_basket < 32767, 0 <= old(self).tb().tot_bytes < 0x4000_0000_0000_0000, 0 <= old(self).tb().zip_bytes < 0x4000_0000_0000_0000
ensures ret is Ok ==> final(self).basket is Some && stored(old(self).basket->0, *old(file), final(self).basket->0.basket, *final(file))
    && final(self).iterator == old(self).iterator && final(self).branch == old(self).branch.with(final(self).tb())
    && noted(old(self).tb(), final(self).basket->0.basket.key, final(self).tb())
//@end
//@endimpl
//@impl oxyroot/src/rtree/branch/wbranch.rs | WBranch<T>
//@fn write
//@attr #[verifier::spinoff_prover]
requires old(self).ready(*tree, *old(file)), old(file).wr(), old(file).header.end <= 0x0400_0000_0000_0000
ensures ret is Ok ==> old(self).turned(*final(self), *tree, *old(file), *final(file), ret->Ok_0)
//@rewrite let ident = [^;]*; => let ident = ();
//@start
hide(Basket::ok); hide(framed); hide(head); hide(made); hide(filed); hide(account); hide(budget); hide(WBasket::holds); hide(stored); hide(names_ok); hide(laid); hide(joined); hide(key_size);
let ghost e = self.leaf() is Element; let ghost r = self.iterator.rest(); let ghost f0 = *file;
proof { lemma_weight(e, r); lemma_budget(self.tb(), self.pending() + weight(e, r)); }
//@before let tbranch = self
let ghost w0 = *basket;
let ghost t0 = self.branch.tb();
proof {
  lemma_ok_n(w0.basket); if old(self).basket is None { lemma_made_wide(w0.basket.key, f0, "TBasket"@, t0.named.name@, tree.tree.named.name@, 0); }
  assert(w0.ok() && w0.basket.nev_buf <= w0.wbuf.v().len() < t0.basket_size && (w0.basket.key.wide() ==> f0.big()));
  assert forall|items: Seq<Seq<u8>>| old(self).wrote(f0, items) implies #[trigger] account(t0, Some(w0), f0, items) by {
    if old(self).basket is None { lemma_opened(old(self).tb(), t0, w0, f0, items); }
  }
}
//@before for leave in
let ghost w1 = *basket; let ghost c = cell(e, item);
proof { lemma_weight(e, r.subrange(1, r.len() as int)); assert(item == r[0]); assert(item_ok(r[0])); }
//@loop 0 for it
invariant it.seq().len() == 1, basket.basket == w1.basket, basket.wbuf.wf(), item_ok(item), T::lead() == 0, e == (*it.seq()[0] is Element), !(*it.seq()[0] is Base), c == cell(e, item), w1.wbuf.wf(),
  it.index@ == 0 ==> basket.wbuf == w1.wbuf,
  it.index@ == 1 ==> basket.wbuf.v() == w1.wbuf.v() + c && basket.wbuf.offset == w1.wbuf.offset && (*final(it.seq()[0]) is Element) == e && !(*final(it.seq()[0]) is Base)
//@before let sz_new = 
let ghost w2 = *basket;
proof { assert(w2.wbuf.v() == w1.wbuf.v() + c); lemma_cell(e, item); }
//@before if sz_new \+ 
let ghost w3 = *basket; let ghost t3 = *tbranch;
proof {
  assert(grown(w0, w3, c)); if w1.basket.offsets@.len() == 0 { lemma_ok_size(w1.basket, w3.basket.nev_size); } assert(w3.ok());
  assert(w3.wbuf.v().len() + weight(e, self.iterator.rest()) == old(self).pending() + weight(e, r));
  lemma_budget_same(old(self).tb(), t3, w3.wbuf.v().len() + weight(e, self.iterator.rest()));
  assert forall|items: Seq<Seq<u8>>| old(self).wrote(f0, items) implies #[trigger] account(t3, Some(w3), f0, items.push(c)) by {
    lemma_grown(w0, w3, f0, t0, t3, items, c);
  }
}
//@after self\.flush\(file\)\?;
let ghost t4 = self.branch.tb(); let ghost f4 = *file;
proof {
  let b = self.basket->0.basket;
  assert forall|items: Seq<Seq<u8>>| old(self).wrote(f0, items) implies #[trigger] account(t4, None, f4, items.push(c)) by {
    lemma_flushed(w3, f0, b, f4, t3, t4, items.push(c));
  }
  lemma_grew(w3, f0, b, f4);
  lemma_budget_flushed(t3, t4, w3.wbuf.v().len() as int, weight(e, self.iterator.rest()));
}
//@after self\.flush\(file\)\?;[^;]*;
proof {
  let w5 = self.basket->0; let t5 = self.branch.tb();
  lemma_budget_same(t4, t5, weight(e, self.iterator.rest()));
  lemma_made_wide(w5.basket.key, *file, "TBasket"@, t4.named.name@, tree.tree.named.name@, 0);
  assert(self.open_ok(*file));
  assert forall|items: Seq<Seq<u8>>| old(self).wrote(f0, items) implies #[trigger] account(t5, Some(w5), *file, items.push(c)) by { lemma_opened(t4, t5, w5, *file, items.push(c)); }
}
//@before Some\(n\)
proof {
  assert forall|i: int| 0 <= i < self.iterator.rest().len() implies item_ok(#[trigger] self.iterator.rest()[i]) by { assert(item_ok(r[i + 1])); }
  assert(self.basket is Some); assert(self.open_ok(*file));
  assert(self.named_ok(*tree)); assert((self.leaf() is Element) == e); assert(budget(self.tb(), self.pending() + weight(e, self.iterator.rest())));
  assert(self.ready(*tree, *file)); assert(added(f0, *file));
  assert forall|items: Seq<Seq<u8>>| old(self).wrote(f0, items) implies #[trigger] self.wrote(*file, items.push(c)) by { }
}
//@rewrite None\s*=.\s*None, => None => { proof { lemma_budget_same(old(self).tb(), self.tb(), self.pending() + weight(e, r)); assert(self.open_ok(*file)); assert(self.ready(*tree, *file)); } None }
//@end
//@endimpl
pub proof fn lemma_account_frame(t: TBranch, w: Option<WBasket>, f: RootFile, g: RootFile, items: Seq<Seq<u8>>)
    requires account(t, w, f, items), kept(f, g)
    ensures account(t, w, g, items)
{ lemma_frame(t, f, g, items); }
// ---- the tree
pub assume_specification<T: Default>[ std::mem::take ](x: &mut T) -> (r: T)
    ensures r == *old(x), call_ensures(T::default, (), *final(x));
/// Iterator::all over a vector of flags
#[verifier::external_body]
pub fn vx_all_set(v: &Vec<bool>) -> (r: bool) ensures r == (forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i]) { unimplemented!() }
impl riofs::FactoryItemWrite for WriterTree {
    open spec fn writable(&self) -> bool { true }
    #[verifier::external_body]
    fn marshal(&self, w: &mut WBuffer) -> (ret: super::rbytes::Result<i64>) { unimplemented!() }
}
impl RootFileStreamerInfoContext {
    /// the streamer records gathered for the tree
    #[verifier::external_body]
    pub fn vx_list(&self) -> &Vec<StreamerInfo> { unimplemented!() }
}
impl<T: Marshaler> WBranch<T> {
    /// the open basket can be flushed
    pub open spec fn closable(&self, f: RootFile) -> bool {
        let b = self.tb();
        &&& self.basket is Some && self.basket->0.ok() && self.basket->0.wbuf.v().len() + 4 * self.basket->0.basket.nev_buf < 0x6000_0000
        &&& self.basket->0.basket.key.wide() ==> f.big()
        &&& 0 <= b.write_basket < 32767 && 0 <= b.tot_bytes < 0x4000_0000_0000_0000 && 0 <= b.zip_bytes < 0x4000_0000_0000_0000
    }
}
pub type VxBranch = WBranch<VxItem>;
pub proof fn lemma_closable(b: VxBranch, t: WriterTree, f: RootFile)
    requires b.ready(t, f), b.basket is Some
    ensures b.closable(f)
{ lemma_weight(b.leaf() is Element, b.iterator.rest()); lemma_budget(b.tb(), b.pending() + weight(b.leaf() is Element, b.iterator.rest())); }
pub proof fn lemma_put_adds(f: RootFile, k: Key, name: Seq<char>, title: Seq<char>, class: Seq<char>, g: RootFile)
    requires f.wr(), g.wr(), g.content() == record(f.content(), k), moved_put(f, g, f.header.end + k.n_bytes), put_record(k, f, name, title, class)
    ensures kept(f, g)
{ }
//@impl oxyroot/src/rtree/tree/writer.rs | WriterTree
//@fn flush
//@attr #[verifier::spinoff_prover]
requires old(file).wr(), old(file).header.end <= 0x0300_0000_0000_0000, old(self).tree.branches@.len() <= 0x800,
  forall|i: int| 0 <= i < old(self).tree.branches@.len() ==> (#[trigger] old(self).tree.branches@[i]).closable(*old(file))
ensures ret is Ok ==> {
    let n = old(self).tree.branches@.len();
    &&& final(self).tree.branches@.len() == n && *final(self) == (WriterTree { tree: Tree { branches: final(self).tree.branches, ..old(self).tree }, ..*old(self) })
    &&& added(*old(file), *final(file)) && final(file).header.end <= old(file).header.end + 0x8000_0000 * n
    &&& forall|i: int, items: Seq<Seq<u8>>| 0 <= i < n && #[trigger] old(self).tree.branches@[i].wrote(*old(file), items) ==> account(final(self).tree.branches@[i].tb(), None, *final(file), items)
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] final(self).tree.branches@[i]).tb().entries == old(self).tree.branches@[i].tb().entries
  }
//@start
hide(filed); hide(account); hide(stored); hide(WBasket::ok);
let ghost v0 = self.tree.branches@; let ghost f0 = *file;
//@loop 0 for it
invariant it.seq().len() == v0.len(), v0.len() <= 0x800, f0.wr(), f0.header.end <= 0x0300_0000_0000_0000,
  forall|i: int| 0 <= i < v0.len() ==> *it.seq()[i] == #[trigger] v0[i],
  forall|i: int| 0 <= i < v0.len() ==> (#[trigger] v0[i]).closable(f0),
  added(f0, *file), file.header.end <= f0.header.end + 0x8000_0000 * it.index@,
  forall|i: int, items: Seq<Seq<u8>>| 0 <= i < it.index@ && #[trigger] v0[i].wrote(f0, items) ==> account((*final(it.seq()[i])).tb(), None, *file, items),
  forall|i: int| 0 <= i < it.index@ ==> (*final(it.seq()[i])).tb().entries == (#[trigger] v0[i]).tb().entries
//@loopstart 0
let ghost f1 = *file; let ghost b1 = *b; let ghost k = it.index@ as int;
proof { assert(b1 == v0[k]); assert(v0[k].closable(f0)); }
//@loopend 0
proof {
  lemma_grew(b1.basket->0, f1, b.basket->0.basket, *file);
  assert forall|i: int, items: Seq<Seq<u8>>| 0 <= i < k && #[trigger] v0[i].wrote(f0, items) implies account((*final(it.seq()[i])).tb(), None, *file, items) by {
    lemma_account_frame((*final(it.seq()[i])).tb(), None, f1, *file, items);
  }
  assert forall|items: Seq<Seq<u8>>| #[trigger] v0[k].wrote(f0, items) implies account(b.tb(), None, *file, items) by {
    lemma_account_frame(b1.tb(), b1.basket, f0, f1, items);
    lemma_flushed(b1.basket->0, f1, b.basket->0.basket, *file, b1.tb(), b.tb(), items);
  }
}
//@end
//@endimpl
impl Clone for StreamerInfo { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
//@impl oxyroot/src/rtree/branch/mod.rs | Branch
//@fn class
ensures ret@ == match self { Branch::Base(_) => "TBranch"@, Branch::Element(_) => "TBranchElement"@ }
//@rewrite b\.class\(\) => { let t = b.class(); assert(t@ == b.class_of()); t }
//@rewrite e\.class\(\) => { let t = e.class(); assert(t@ == e.class_of()); t }
//@end
//@endimpl
//@impl oxyroot/src/rtree/branch/wbranch.rs | Object for WBranch<T> => impl<T: Marshaler> traits::Object for WBranch<T>
open spec fn class_of(&self) -> Seq<char> { match self.branch { Branch::Base(_) => "TBranch"@, Branch::Element(_) => "TBranchElement"@ } }
//@fn class
//@end
//@endimpl
//@impl oxyroot/src/rtree/branch/wbranch.rs | Named for WBranch<T> => impl<T: Marshaler> traits::Named for WBranch<T>
open spec fn name_of(&self) -> Seq<char> { self.branch.tb().named.name@ }
uninterp spec fn title_of(&self) -> Seq<char>;
/// not overridden: the default body panics
#[verifier::external_body]
fn title(&self) -> (ret: &str) { unimplemented!() }
//@fn name
//@end
//@endimpl
pub open spec fn cells<T: Marshaler>(e: bool, r: Seq<T>) -> Seq<Seq<u8>> { Seq::new(r.len(), |i: int| cell(e, r[i])) }
pub open spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
/// after k turns of the branch that was b0
pub open spec fn at_pass(b: VxBranch, b0: VxBranch, t: WriterTree, f: RootFile, k: int, lim: int) -> bool {
    let r = b0.iterator.rest(); let n = r.len() as int; let e = b0.leaf() is Element; let m = least(k, n);
    &&& b.ready(t, f) && (k > 0 ==> b.basket is Some) && (b.leaf() is Element) == e
    &&& b.iterator.rest() == r.subrange(m, n) && b.wrote(f, cells(e, r.subrange(0, m)))
    &&& forall|i: int| 0 <= i < n ==> 0 < cell(e, #[trigger] r[i]).len() <= lim
}
pub proof fn lemma_pass_frame(b: VxBranch, b0: VxBranch, t: WriterTree, f: RootFile, g: RootFile, k: int, lim: int)
    requires at_pass(b, b0, t, f, k, lim), added(f, g)
    ensures at_pass(b, b0, t, g, k, lim)
{
    let r = b0.iterator.rest();
    lemma_account_frame(b.tb(), b.basket, f, g, cells(b0.leaf() is Element, r.subrange(0, least(k, r.len() as int))));
}
/// only the name of the tree matters to its branches
pub proof fn lemma_same_name(b: VxBranch, t: WriterTree, u: WriterTree, f: RootFile) requires b.ready(t, f), t.tree.named == u.tree.named ensures b.ready(u, f) { }
pub proof fn lemma_pass_ready(b: VxBranch, b0: VxBranch, t: WriterTree, f: RootFile, k: int, lim: int)
    requires at_pass(b, b0, t, f, k, lim)
    ensures b.ready(t, f), 0 <= b.tb().write_basket <= 32000
{ lemma_weight(b.leaf() is Element, b.iterator.rest()); lemma_budget(b.tb(), b.pending() + weight(b.leaf() is Element, b.iterator.rest())); }
pub proof fn lemma_pass_last(b: VxBranch, b0: VxBranch, t: WriterTree, f: RootFile, k: int, lim: int)
    requires at_pass(b, b0, t, f, k + 1, lim), 0 <= k
    ensures b.closable(f), b0.iterator.rest().len() <= k ==> b.wrote(f, writes_as(b0))
{
    lemma_closable(b, t, f);
    let r = b0.iterator.rest();
    if r.len() <= k { assert(r.subrange(0, least(k + 1, r.len() as int)) =~= r); }
}
pub proof fn lemma_pass(b: VxBranch, b0: VxBranch, b1: VxBranch, t: WriterTree, u: WriterTree, f: RootFile, g: RootFile, k: int, lim: int, ret: Option<i32>)
    requires at_pass(b, b0, t, f, k, lim), b.turned(b1, u, f, g, ret), t.tree.named == u.tree.named, k >= 0, lim <= i32::MAX
    ensures at_pass(b1, b0, t, g, k + 1, lim), ret is None <==> k >= b0.iterator.rest().len(), ret is Some ==> 0 < ret->0 <= lim
{
    let r = b0.iterator.rest(); let n = r.len() as int; let e = b0.leaf() is Element;
    let c = cells(e, r.subrange(0, least(k, n)));
    assert(b.wrote(f, c)); lemma_same_name(b1, u, t, g);
    if k < n {
        assert(b.iterator.rest()[0] == r[k]);
        assert(c.push(cell(e, r[k])) =~= cells(e, r.subrange(0, k + 1)));
        assert(r.subrange(k, n).subrange(1, n - k) =~= r.subrange(k + 1, n));
    }
}
/// how many baskets the branches hold together
pub open spec fn baskets(v: Seq<VxBranch>) -> int decreases v.len() { if v.len() == 0 { 0 } else { baskets(v.drop_last()) + v.last().tb().write_basket } }
pub proof fn lemma_baskets_update(v: Seq<VxBranch>, i: int, b: VxBranch)
    requires 0 <= i < v.len()
    ensures baskets(v.update(i, b)) == baskets(v) - v[i].tb().write_basket + b.tb().write_basket
    decreases v.len()
{
    if i == v.len() - 1 { assert(v.update(i, b).drop_last() =~= v.drop_last()); }
    else { assert(v.update(i, b).drop_last() =~= v.drop_last().update(i, b)); lemma_baskets_update(v.drop_last(), i, b); }
}
pub proof fn lemma_baskets_few(v: Seq<VxBranch>)
    requires forall|i: int| 0 <= i < v.len() ==> 0 <= (#[trigger] v[i]).tb().write_basket <= 32000
    ensures 0 <= baskets(v) <= 32000 * v.len()
    decreases v.len()
{ if v.len() > 0 { assert(0 <= v[v.len() - 1].tb().write_basket <= 32000); assert forall|i: int| 0 <= i < v.drop_last().len() implies 0 <= (#[trigger] v.drop_last()[i]).tb().write_basket <= 32000 by { assert(v[i] == v.drop_last()[i]); } lemma_baskets_few(v.drop_last()); } }
pub proof fn lemma_few(n: int, g: spec_fn(int) -> VxBranch)
    requires 0 <= n, forall|i: int| 0 <= i < n ==> 0 <= (#[trigger] g(i)).tb().write_basket <= 32000
    ensures baskets(Seq::new(n as nat, g)) <= 32000 * n
{ let v = Seq::new(n as nat, g); assert forall|i: int| 0 <= i < v.len() implies 0 <= (#[trigger] v[i]).tb().write_basket <= 32000 by { assert(v[i] == g(i)); } lemma_baskets_few(v); }
pub open spec fn writes_as(b: VxBranch) -> Seq<Seq<u8>> { cells(b.leaf() is Element, b.iterator.rest()) }
/// a branch that nothing was written to yet
pub open spec fn untouched(b: VxBranch) -> bool {
    let t = b.tb();
    b.basket is None && t.write_basket == 0 && t.entries == 0 && t.basket_entry@ == seq![0i64] && t.basket_bytes@.len() == 0 && t.basket_seek@.len() == 0
}
pub proof fn lemma_untouched(b: VxBranch, t: WriterTree, f: RootFile, lim: int)
    requires untouched(b), b.ready(t, f), forall|i: int| 0 <= i < b.iterator.rest().len() ==> cell(b.leaf() is Element, #[trigger] b.iterator.rest()[i]).len() <= lim
    ensures at_pass(b, b, t, f, 0, lim)
{
    let r = b.iterator.rest();
    assert(r.subrange(0, r.len() as int) =~= r);
    assert(cells(b.leaf() is Element, r.subrange(0, 0)) =~= Seq::empty());
    assert forall|i: int| 0 <= i < r.len() implies 0 < cell(b.leaf() is Element, #[trigger] r[i]).len() <= lim by { assert(item_ok(r[i])); lemma_cell(b.leaf() is Element, r[i]); }
}
/// E is the length of the longest branch
pub open spec fn longest(v: Seq<VxBranch>, e: int) -> bool {
    (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).iterator.rest().len() <= e) && (e == 0 || exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).iterator.rest().len() == e)
}
pub open spec fn room(n: int) -> int { if n == 0 { 0 } else { 0x7fff_ffffint / n } }
pub proof fn lemma_room(i: int, n: int) requires 0 <= i <= n ensures 0 <= i * room(n) <= 0x7fff_ffff, 0 <= room(n) <= 0x7fff_ffff, (i + 1) * room(n) == i * room(n) + room(n)
{
    if n > 0 { assert(i * room(n) <= n * room(n)) by (nonlinear_arith) requires 0 <= i <= n, room(n) >= 0; assert(n * (0x7fff_ffffint / n) <= 0x7fff_ffff) by (nonlinear_arith) requires n > 0; assert(i * room(n) >= 0) by (nonlinear_arith) requires i >= 0, room(n) >= 0; assert(0x7fff_ffffint / n <= 0x7fff_ffff) by (nonlinear_arith) requires n > 0; }
    assert((i + 1) * room(n) == i * room(n) + room(n)) by (nonlinear_arith);
}
pub proof fn lemma_turned(b: VxBranch, b1: VxBranch, u: WriterTree, f: RootFile, g: RootFile, ret: Option<i32>)
    requires b.turned(b1, u, f, g, ret)
    ensures added(f, g), g.header.end <= f.header.end + 0x8000_0000 * (b1.tb().write_basket - b.tb().write_basket)
{ }
impl WriterTree {
    /// where a tree can be put
    pub open spec fn target(&self, f: RootFile) -> bool {
        &&& f.wr() && self.tree.sinfos is Some && names_ok("TTree"@, self.tree.named.name@, self.tree.named.title@)
        &&& forall|i: int| 0 <= i < f.dir.keys@.len() ==> 0 <= (#[trigger] f.dir.keys@[i]).cycle < i16::MAX
    }
}
//@impl oxyroot/src/rtree/tree/writer.rs | WriterTree
//@fn close
//@attr #[verifier::spinoff_prover]
//@rewrite sis\.list\(\)\.iter\(\) => sis.vx_list().iter()
requires old(self).target(*old(file)), old(file).header.end <= 0x0300_0000_0000_0000, old(self).tree.branches@.len() <= 0x800,
  forall|i: int| 0 <= i < old(self).tree.branches@.len() ==> (#[trigger] old(self).tree.branches@[i]).closable(*old(file))
ensures ret is Ok ==> {
    let n = old(self).tree.branches@.len(); let k = final(file).dir.keys@.last();
    &&& final(self).tree.branches@.len() == n && final(self).tree.entries == old(self).tree.entries
    &&& kept(*old(file), *final(file)) && final(file).wr()
    &&& forall|i: int, items: Seq<Seq<u8>>| 0 <= i < n && #[trigger] old(self).tree.branches@[i].wrote(*old(file), items) ==> account(final(self).tree.branches@[i].tb(), None, *final(file), items)
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] final(self).tree.branches@[i]).tb().entries == old(self).tree.branches@[i].tb().entries
    &&& final(file).dir.keys@ == old(file).dir.keys@.push(k) && k.class@ == "TTree"@ && k.name@ == old(self).tree.named.name@
  }
//@start
hide(filed); hide(account); hide(record); hide(laid);
let ghost f0 = *file;
//@after self\.flush\([^;]*;
let ghost f1 = *file; let ghost t1 = self.tree; let ghost s1 = *self;
//@after file\.put\([^;]*;
let ghost f2 = *file;
proof {
  lemma_put_adds(f1, f2.dir.keys@.last(), put_name(s1.tree.named.name@, s1), s1.tree.named.title@, "TTree"@, f2);
  assert forall|i: int, items: Seq<Seq<u8>>| 0 <= i < t1.branches@.len() && #[trigger] old(self).tree.branches@[i].wrote(f0, items) implies account(t1.branches@[i].tb(), None, f2, items) by {
    lemma_account_frame(t1.branches@[i].tb(), None, f1, f2, items);
  }
}
//@loop 0 for it
invariant *file == (RootFile { sinfos: file.sinfos, ..f2 })
//@afterloop 0
proof {
  let f3 = *file;
  assert(kept(f2, f3));
  assert forall|i: int, items: Seq<Seq<u8>>| 0 <= i < t1.branches@.len() && #[trigger] old(self).tree.branches@[i].wrote(f0, items) implies account(t1.branches@[i].tb(), None, f3, items) by {
    lemma_account_frame(t1.branches@[i].tb(), None, f2, f3, items);
  }
}
//@end
//@endimpl
//@impl oxyroot/src/rtree/tree/writer.rs | WriterTree
//@fn write
//@attr #[verifier::spinoff_prover]
//@rewrite \bf\(StateCallBack => f.vx_call(StateCallBack
//@rewrite match b\.write\(self, file\)\? \{ => proof { assert(s0.tree.named == self.tree.named); lemma_same_name(b1, s0, *self, f2); assert(f2.header.end <= 0x0400_0000_0000_0000); } let vx_r = b.write(self, file)?; let ghost b2 = *b; proof { lemma_turned(b1, b2, *self, f2, *file, vx_r); lemma_pass(b1, v0[x], b2, s0, *self, f2, *file, k, lim, vx_r); lemma_added(f1, f2, *file); } match vx_r {
//@rewrite \|_b\| false => |_b: &VxBranch| -> (r: bool) ensures !r { false }
//@rewrite branchs_done\.iter\(\)\.all\(\|d\| \*d\) => vx_all_set(&branchs_done)
requires old(self).target(*old(file)), old(file).header.end <= 0x0100_0000_0000_0000, old(self).tree.branches@.len() <= 0x800,
  old(self).tree.entries == 0 && old(self).tree.tot_bytes == 0 && old(self).tree.zip_bytes == 0,
  forall|i: int| 0 <= i < old(self).tree.branches@.len() ==> #[trigger] old(self).tree.branches@[i].ready(*old(self), *old(file)),
  forall|i: int| 0 <= i < old(self).tree.branches@.len() ==> untouched(#[trigger] old(self).tree.branches@[i]) && old(self).tree.branches@[i].iterator.rest().len() <= 0x7fff_ffff,
  forall|i: int, j: int| 0 <= i < old(self).tree.branches@.len() && 0 <= j < old(self).tree.branches@[i].iterator.rest().len() ==>
    cell(old(self).tree.branches@[i].leaf() is Element, #[trigger] old(self).tree.branches@[i].iterator.rest()[j]).len() <= room(old(self).tree.branches@.len() as int)
ensures ret is Ok ==> {
    let v = old(self).tree.branches@; let k = final(file).dir.keys@.last();
    &&& final(self).tree.branches@.len() == v.len() && longest(v, final(self).tree.entries as int)
    &&& forall|i: int| 0 <= i < v.len() ==> account((#[trigger] final(self).tree.branches@[i]).tb(), None, *final(file), writes_as(v[i]))
    &&& final(file).dir.keys@ == old(file).dir.keys@.push(k) && k.class@ == "TTree"@ && k.name@ == old(self).tree.named.name@
  }
//@start
hide(filed); hide(account); hide(at_pass); hide(WBranch::ready); hide(WBranch::turned); hide(room); hide(names_ok);
let ghost v0 = self.tree.branches@; let ghost f0 = *file; let ghost t0 = self.tree; let ghost s0 = *self; let ghost n = v0.len() as int; let ghost lim = room(v0.len() as int);
proof {
  lemma_room(0, n);
  assert forall|i: int| 0 <= i < n implies at_pass(#[trigger] v0[i], v0[i], s0, f0, 0, lim) by { assert(v0[i].ready(s0, f0)); assert(untouched(v0[i])); lemma_untouched(v0[i], s0, f0, lim); }
  assert forall|i: int| 0 <= i < n implies 0 <= (#[trigger] v0[i]).tb().write_basket <= 32000 by { lemma_pass_ready(v0[i], v0[i], s0, f0, 0, lim); }
  lemma_baskets_few(v0);
}
//@loop 0 loop
invariant_except_break
  forall|i: int| 0 <= i < n ==> at_pass(#[trigger] branches@[i], v0[i], s0, *file, self.tree.entries as int, lim),
  forall|i: int| 0 <= i < n ==> (#[trigger] branchs_done@[i] <==> v0[i].iterator.rest().len() < self.tree.entries),
  self.tree.entries == 0 || exists|i: int| 0 <= i < n && (#[trigger] v0[i]).iterator.rest().len() >= self.tree.entries,
  file.header.end <= f0.header.end + 0x8000_0000 * baskets(branches@),
  0 <= self.tree.tot_bytes <= 0x7fff_ffff * self.tree.entries,
invariant f0.wr(), s0.tree == t0, n == v0.len(), branches@.len() == n, branchs_done@.len() == n, n <= 0x800, lim == room(n), f0.header.end <= 0x0100_0000_0000_0000,
  forall|i: int| 0 <= i < n ==> (#[trigger] v0[i]).iterator.rest().len() <= 0x7fff_ffff,
  added(f0, *file), 0 <= self.tree.entries <= 0x8000_0000, self.tree.zip_bytes == 0,
  self.tree.named == t0.named, self.tree.sinfos == t0.sinfos
ensures 
  forall|i: int| 0 <= i < n ==> at_pass(#[trigger] branches@[i], v0[i], s0, *file, self.tree.entries + 1, lim),
  longest(v0, self.tree.entries as int), file.header.end <= 0x0300_0000_0000_0000
decreases 0x8000_0000 - self.tree.entries
//@loopstart 0
let ghost v1 = branches@; let ghost f1 = *file; let ghost k = self.tree.entries as int; let ghost tr1 = self.tree; let ghost d1 = branchs_done@;
//@loop 1 for it1
invariant self.tree == tr1
//@loop 2 for it
invariant s0.tree == t0, 0 <= k <= 0x7fff_ffff + 1, it.seq().len() == n, v1.len() == n, v0.len() == n, n <= 0x800, lim == room(n), f0.header.end <= 0x0100_0000_0000_0000, self.tree == tr1, tr1.named == t0.named,
  forall|i: int| 0 <= i < n ==> *it.seq()[i].0 == #[trigger] v1[i],
  forall|i: int| 0 <= i < n ==> *it.seq()[i].1 == #[trigger] d1[i],
  forall|i: int| 0 <= i < n ==> at_pass(#[trigger] v1[i], v0[i], s0, f1, k, lim),
  forall|i: int| 0 <= i < n ==> (#[trigger] d1[i] <==> v0[i].iterator.rest().len() < k),
  forall|i: int| 0 <= i < it.index@ ==> at_pass(*final(it.seq()[i].0), #[trigger] v0[i], s0, *file, k + 1, lim),
  forall|i: int| 0 <= i < it.index@ ==> (*final(it.seq()[i].1) <==> (#[trigger] v0[i]).iterator.rest().len() < k + 1),
  added(f0, f1), added(f1, *file), 0 <= tot <= it.index@ * lim,
  forall|s: Seq<VxBranch>| s.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == if i < it.index@ { *final(it.seq()[i].0) } else { v1[i] }) ==> file.header.end <= f0.header.end + 0x8000_0000 * #[trigger] baskets(s)
//@loopstart 2
let ghost b1 = *b; let ghost f2 = *file; let ghost x = it.index@ as int; let ghost u = *self;
proof {
  assert(b1 == v1[x]); assert(at_pass(v1[x], v0[x], s0, f1, k, lim)); assert(*d == d1[x]);
  lemma_pass_frame(b1, v0[x], s0, f1, f2, k, lim); lemma_pass_ready(b1, v0[x], s0, f2, k, lim);
  assert forall|i: int| 0 <= i < n implies 0 <= (#[trigger] v1[i]).tb().write_basket <= 32000 by { lemma_pass_ready(v1[i], v0[i], s0, f1, k, lim); }
  assert forall|i: int| 0 <= i < x implies 0 <= (*final((#[trigger] it.seq()[i]).0)).tb().write_basket <= 32000 by { assert(at_pass(*final(it.seq()[i].0), v0[i], s0, f2, k + 1, lim)); lemma_pass_ready(*final(it.seq()[i].0), v0[i], s0, f2, k + 1, lim); }
  lemma_few(n, |i: int| if i < x { *final(it.seq()[i].0) } else { v1[i] });
  assert(baskets(Seq::new(n as nat, |i: int| if i < x { *final(it.seq()[i].0) } else { v1[i] })) <= 32000 * n);
  lemma_room(x, n); lemma_room(x + 1, n);
}
//@loopend 2
proof {
  assert forall|i: int| 0 <= i < x implies at_pass(*final(it.seq()[i].0), #[trigger] v0[i], s0, *file, k + 1, lim) by { lemma_pass_frame(*final(it.seq()[i].0), v0[i], s0, f2, *file, k + 1, lim); }
  assert(at_pass(b2, v0[x], s0, *file, k + 1, lim));
  assert forall|s: Seq<VxBranch>| s.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == if i < x + 1 { *final(it.seq()[i].0) } else { v1[i] }) implies file.header.end <= f0.header.end + 0x8000_0000 * #[trigger] baskets(s) by {
    let p = s.update(x, b1);
    assert forall|i: int| 0 <= i < n implies #[trigger] p[i] == if i < x { *final(it.seq()[i].0) } else { v1[i] } by { assert(s[i] == s[i]); }
    assert(file.header.end == file.header.end && f2.header.end <= f0.header.end + 0x8000_0000 * baskets(p));
    lemma_baskets_update(p, x, b2);
    assert(s[x] == b2);
    assert(p.update(x, b2) =~= s);
  }
}
//@loop 3 for it3
invariant self.tree == tr1, *b == b1, *file == f2
//@beforeloop 2
proof {
  assert forall|s: Seq<VxBranch>| s.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == v1[i]) implies file.header.end <= f0.header.end + 0x8000_0000 * #[trigger] baskets(s) by { assert(s =~= v1); }
}
//@afterloop 2
proof {
  lemma_room(n, n); lemma_added(f0, f1, *file);
  assert forall|i: int| 0 <= i < n implies at_pass(#[trigger] branches@[i], v0[i], s0, *file, k + 1, lim) by { assert(v0[i] == v0[i]); }
  assert forall|i: int| 0 <= i < n implies (#[trigger] branchs_done@[i] <==> v0[i].iterator.rest().len() < k + 1) by { assert(v0[i] == v0[i]); }
  assert(file.header.end <= f0.header.end + 0x8000_0000 * baskets(branches@));
  assert forall|i: int| 0 <= i < n implies 0 <= (#[trigger] branches@[i]).tb().write_basket <= 32000 by { lemma_pass_ready(branches@[i], v0[i], s0, *file, k + 1, lim); }
  lemma_baskets_few(branches@);
}
//@afterloop 0
proof {
  assert forall|i: int| 0 <= i < n implies (#[trigger] branches@[i]).closable(*file) && branches@[i].wrote(*file, writes_as(v0[i])) by { lemma_pass_last(branches@[i], v0[i], s0, *file, self.tree.entries as int, lim); }
}
//@end
//@endimpl
} // mod tree
