// ------------------------------------------------------------------ polymorphic objects, C strings, version guards
/// std::cmp::min at usize
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
/// slice::split, as far as its first piece (extracted from .split(pred))
#[verifier::external_body]
pub struct VxSplit<'a> { r: &'a [u8] }
impl<'a> VxSplit<'a> {
    pub uninterp spec fn head(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a [u8]>)
        ensures r is Some, r->0@ == old(self).head()
    { unimplemented!() }
}
pub trait VxSplitExt<'a> { fn vx_split<F: FnMut(&u8) -> bool>(self, f: F) -> VxSplit<'a>; }
impl<'a> VxSplitExt<'a> for &'a [u8] {
    #[verifier::external_body]
    fn vx_split<F: FnMut(&u8) -> bool>(self, f: F) -> (r: VxSplit<'a>)
        ensures ({
            let k = r.head().len() as int;
            &&& 0 <= k <= self@.len() && r.head() == self@.subrange(0, k)
            &&& forall|i: int| 0 <= i < k ==> f.ensures((&#[trigger] self@[i],), false)
            &&& k < self@.len() ==> f.ensures((&self@[k],), true)
        })
    { unimplemented!() }
}
/// length of the NUL-terminated string at the start of s
pub open spec fn is_cstr(s: Seq<u8>, k: int) -> bool { 0 <= k < s.len() && s[k] == 0 && forall|i: int| 0 <= i < k ==> s[i] != 0 }

//@impl oxyroot/src/rbytes/rbuffer.rs | Rbuff
//@fn extract_until
//@rewrite \.split\( => .vx_split(
requires old(self).wf(), n <= 0x4000_0000, exists|k: int| k < n && is_cstr(old(self).rest(), k),
  forall|x: &u8, b: bool| pred.ensures((x,), b) ==> b == (*x == 0)
ensures ret is Ok, rconsumed(*old(self), *final(self), ret->Ok_0@.len() as int + 1), is_cstr(old(self).rest(), ret->Ok_0@.len() as int),
  ret->Ok_0@ == old(self).rest().subrange(0, ret->Ok_0@.len() as int)
//@start
broadcast use axiom_slice_len;
let ghost r0 = self.rest();
let ghost k0 = choose|k: int| k < n && is_cstr(r0, k);
//@after &self\.p\[self\.c\.\.m\];
proof {
  assert(forall|i: int| 0 <= i < buf@.len() ==> buf@[i] == r0[i]);
  assert(k0 < buf@.len());
}
//@after let mut iter = [^;]*;
proof { assert(iter.head().len() <= k0); assert forall|i: int| 0 <= i < iter.head().len() implies iter.head()[i] == r0[i] by {}; 
  assert(iter.head() =~= r0.subrange(0, iter.head().len() as int));
  assert forall|i: int| 0 <= i < iter.head().len() implies r0[i] != 0 by { assert(buf@[i] == r0[i]); }
  let h = iter.head().len() as int; assert(buf@[h] == r0[h]); 
}
//@end
//@endimpl
//@impl oxyroot/src/rbytes/rbuffer.rs | RBuffer
//@fn read_cstring
//@rewrite \|(\w+)\| (\*\1 == \d+)\) => |\1: &u8| -> (vx_b: bool) ensures vx_b == (\2) { \2 })
requires old(self).wf(), n <= 0x4000_0000, exists|k: int| k < n && is_cstr(old(self).rest(), k)
ensures ret is Ok,
  forall|k: int| #[trigger] is_cstr(old(self).rest(), k) ==> consumed(*old(self), *final(self), k + 1) && (valid_utf8(old(self).rest().subrange(0, k)) ==> encode_utf8(ret->Ok_0@) == old(self).rest().subrange(0, k))
//@end
//@endimpl
// ---- String keys of the class table
pub mod strkey {
    use vstd::prelude::*;
    pub broadcast axiom fn axiom_string_ext(a: String, b: String)
        requires #[trigger] a@ == #[trigger] b@
        ensures a == b;
    pub uninterp spec fn string_of(c: Seq<char>) -> String;
    pub broadcast axiom fn axiom_string_of(c: Seq<char>) ensures (#[trigger] string_of(c))@ == c;
    pub broadcast axiom fn axiom_string_key()
        ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<String>();
    pub broadcast axiom fn axiom_str_borrow<V>(m: Map<String, V>, k: &str)
        ensures #[trigger] vstd::std_specs::hash::contains_borrowed_key::<String, V, str>(m, k) == (exists|s: String| #[trigger] m.contains_key(s) && s@ == k@);
    pub broadcast axiom fn axiom_str_borrow_val<V>(m: Map<String, V>, k: &str, v: V)
        ensures #[trigger] vstd::std_specs::hash::maps_borrowed_key_to_value::<String, V, str>(m, k, v) == (exists|s: String| #[trigger] m.contains_key(s) && s@ == k@ && m[s] == v);
    pub broadcast group group_strkey { axiom_string_ext, axiom_string_of, axiom_string_key, axiom_str_borrow, axiom_str_borrow_val }
} // mod strkey
pub open spec fn has_class(m: Map<String, i64>, c: Seq<char>) -> bool { exists|s: String| #[trigger] m.contains_key(s) && s@ == c }
pub open spec fn class_ref(m: Map<String, i64>, c: Seq<char>) -> i64 { m[choose|s: String| #[trigger] m.contains_key(s) && s@ == c] }
pub open spec fn enc_newclass(c: Seq<char>) -> Seq<u8> { be32(0xFFFF_FFFFu32) + (encode_utf8(c) + be8(0)) }
/// what the class table and the object table say about the bytes written so far
pub open spec fn refs_ok(w: WBuffer) -> bool {
    &&& forall|s: String| #[trigger] w.refs_s@.contains_key(s) ==> class_at(w, s@, w.refs_s@[s])
    &&& forall|a: usize| #[trigger] w.refs_p@.contains_key(a) ==> object_at(w, w.refs_p@[a])
}
pub open spec fn class_at(w: WBuffer, c: Seq<char>, r: i64) -> bool {
    let p = (r - 0x8000_0000) - 2 - w.offset;
    0 <= p < w.v().len() && r < 0x1_0000_0000 && starts_with(from_at(w.v(), p), enc_newclass(c))
}
pub open spec fn object_at(w: WBuffer, r: i64) -> bool {
    let p = r - 2 - w.offset;
    0 <= p && p + 8 <= w.v().len() && r < 0x4000_0002 && w32(from_at(w.v(), p + 4)) >= 0x8000_0000
}
/// w2 comes from w1 by appending; tables only grew
pub open spec fn extends(w1: WBuffer, w2: WBuffer) -> bool {
    &&& w2.wf() && w2.offset == w1.offset && starts_with(w2.v(), w1.v())
    &&& forall|s: String| #[trigger] w1.refs_s@.contains_key(s) ==> w2.refs_s@.contains_key(s) && w2.refs_s@[s] == w1.refs_s@[s]
    &&& forall|a: usize| #[trigger] w1.refs_p@.contains_key(a) ==> w2.refs_p@.contains_key(a) && w2.refs_p@[a] == w1.refs_p@[a]
    &&& small(w2) ==> forall|s: String| #[trigger] w2.refs_s@.contains_key(s) && !w1.refs_s@.contains_key(s) ==> w2.refs_s@[s] - 0x8000_0000 - 2 >= w1.at()
    &&& small(w2) ==> forall|a: usize| #[trigger] w2.refs_p@.contains_key(a) && !w1.refs_p@.contains_key(a) ==> w2.refs_p@[a] - 2 >= w1.at() - 4
}
pub open spec fn small(w: WBuffer) -> bool { w.at() < 0x4000_0000 }
pub proof fn lemma_extends_refs(w1: WBuffer, w2: WBuffer)
    requires w1.wf(), w2.wf(), starts_with(w2.v(), w1.v()), w1.offset == w2.offset, w1.refs_s == w2.refs_s, w1.refs_p == w2.refs_p, refs_ok(w1)
    ensures refs_ok(w2)
{
    assert forall|s: String| #[trigger] w2.refs_s@.contains_key(s) implies class_at(w2, s@, w2.refs_s@[s]) by { lemma_class_at(w1, w2, s@, w2.refs_s@[s]); }
    assert forall|a: usize| #[trigger] w2.refs_p@.contains_key(a) implies object_at(w2, w2.refs_p@[a]) by { lemma_object_at(w1, w2, w2.refs_p@[a]); }
}
pub proof fn lemma_class_at(w1: WBuffer, w2: WBuffer, c: Seq<char>, r: i64)
    requires starts_with(w2.v(), w1.v()), w1.offset == w2.offset, class_at(w1, c, r)
    ensures class_at(w2, c, r)
{
    let p = (r - 0x8000_0000) - 2 - w1.offset; let e = enc_newclass(c); let n = e.len() as int;
    assert(from_at(w2.v(), p).subrange(0, n) =~= from_at(w1.v(), p).subrange(0, n)) by {
        assert forall|i: int| #![auto] 0 <= i < n implies from_at(w2.v(), p)[i] == from_at(w1.v(), p)[i] by { assert(w2.v().subrange(0, w1.v().len() as int)[p + i] == w1.v()[p + i]); }
    }
}
pub proof fn lemma_object_at(w1: WBuffer, w2: WBuffer, r: i64)
    requires starts_with(w2.v(), w1.v()), w1.offset == w2.offset, object_at(w1, r)
    ensures object_at(w2, r)
{
    let p = r - 2 - w1.offset + 4;
    assert forall|i: int| #![auto] 0 <= i < 4 implies from_at(w2.v(), p)[i] == from_at(w1.v(), p)[i] by { assert(w2.v().subrange(0, w1.v().len() as int)[p + i] == w1.v()[p + i]); }
}
pub trait FactoryItemWrite {
    spec fn cls(&self) -> Seq<char>;
    spec fn okay(&self) -> bool;
    fn class(&self) -> (r: &str) ensures r@ == self.cls();
    // what write_class relies on from the objects it writes (assumed of every implementor)
    fn marshal(&self, w: &mut WBuffer) -> (r: Result<i64>)
        requires old(w).wf(), self.okay(), small(*old(w)) ==> refs_ok(*old(w))
        ensures r is Ok, extends(*old(w), *final(w)), small(*final(w)) ==> refs_ok(*final(w));
}
pub open spec fn has_ref(m: Map<String, i64>, c: Seq<char>) -> Option<i64> { if has_class(m, c) { Some(class_ref(m, c)) } else { None } }
impl WBuffer {
    /// one object record starts at the end of `self`: what was written for (class, addr), given the tables before
    pub open spec fn class_record(pre: WBuffer, post: WBuffer, c: Seq<char>, addr: usize) -> bool {
        let t = from_at(post.v(), pre.v().len() as int);
        if pre.refs_p@.contains_key(addr) {
            t == be32(pre.refs_p@[addr] as u32) && post.refs_p == pre.refs_p && post.refs_s == pre.refs_s
        } else {
            &&& post.refs_p@.contains_key(addr) && post.refs_p@[addr] == pre.at() - 4 + 2
            &&& if has_class(pre.refs_s@, c) { starts_with(t, be32(class_ref(pre.refs_s@, c) as u32)) }
                else { starts_with(t, enc_newclass(c)) && has_class(post.refs_s@, c) && class_ref(post.refs_s@, c) == pre.at() + 2 + 0x8000_0000 }
        }
    }
}
pub proof fn lemma_mask(x: i64)
    requires 0 <= x < 0x8000_0000
    ensures (x | 0x80000000) == x + 0x8000_0000, ((x | 0x80000000) as u32) >= 0x8000_0000
{ assert((x | 0x80000000) == x + 0x8000_0000 && ((x | 0x80000000) as u32) >= 0x8000_0000) by (bit_vector) requires 0 <= x < 0x8000_0000; }
pub proof fn lemma_ormask(x: i64)
    requires 0x8000_0000 <= x < 0x1_0000_0000
    ensures ((x as u32) | (0x80000000i64 as u32)) == x as u32, x as u32 == x
{ assert(((x as u32) | (0x80000000i64 as u32)) == x as u32) by (bit_vector) requires 0x8000_0000 <= x < 0x1_0000_0000; }
pub proof fn lemma_count_i64(x: i64)
    requires 0 <= x < 0x4000_0000
    ensures (x | 0x40000000) == x + 0x4000_0000
{ assert((x | 0x40000000) == x + 0x4000_0000) by (bit_vector) requires 0 <= x < 0x4000_0000; }

pub broadcast proof fn lemma_starts_refl(a: Seq<u8>, b: Seq<u8>)
    requires a == b
    ensures #[trigger] starts_with(a, b)
{ assert(a.subrange(0, a.len() as int) =~= a); }
pub broadcast proof fn lemma_ap_ext(a: WBuffer, b: WBuffer, x: Seq<u8>)
    requires #[trigger] appended(a, b, x), a.wf()
    ensures extends(a, b), refs_ok(a) ==> refs_ok(b), from_at(b.v(), a.v().len() as int) == x
{
    assert(b.v().subrange(0, a.v().len() as int) =~= a.v());
    assert(from_at(b.v(), a.v().len() as int) =~= x);
    if refs_ok(a) { lemma_extends_refs(a, b); }
}
pub broadcast proof fn lemma_ext_trans(a: WBuffer, b: WBuffer, c: WBuffer)
    requires #[trigger] extends(a, b), #[trigger] extends(b, c), a.wf()
    ensures extends(a, c)
{
    assert(c.v().subrange(0, a.v().len() as int) =~= a.v()) by {
        assert forall|i: int| 0 <= i < a.v().len() implies c.v()[i] == a.v()[i] by {
            assert(b.v().subrange(0, a.v().len() as int)[i] == b.v()[i]);
            assert(c.v().subrange(0, b.v().len() as int)[i] == c.v()[i]);
        }
    }
}
/// an append that later appends keep is still the prefix of what follows
pub proof fn lemma_keep(a: WBuffer, b: WBuffer, c: WBuffer, x: Seq<u8>)
    requires appended(a, b, x), extends(b, c), a.wf()
    ensures starts_with(from_at(c.v(), a.v().len() as int), x)
{
    let n = a.v().len() as int;
    assert forall|i: int| 0 <= i < x.len() implies from_at(c.v(), n)[i] == x[i] by {
        assert(c.v().subrange(0, b.v().len() as int)[n + i] == c.v()[n + i]);
    }
    assert(from_at(c.v(), n).subrange(0, x.len() as int) =~= x);
}
pub proof fn lemma_tagged(w0: WBuffer, wt: WBuffer, w: WBuffer, tag: u32, rest: Seq<u8>)
    requires w0.wf(), w0.v().len() >= 4, wt.v() == w0.v() + (be32(tag) + rest), starts_with(w.v(), wt.v()), w.offset == w0.offset, tag >= 0x8000_0000, small(w0)
    ensures object_at(w, (w0.at() - 2) as i64), starts_with(from_at(w.v(), w0.v().len() as int), be32(tag) + rest), starts_with(w.v(), w0.v())
{
    broadcast use group_words;
    let n = w0.v().len() as int; let x = be32(tag) + rest;
    assert forall|i: int| 0 <= i < x.len() implies from_at(w.v(), n)[i] == x[i] by {
        assert(w.v().subrange(0, wt.v().len() as int)[n + i] == w.v()[n + i]);
    }
    assert forall|i: int| 0 <= i < n implies w.v()[i] == w0.v()[i] by { assert(w.v().subrange(0, wt.v().len() as int)[i] == w.v()[i]); }
    assert(w.v().subrange(0, n) =~= w0.v());
    assert(from_at(w.v(), n).subrange(0, x.len() as int) =~= x);
    lemma_starts_concat(from_at(w.v(), n), be32(tag), rest);
}
pub proof fn lemma_has_ref(m: Map<String, i64>, w: WBuffer, c: Seq<char>)
    requires refs_ok(w), m == w.refs_s@, has_class(m, c)
    ensures 0x8000_0000 <= class_ref(m, c) < 0x1_0000_0000, forall|s: String| #[trigger] m.contains_key(s) && s@ == c ==> m[s] == class_ref(m, c)
{
    broadcast use strkey::group_strkey;
    let s = choose|s: String| #[trigger] m.contains_key(s) && s@ == c;
    assert(class_at(w, s@, m[s]));
}
//@impl oxyroot/src/rbytes/wbuffer.rs | WBuffer
//@fn write_class
requires old(self).wf(), small(*old(self)) ==> refs_ok(*old(self)), obj.okay(), old(self).v().len() >= 4, beg == old(self).at() - 4
ensures ret is Ok, extends(*old(self), *final(self)),
  small(*final(self)) ==> refs_ok(*final(self)) && ret->Ok_0 == count_word((final(self).at() - old(self).at()) as u32)
    && Self::class_record(*old(self), *final(self), obj.cls(), addr)
//@start
broadcast use axiom_vec_len, lemma_appended, lemma_ap_ext, lemma_ext_trans, lemma_starts_refl, strkey::group_strkey, vstd::std_specs::hash::group_hash_axioms;
let ghost w0 = *self;
let ghost mut wt = *self;   // just after the tag
proof { if small(w0) && has_class(w0.refs_s@, obj.cls()) { lemma_has_ref(w0.refs_s@, w0, obj.cls()); lemma_ormask(class_ref(w0.refs_s@, obj.cls())); } }
//@before obj\.marshal\(self\)\?;\s*self\.refs_p
proof { wt = *self; assert(be32(class_ref(w0.refs_s@, obj.cls()) as u32) + Seq::empty() =~= be32(class_ref(w0.refs_s@, obj.cls()) as u32)); }
//@after obj\.marshal\(self\)\?;(?=\s*self\.refs_p)
let ghost wm = *self;
//@after self\.refs_p\.insert\([^;]*;
proof {
  let tag = class_ref(w0.refs_s@, obj.cls()) as u32;
  if small(*self) {
    lemma_tagged(w0, wt, *self, tag, Seq::empty());
    assert forall|s: String| #[trigger] self.refs_s@.contains_key(s) implies class_at(*self, s@, self.refs_s@[s]) by { lemma_class_at(wm, *self, s@, self.refs_s@[s]); }
    assert forall|a: usize| #[trigger] self.refs_p@.contains_key(a) implies object_at(*self, self.refs_p@[a]) by { if a != addr { lemma_object_at(wm, *self, self.refs_p@[a]); } }
  }
}
//@after self\.write_cstring\(class\)\?;
proof { wt = *self; if small(w0) { lemma_mask((w0.at() + 2) as i64); } }
//@before obj\.marshal\(self\)\?;\s*let bcnt
let ghost wm = *self;
proof {
  if small(w0) {
  lemma_tagged(w0, wt, wm, 0xFFFF_FFFFu32, encode_utf8(obj.cls()) + be8(0));
  assert forall|s: String| #[trigger] wm.refs_s@.contains_key(s) implies class_at(wm, s@, wm.refs_s@[s]) by {
    if w0.refs_s@.contains_key(s) { lemma_class_at(w0, wm, s@, w0.refs_s@[s]); } }
  assert forall|a: usize| #[trigger] wm.refs_p@.contains_key(a) implies object_at(wm, wm.refs_p@[a]) by { if a != addr { lemma_object_at(w0, wm, w0.refs_p@[a]); } }
  }
  assert(extends(w0, wm));
  assert(wm.refs_s@.contains_key(strkey::string_of(obj.cls())));
  assert(has_class(wm.refs_s@, obj.cls()));
}
//@after obj\.marshal\(self\)\?;(?=\s*let bcnt)
proof {
  if small(w0) { lemma_tagged(w0, wt, *self, 0xFFFF_FFFFu32, encode_utf8(obj.cls()) + be8(0)); }
  let k = strkey::string_of(obj.cls());
  assert(wm.refs_s@.contains_key(k) && wm.refs_p@.contains_key(addr));
  assert(self.refs_s@.contains_key(k) && self.refs_p@.contains_key(addr));
  if small(*self) { lemma_has_ref(self.refs_s@, *self, obj.cls()); }
}
//@beforeall Ok\(bcnt
proof { if small(*self) { lemma_count_i64((self.at() - w0.at()) as i64); lemma_count_word(self.at() - w0.at()); } }
//@end
//@fn write_object_any
requires old(self).wf(), small(*old(self)) ==> refs_ok(*old(self)), obj.okay(), old(self).v().len() >= 1
ensures ret is Ok, extends(*old(self), *final(self)), ret->Ok_0 == final(self).at() - old(self).at(),
  small(*final(self)) ==> refs_ok(*final(self)) && object_record(*old(self), *final(self), obj.cls(), addr)
//@start
broadcast use axiom_vec_len, lemma_appended, lemma_ap_ext, lemma_ext_trans, lemma_starts_refl;
let ghost w0 = *self;
//@after self\.write_i32\(0\)\?;
let ghost w1 = *self;
//@before self\.write_in_place
let ghost w2 = *self;
//@after self\.write_in_place\([^;]*;
proof { lemma_ap_ext(w0, w1, be32(0)); assert(starts_with(w2.v(), w1.v())); if small(*self) { lemma_patch_word(w0, w1, w2, *self, bcnt as u32); } lemma_patch_ext(w0, w1, w2, *self, bcnt as u32); 
 if small(*self) { lemma_count_word(w2.at() - w1.at()); } }
//@end
//@endimpl
/// a whole object record: count word, then what write_class put there
pub open spec fn object_record(w0: WBuffer, w: WBuffer, c: Seq<char>, addr: usize) -> bool {
    let n = w0.v().len() as int;
    let t = from_at(w.v(), n + 4);
    &&& starts_with(from_at(w.v(), n), be32(count_word((w.v().len() - n - 4) as u32)))
    &&& if w0.refs_p@.contains_key(addr) {
            t == be32(w0.refs_p@[addr] as u32)
        } else {
            &&& w.refs_p@.contains_key(addr) && w.refs_p@[addr] == w0.at() + 2
            &&& if has_class(w0.refs_s@, c) { starts_with(t, be32(class_ref(w0.refs_s@, c) as u32)) }
                else { starts_with(t, enc_newclass(c)) && has_class(w.refs_s@, c) && class_ref(w.refs_s@, c) == w0.at() + 4 + 2 + 0x8000_0000 }
        }
}
pub proof fn lemma_patch_ext(w0: WBuffer, w1: WBuffer, w2: WBuffer, w3: WBuffer, x: u32)
    requires w0.wf(), appended(w0, w1, be32(0)), extends(w1, w2), patched(w2, w3, w0.v().len() as int, be32(x))
    ensures extends(w0, w3)
{
    let n = w0.v().len() as int; let m = n + 4; let a = w2.v(); let b = w3.v();
    assert(w1.v().len() == m);
    assert forall|i: int| 0 <= i < n implies b[i] == w0.v()[i] by {
        assert(w1.v()[i] == w0.v()[i]); assert(a.subrange(0, m)[i] == a[i]);
    }
    assert(b.subrange(0, n) =~= w0.v());
    assert forall|s: String| #[trigger] w0.refs_s@.contains_key(s) implies w3.refs_s@.contains_key(s) && w3.refs_s@[s] == w0.refs_s@[s] by { assert(w1.refs_s@.contains_key(s)); }
    assert forall|o: usize| #[trigger] w0.refs_p@.contains_key(o) implies w3.refs_p@.contains_key(o) && w3.refs_p@[o] == w0.refs_p@[o] by { assert(w1.refs_p@.contains_key(o)); }
}
pub proof fn lemma_patch_word(w0: WBuffer, w1: WBuffer, w2: WBuffer, w3: WBuffer, x: u32)
    requires w0.wf(), appended(w0, w1, be32(0)), extends(w1, w2), patched(w2, w3, w0.v().len() as int, be32(x)), small(w3), refs_ok(w2), refs_ok(w0)
    ensures refs_ok(w3), starts_with(from_at(w3.v(), w0.v().len() as int), be32(x)), from_at(w3.v(), w0.v().len() as int + 4) == from_at(w2.v(), w1.v().len() as int), extends(w0, w3)
{
    let n = w0.v().len() as int; let m = n + 4; let a = w2.v(); let b = w3.v();
    assert(w1.v().len() == m);
    assert forall|i: int| 0 <= i < n implies b[i] == w0.v()[i] by {
        assert(w1.v()[i] == w0.v()[i]); assert(a.subrange(0, m)[i] == a[i]);
    }
    assert(b.subrange(0, n) =~= w0.v());
    assert(from_at(b, n).subrange(0, 4) =~= be32(x));
    assert(from_at(b, m) =~= from_at(a, m));
    assert forall|s: String| #[trigger] w3.refs_s@.contains_key(s) implies class_at(w3, s@, w3.refs_s@[s]) by {
        assert(w2.refs_s@.contains_key(s));
        if w1.refs_s@.contains_key(s) { lemma_class_at(w0, w3, s@, w0.refs_s@[s]); }
        else { let p = (w3.refs_s@[s] - 0x8000_0000) - 2 - w3.offset; assert(class_at(w2, s@, w2.refs_s@[s])); assert(from_at(b, p) =~= from_at(a, p)); }
    }
    assert forall|o: usize| #[trigger] w3.refs_p@.contains_key(o) implies object_at(w3, w3.refs_p@[o]) by {
        assert(w2.refs_p@.contains_key(o));
        if w1.refs_p@.contains_key(o) { lemma_object_at(w0, w3, w0.refs_p@[o]); }
        else { let p = w3.refs_p@[o] - 2 - w3.offset; assert(object_at(w2, w2.refs_p@[o])); assert(from_at(b, p + 4) =~= from_at(a, p + 4)); }
    }
    assert forall|s: String| #[trigger] w0.refs_s@.contains_key(s) implies w3.refs_s@.contains_key(s) && w3.refs_s@[s] == w0.refs_s@[s] by { assert(w1.refs_s@.contains_key(s)); }
    assert forall|o: usize| #[trigger] w0.refs_p@.contains_key(o) implies w3.refs_p@.contains_key(o) && w3.refs_p@[o] == w0.refs_p@[o] by { assert(w1.refs_p@.contains_key(o)); }
}
// ---- reading polymorphic objects
#[verifier::external_body]
pub struct VxObj { id: u64 }
impl VxObj {
    pub uninterp spec fn cls(&self) -> Seq<char>;
    /// the object has read its own bytes starting at position n of the buffer
    pub uninterp spec fn read_at(&self) -> int;
    #[verifier::external_body]
    pub fn class(&self) -> (r: &str) ensures r@ == self.cls() { unimplemented!() }
    #[verifier::external_body]
    pub fn downcast<T>(self) -> (r: core::result::Result<Box<T>, ()>) { unimplemented!() }
}
pub uninterp spec fn known_class(c: Seq<char>) -> bool;
#[verifier::external_body]
pub fn vx_factory_get(c: &str) -> (r: Result<&'static VxBuilder>)
    ensures r is Ok <==> known_class(c@), r is Ok ==> r->Ok_0.cls() == c@
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_call(f: &VxBuilder) -> (r: VxObj) ensures r.cls() == f.cls() { unimplemented!() }
pub open spec fn counted(s: Seq<u8>) -> bool { w32(s) & 0x4000_0000 != 0 && w32(s) != 0xFFFF_FFFF }
pub open spec fn tag_off(s: Seq<u8>) -> int { if counted(s) { 4 } else { 0 } }
pub open spec fn tag_of(s: Seq<u8>) -> u32 { w32(from_at(s, tag_off(s))) }
/// the record at the start of s can be read with these tables
pub open spec fn any_ok(s: Seq<u8>, refs: Map<i64, RBufferRefsItem>) -> bool {
    &&& s.len() >= 4 + tag_off(s)
    &&& tag_of(s) & 0x8000_0000 != 0 ==> (
        if tag_of(s) == 0xFFFF_FFFF { counted(s) && exists|k: int| k < 80 && is_cls(from_at(s, 8), k) }
        else { refs.contains_key((tag_of(s) & 0x7FFF_FFFF) as i64) })
}
pub open spec fn is_cls(s: Seq<u8>, k: int) -> bool { is_cstr(s, k) && valid_utf8(s.subrange(0, k)) && exists|c: Seq<char>| known_class(c) && encode_utf8(c) == s.subrange(0, k) }
pub proof fn lemma_tag_bits(x: u32)
    ensures ((x as i64) & 0x40000000 == 0) == (x & 0x4000_0000 == 0), ((x as i64) & 0x80000000 == 0) == (x & 0x8000_0000 == 0), ((x as i64) & !0x80000000i64) == (x & 0x7FFF_FFFF) as i64,
      x == 0xFFFF_FFFF ==> x & 0x8000_0000 != 0
{
    assert(((x as i64) & 0x40000000 == 0) == (x & 0x4000_0000 == 0)) by (bit_vector);
    assert(((x as i64) & 0x80000000 == 0) == (x & 0x8000_0000 == 0)) by (bit_vector);
    assert(((x as i64) & !0x80000000i64) == (x & 0x7FFF_FFFF) as i64) by (bit_vector);
    assert(x == 0xFFFF_FFFF ==> x & 0x8000_0000 != 0) by (bit_vector);
}
/// the class each reference stands for
pub open spec fn classes(m: Map<i64, RBufferRefsItem>) -> Map<i64, Seq<char>> { Map::new(m.dom(), |k: i64| m[k]->Func_0.cls()) }
/// where reading stands: the position in the bytes, and the classes met so far
pub struct Spot { pub c: int, pub refs: Map<i64, Seq<char>> }
pub open spec fn spot(r: RBuffer) -> Spot { Spot { c: r.r.c as int, refs: classes(r.refs@) } }
/// where reading stands after an object of the class has read itself (reading an object is a function of the bytes and of what was met before)
pub uninterp spec fn self_read(p: Seq<u8>, offset: u32, s: Spot, c: Seq<char>) -> Spot;
/// the class name at the start of s
pub open spec fn name_len(s: Seq<u8>) -> int { choose|k: int| is_cstr(s, k) }
pub open spec fn name_at(s: Seq<u8>) -> Seq<char> { choose|c: Seq<char>| encode_utf8(c) == s.subrange(0, name_len(s)) }
/// the record at s can be read
pub open spec fn any_fits(p: Seq<u8>, s: Spot) -> bool {
    let t = from_at(p, s.c);
    &&& 0 <= s.c <= p.len() && t.len() >= 4 + tag_off(t)
    &&& tag_of(t) & 0x8000_0000 != 0 ==> (
        if tag_of(t) == 0xFFFF_FFFF { counted(t) && exists|k: int| k < 80 && is_cls(from_at(t, 8), k) }
        else { s.refs.contains_key((tag_of(t) & 0x7FFF_FFFF) as i64) })
}
pub open spec fn any_some(p: Seq<u8>, s: Spot) -> bool { tag_of(from_at(p, s.c)) & 0x8000_0000 != 0 }
/// the class of the object at s, where its own bytes start, and where reading stands after it
pub open spec fn any_class(p: Seq<u8>, s: Spot) -> Seq<char> {
    let t = from_at(p, s.c);
    if tag_of(t) == 0xFFFF_FFFF { name_at(from_at(t, 8)) } else { s.refs[(tag_of(t) & 0x7FFF_FFFF) as i64] }
}
pub open spec fn any_body(p: Seq<u8>, s: Spot) -> int {
    let t = from_at(p, s.c);
    if any_some(p, s) && tag_of(t) == 0xFFFF_FFFF { s.c + 8 + name_len(from_at(t, 8)) + 1 } else { s.c + 4 + tag_off(t) }
}
pub open spec fn any_next(p: Seq<u8>, offset: u32, s: Spot) -> Spot {
    let t = from_at(p, s.c);
    if !any_some(p, s) { Spot { c: any_body(p, s), refs: s.refs } }
    else { self_read(p, offset, Spot { c: any_body(p, s), refs: if tag_of(t) == 0xFFFF_FFFF { s.refs.insert((s.c + offset + 4 + 2) as i64, any_class(p, s)) } else { s.refs } }, any_class(p, s)) }
}
//@impl oxyroot/src/rbytes/rbuffer.rs | RBuffer
//@fn read_boxed_object
//@trusted runs the unmarshal of the concrete class behind a trait object
//@rewrite Box<dyn rtypes::FactoryItemRead> => VxObj
requires old(self).wf()
ensures final(self).wf(), final(self).r.p == old(self).r.p, final(self).offset == old(self).offset, final(obj).cls() == old(obj).cls(), final(obj).read_at() == old(self).at(),
  ret is Ok ==> spot(*final(self)) == self_read(old(self).r.p@, old(self).offset, spot(*old(self)), old(obj).cls()),
  forall|k: i64| #[trigger] old(self).refs@.contains_key(k) ==> final(self).refs@.contains_key(k) && final(self).refs@[k] == old(self).refs@[k]
//@end
//@fn read_object_any_into
//@rewrite Box<dyn (?:rtypes::)?FactoryItemRead> => VxObj
//@rewrite rtypes::FACTORY\.get\( => vx_factory_get(
//@rewrite \bfct\(\) => vx_call(fct)
requires old(self).wf(), any_ok(old(self).rest(), old(self).refs@)
ensures final(self).wf() && final(self).r.p == old(self).r.p && final(self).offset == old(self).offset,
  ret is Ok ==> spot(*final(self)) == any_next(old(self).r.p@, old(self).offset, spot(*old(self))) && (ret->Ok_0 is Some <==> any_some(old(self).r.p@, spot(*old(self)))),
  ret is Ok && ret->Ok_0 is Some ==> ret->Ok_0->0.cls() == any_class(old(self).r.p@, spot(*old(self))) && ret->Ok_0->0.read_at() == any_body(old(self).r.p@, spot(*old(self))) + old(self).offset,
  tag_of(old(self).rest()) & 0x8000_0000 == 0 ==> (ret is Err <==> tag_of(old(self).rest()) == 1) && (ret is Ok ==> ret->Ok_0 is None) && consumed(*old(self), *final(self), 4 + tag_off(old(self).rest())),
  tag_of(old(self).rest()) & 0x8000_0000 != 0 && tag_of(old(self).rest()) != 0xFFFF_FFFF && ret is Ok ==> ret->Ok_0 is Some
     && ret->Ok_0->0.cls() == old(self).refs@[(tag_of(old(self).rest()) & 0x7FFF_FFFF) as i64]->Func_0.cls() && ret->Ok_0->0.read_at() == old(self).at() + 4 + tag_off(old(self).rest()),
  tag_of(old(self).rest()) == 0xFFFF_FFFF && ret is Ok ==> ret->Ok_0 is Some && (
     forall|k: int, c: Seq<char>| #[trigger] is_cstr(from_at(old(self).rest(), 8), k) && #[trigger] encode_utf8(c) == from_at(old(self).rest(), 8).subrange(0, k) ==>
                ret->Ok_0->0.cls() == c && ret->Ok_0->0.read_at() == old(self).at() + 8 + k + 1
                && (final(self).refs@.contains_key((old(self).at() + 4 + 2) as i64) && final(self).refs@[(old(self).at() + 4 + 2) as i64]->Func_0.cls() == c))
//@start
broadcast use axiom_slice_len, lemma_consumed, lemma_from_at, vstd::std_specs::hash::group_hash_axioms;
let ghost s0 = self.rest(); let ghost sp = spot(*self);
proof { lemma_tag_bits(w32(s0)); lemma_tag_bits(tag_of(s0)); assert(from_at(s0, 0) =~= s0); assert(from_at(self.r.p@, sp.c) =~= s0); }
//@before let cname = 
let ghost s8 = self.rest();
let ghost at8 = self.at();
proof { assert(s8 == from_at(s0, 8)); assert(at8 == old(self).at() + 8); }
//@after let cname = [^;]*;
proof {
  let k0 = choose|k: int| k < 80 && is_cls(s8, k);
  let c0 = choose|c: Seq<char>| known_class(c) && encode_utf8(c) == s8.subrange(0, k0);
  assert(is_cstr(s8, k0));
  lemma_utf8_inj(c0, cname@);
  assert forall|k: int, c: Seq<char>| #[trigger] is_cstr(s8, k) && #[trigger] encode_utf8(c) == s8.subrange(0, k) implies k == k0 && c == cname@ by {
    if k < k0 { assert(s8[k] != 0); } else if k > k0 { assert(s8[k0] != 0); }
    lemma_utf8_inj(c, cname@);
  }
  assert(name_len(s8) == k0 && is_cstr(s8, name_len(s8)));
  assert(encode_utf8(name_at(s8)) == s8.subrange(0, k0));
  assert(name_at(s8) == cname@);
}
//@before self\.read_boxed_object
proof { assert(classes(self.refs@) =~= sp.refs.insert((sp.c + self.offset + 4 + 2) as i64, cname@)); assert(start == at8 - 4); assert(self.refs@.contains_key((start + 2) as i64)); assert(self.refs@[(start + 2) as i64]->Func_0.cls() == cname@); }
//@end
//@endimpl
/// the reader's table resolves every class reference the writer's table can emit
pub open spec fn tables_agree(m: Map<String, i64>, refs: Map<i64, RBufferRefsItem>) -> bool {
    forall|s: String| #[trigger] m.contains_key(s) ==> refs.contains_key((m[s] - 0x8000_0000) as i64) && refs[(m[s] - 0x8000_0000) as i64]->Func_0.cls() == s@
}
/// a record written by write_object_any is one read_object_any_into accepts, and it names the same class
pub proof fn lemma_protocol(w0: WBuffer, w: WBuffer, c: Seq<char>, addr: usize, r: RBuffer)
    requires w0.wf(), w.wf(), w.v().len() >= w0.v().len() + 8, object_record(w0, w, c, addr), refs_ok(w0), small(w), !w0.refs_p@.contains_key(addr), w.offset == w0.offset,
        r.wf(), r.rest() == from_at(w.v(), w0.v().len() as int), r.at() == w0.at(), tables_agree(w0.refs_s@, r.refs@),
        known_class(c), encode_utf8(c).len() < 80, forall|i: int| 0 <= i < encode_utf8(c).len() ==> encode_utf8(c)[i] != 0
    ensures any_ok(r.rest(), r.refs@), counted(r.rest()), tag_of(r.rest()) & 0x8000_0000 != 0,
        tag_of(r.rest()) != 0xFFFF_FFFF ==> r.refs@[(tag_of(r.rest()) & 0x7FFF_FFFF) as i64]->Func_0.cls() == c,
        tag_of(r.rest()) == 0xFFFF_FFFF ==> is_cstr(from_at(r.rest(), 8), encode_utf8(c).len() as int) && from_at(r.rest(), 8).subrange(0, encode_utf8(c).len() as int) == encode_utf8(c),
        // and the entry the reader then adds is the one the writer added
        !has_class(w0.refs_s@, c) ==> class_ref(w.refs_s@, c) - 0x8000_0000 == r.at() + 4 + 2,
{
    broadcast use group_words, lemma_from_at, group_utf8_lib;
    let s = r.rest(); let n = w0.v().len() as int; let b = encode_utf8(c);
    let x = (w.v().len() - n - 4) as u32;
    lemma_count_word(x as int);
    assert(w32(s) == count_word(x));
    let y = count_word(x);
    assert(y < 0x8000_0000) by { assert((x | 0x4000_0000) < 0x8000_0000) by (bit_vector) requires x < 0x4000_0000; }
    let t = from_at(s, 4);
    assert(from_at(from_at(w.v(), n), 4) == from_at(w.v(), n + 4));
    lemma_tag_bits(w32(t));
    if has_class(w0.refs_s@, c) {
        lemma_has_ref(w0.refs_s@, w0, c);
        let k = choose|s: String| #[trigger] w0.refs_s@.contains_key(s) && s@ == c;
        let v = class_ref(w0.refs_s@, c);
        assert(w32(t) == v as u32);
        assert(class_at(w0, k@, w0.refs_s@[k]));
        let u = v as u32;
        assert(u & 0x7FFF_FFFF == u - 0x8000_0000 && u & 0x8000_0000 != 0) by (bit_vector) requires u >= 0x8000_0000;
        assert((v - 0x8000_0000) as i64 == (u & 0x7FFF_FFFF) as i64);
        assert(u != 0xFFFF_FFFF);
    } else {
        lemma_starts_concat(t, be32(0xFFFF_FFFFu32), b + be8(0));
        assert(w32(t) == 0xFFFF_FFFF);
        let q = from_at(t, 4);
        assert(q == from_at(s, 8));
        lemma_starts_concat(q, b, be8(0));
        assert(q.subrange(0, b.len() as int) == b);
        assert forall|i: int| 0 <= i < b.len() implies q[i] != 0 by { assert(q.subrange(0, b.len() as int)[i] == q[i]); }
        assert(from_at(q, b.len() as int).subrange(0, 1)[0] == be8(0)[0]);
        assert(is_cls(q, b.len() as int));
        assert(0xFFFF_FFFFu32 & 0x8000_0000 != 0) by (bit_vector);
    }
}
