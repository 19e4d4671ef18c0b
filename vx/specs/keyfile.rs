// ------------------------------------------------------------------ keys and the space they own
/// an object that can be written (FactoryItemWrite): it appends bytes, and names itself
pub trait FactoryItemWrite: traits::Named {
    spec fn writable(&self) -> bool;
    fn marshal(&self, w: &mut WBuffer) -> (ret: super::rbytes::Result<i64>)
        requires old(w).wf(), self.writable()
        ensures ret is Ok ==> final(w).wf() && final(w).v().len() < old(w).v().len() + 0x7000_0000;
}
pub open spec fn key_size(class: Seq<char>, name: Seq<char>, title: Seq<char>, wide: bool) -> int {
    18 + seeks_len(wide) + str_size(class) + str_size(name) + str_size(title)
}
/// what a basket's key counts on top of a plain one
pub open spec fn extra_size(class: Seq<char>) -> int { if class == "TBasket"@ { 19 } else { 0 } }
/// the strings are ones a key (whose own length is a 16-bit number) can hold
pub open spec fn names_ok(class: Seq<char>, name: Seq<char>, title: Seq<char>) -> bool {
    encode_utf8(class).len() + encode_utf8(name).len() + encode_utf8(title).len() <= 32000
}
/// the key is exactly as long as it says (a basket's key includes the basket's own header)
pub open spec fn sized(k: Key) -> bool { k.key_len == k.enc().len() + extra_size(k.class@) }
pub proof fn lemma_key_size(k: Key)
    requires k.names_fit()
    ensures k.enc().len() == key_size(k.class@, k.name@, k.title@, k.wide())
{ }
/// what every constructor guarantees of a key made for the file f
pub open spec fn made(k: Key, f: RootFile, class: Seq<char>, name: Seq<char>, title: Seq<char>, obj_len: int) -> bool {
    &&& k.class@ == class && k.name@ == name && k.title@ == title
    &&& k.obj_len == obj_len && k.left == 0
    &&& k.wide() == f.big() && (k.rvers == super::rvers::KEY || k.rvers == super::rvers::KEY + 1000)
    &&& k.seek_pdir == f.dir.seek_dir
    &&& k.key_len == key_size(class, name, title, f.big()) + extra_size(class) && 0 < k.key_len <= i16::MAX
    &&& storable(k.datetime)
}
//@freefn oxyroot/src/riofs/key.rs key_len_for
requires names_ok(class@, name@, title@), f.dir.dir.rvers <= 1000
ensures ret == key_size(class@, name@, title@, f.big()) + extra_size(class@)
//@start
broadcast use axiom_str_len;
proof { reveal_strlit("TBasket"); }
//@end
//@impl oxyroot/src/riofs/key.rs | Default for Key
//@fn default
ensures ret.rvers == super::rvers::KEY, ret.n_bytes == 0, ret.obj_len == 0, ret.key_len == 0, ret.cycle == 1, ret.seek_key == 100, ret.seek_pdir == 0, ret.left == 0, ret.buffer@.len() == 0, storable(ret.datetime)
//@rewrite utils::now => now
//@end
//@endimpl
//@impl oxyroot/src/riofs/key.rs | traits::Object for Key
open spec fn class_of(&self) -> Seq<char> { self.class@ }
//@fn class
//@end
//@endimpl
//@impl oxyroot/src/riofs/key.rs | Named for Key
open spec fn name_of(&self) -> Seq<char> { self.name@ }
open spec fn title_of(&self) -> Seq<char> { self.title@ }
//@fn name
//@end
//@fn title
//@end
//@endimpl
/// what a record holds, as it lies in the file
pub open spec fn stored(k: Key, c: Seq<u8>) -> Seq<u8> { c.subrange(k.seek_key + k.key_len, k.seek_key + k.n_bytes) }
pub open spec fn squeezed(k: Key) -> bool { k.obj_len != k.n_bytes - k.key_len }
/// the sizes of a record make sense, and if it is compressed it is so in a way the library knows
pub open spec fn readable(k: Key, c: Seq<u8>) -> bool {
    &&& 0 <= k.key_len <= k.n_bytes && k.obj_len >= 0 && 0 <= k.seek_key < 0x4000_0000_0000_0000
    &&& squeezed(k) && k.seek_key + k.n_bytes <= c.len() ==> rcompress::supported(stored(k, c), k.obj_len as int)
}
/// the bytes of the object of a record: what is stored, or what the stored blocks stand for
pub open spec fn loaded(k: Key, c: Seq<u8>, b: Seq<u8>) -> bool {
    &&& k.seek_key + k.n_bytes <= c.len() && b.len() == k.obj_len
    &&& !squeezed(k) ==> b == stored(k, c)
    &&& squeezed(k) ==> rcompress::whole(stored(k, c), k.obj_len as int)
    &&& squeezed(k) && rcompress::plain(stored(k, c), k.obj_len as int) is Some ==> b == rcompress::plain(stored(k, c), k.obj_len as int)->0
}
//@impl oxyroot/src/riofs/key.rs | Key
//@fn new
requires old(f).wr(), names_ok(class@, name@, title@), 0 <= obj_len <= 0x7000_0000, old(f).header.end <= 0x0800_0000_0000_0000
ensures ret is Ok, made(ret->Ok_0, *old(f), class@, name@, title@, obj_len as int), ret->Ok_0.cycle == 1, ret->Ok_0.buffer@.len() == 0,
  ret->Ok_0.n_bytes == ret->Ok_0.key_len + obj_len,
  obj_len > 0 ==> ret->Ok_0.seek_key == old(f).header.end && moved(*old(f), *final(f), old(f).header.end + ret->Ok_0.n_bytes),
  obj_len == 0 ==> ret->Ok_0.seek_key == 100 && *final(f) == *old(f),
  ret->Ok_0.encodable(), sized(ret->Ok_0), final(f).wr()
//@start
proof { lemma_str_bound(class@); lemma_str_bound(name@); lemma_str_bound(title@); }
//@before Ok\(key\)
proof { lemma_key_size(key); }
//@end
//@fn new_from_buffer
requires old(f).wr(), names_ok(class@, name@, title@), buf@.len() <= 0x7000_0000, old(f).header.end <= 0x0800_0000_0000_0000
ensures ret is Ok, made(ret->Ok_0, *old(f), class@, name@, title@, buf@.len() as int), ret->Ok_0.cycle == cycle, ret->Ok_0.buffer@ == buf@,
  ret->Ok_0.n_bytes == ret->Ok_0.key_len + ret->Ok_0.buffer@.len(),
  ret->Ok_0.seek_key == old(f).header.end, moved(*old(f), *final(f), old(f).header.end + ret->Ok_0.n_bytes),
  ret->Ok_0.encodable(), sized(ret->Ok_0), final(f).wr()
//@start
proof { lemma_str_bound(class@); lemma_str_bound(name@); lemma_str_bound(title@); }
//@rewrite let indent = [^;]*; => let indent = ();
//@before Ok\(key\)
proof { lemma_key_size(key); }
//@end
//@fn new_key_for_basket_internal
requires f.wr(), names_ok(class@, name@, title@)
ensures made(ret, *f, class@, name@, title@, 0), ret.cycle == cycle, ret.n_bytes == ret.key_len, ret.seek_key == 100, ret.buffer@.len() == 0,
  ret.encodable(), sized(ret)
//@start
proof { lemma_str_bound(class@); lemma_str_bound(name@); lemma_str_bound(title@); }
//@before \bkey\s*\}\s*$
proof { lemma_key_size(key); }
//@end
//@fn new_from_object
requires old(f).wr(), names_ok(class@, name@, title@), obj.writable(), old(f).header.end <= 0x0800_0000_0000_0000
ensures ret is Err ==> *final(f) == *old(f),
  ret is Ok ==> {
    let k = ret->Ok_0;
    &&& made(k, *old(f), class@, name@, title@, k.buffer@.len() as int) && k.cycle == 1
    &&& k.n_bytes == k.key_len + k.buffer@.len()
    &&& k.seek_key == old(f).header.end && moved(*old(f), *final(f), old(f).header.end + k.n_bytes)
    &&& k.encodable() && sized(k) && final(f).wr()
  }
//@start
proof { lemma_str_bound(class@); lemma_str_bound(name@); lemma_str_bound(title@); }
//@before Ok\(key\)
proof { lemma_key_size(key); }
//@end
//@fn set_buffer
ensures *final(self) == (Key { buffer: buffer, obj_len: if update_obj_len { buffer@.len() as i32 } else { old(self).obj_len }, ..*old(self) })
//@end
//@fn obj_len
ensures ret == self.obj_len
//@end
//@fn is_compressed
requires 0 <= self.key_len, self.n_bytes >= 0
ensures ret == (self.obj_len != self.n_bytes - self.key_len)
//@end
//@fn load
requires readable(*self, old(file).content()), old(file).reader is Some
ensures final(file).path == old(file).path, final(file).reader is Some, final(file).content() == old(file).content(), ret is Ok ==> loaded(*self, old(file).content(), ret->Ok_0@)
//@end
//@fn bytes
requires readable(*self, old(file).content()), old(file).reader is Some
ensures final(file).path == old(file).path, final(file).reader is Some, final(file).content() == old(file).content(), ret is Ok ==> loaded(*self, old(file).content(), ret->Ok_0@)
//@end
//@fn key_len
ensures ret == self.key_len
//@end
//@fn cycle
ensures ret == self.cycle
//@end
//@fn n_bytes
ensures ret == self.n_bytes
//@end
//@fn seek_key
ensures ret == self.seek_key
//@end
//@fn buffer
ensures *ret == self.buffer
//@end
//@fn rvers
ensures ret == self.rvers
//@end
//@fn class_name
ensures ret@ == self.class@
//@end
//@fn set_cycle
ensures *final(self) == (Key { cycle: cycle, ..*old(self) })
//@end
//@fn set_class
ensures final(self).class@ == class@, *final(self) == (Key { class: final(self).class, ..*old(self) })
//@end
//@fn write_to_file
requires self.left == 0, self.encodable(), self.seek_key >= 0, 0 <= self.key_len, self.seek_key < 0x1000_0000_0000_0000, old(w).writer is Some
ensures final(w).path == old(w).path, final(w).writer is Some,
  ret is Ok ==> final(w).content() == record(old(w).content(), *self)
//@end
//@endimpl
/// the file with the record of the key k written where the key says
pub open spec fn record(s: Seq<u8>, k: Key) -> Seq<u8> {
    laid(laid(s, k.seek_key as int, k.enc()), k.seek_key + k.key_len, k.buffer@)
}
pub proof fn lemma_str_bound(s: Seq<char>)
    ensures str_size(s) >= 1
{ }
/// the object of a record written is what was put into it, uncompressed
pub proof fn lemma_loaded_back(k: Key, c: Seq<u8>, b: Seq<u8>)
    requires k.buffer@.len() == k.obj_len, k.n_bytes == k.key_len + k.obj_len, 0 <= k.key_len, 0 <= k.seek_key, loaded(k, record(c, k), b)
    ensures b == k.buffer@
{ assert(stored(k, record(c, k)) =~= k.buffer@); }
