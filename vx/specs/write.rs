// ------------------------------------------------------------------ writing a file
pub open spec fn keys_enc(ks: Seq<Key>) -> Seq<u8> decreases ks.len()
{ if ks.len() == 0 { Seq::empty() } else { keys_enc(ks.drop_last()) + ks.last().enc() } }
pub open spec fn keys_len(ks: Seq<Key>) -> int decreases ks.len()
{ if ks.len() == 0 { 0 } else { keys_len(ks.drop_last()) + ks.last().key_len } }
/// keys a directory may list
pub open spec fn listable(ks: Seq<Key>) -> bool {
    forall|i: int| 0 <= i < ks.len() ==> (#[trigger] ks[i]).encodable() && sized(ks[i]) && ks[i].class@ != "TBasket"@ && 0 < ks[i].key_len <= i16::MAX
}
pub proof fn lemma_keys_len(ks: Seq<Key>, n: int)
    requires listable(ks), 0 <= n <= ks.len()
    ensures keys_len(ks.subrange(0, n)) == keys_enc(ks.subrange(0, n)).len(), 0 <= keys_len(ks.subrange(0, n)) <= 0x7FFF * n
    decreases n
{
    if n > 0 {
        lemma_keys_len(ks, n - 1);
        assert(ks.subrange(0, n).drop_last() =~= ks.subrange(0, n - 1));
        assert(ks.subrange(0, n).last() == ks[n - 1]);
    }
}
/// the record a key list is written as
pub open spec fn key_list(ks: Seq<Key>) -> Seq<u8> { be32(ks.len() as u32) + keys_enc(ks) }
//@impl oxyroot/src/riofs/dir.rs | TDirectoryFile
//@fn new
ensures ret.dir.named.name@ == name@, ret.dir.named.title@.len() == 0, ret.dir.rvers == rvers::DIRECTORY, ret.keys@.len() == 0, ret.seek_dir == 0, ret.seek_keys == 0, ret.seek_parent == 0,
  ret.n_bytes_keys == 0, ret.n_bytes_name == 0, storable(ret.ctime), storable(ret.mtime)
//@end
//@fn save_keys
requires old(file).wr(), listable(old(self).keys@), old(self).keys@.len() <= 0xD000, old(file).header.end <= 0x0400_0000_0000_0000,
  names_ok("TDirectory"@, old(self).dir.named.name@, old(self).dir.named.title@)
ensures ret is Ok ==> {
    let d = *final(self); let n = d.n_bytes_keys; let e = old(file).header.end;
    &&& d == (TDirectoryFile { seek_keys: e, n_bytes_keys: n, ..*old(self) })
    &&& final(file).wr() && moved_only(*old(file), *final(file), e + n)
    &&& exists|h: Key| #[trigger] list_record(h, *old(self), *old(file)) && n == h.n_bytes && final(file).content() == record(old(file).content(), h)
  }
//@start
broadcast use axiom_vec_len;
proof { lemma_keys_len(self.keys@, self.keys@.len() as int); assert(self.keys@.subrange(0, self.keys@.len() as int) =~= self.keys@); reveal_strlit("TDirectory"); reveal_strlit("TBasket"); }
//@rewrite for \(i, key\) in self\.keys\.iter\(\)\.enumerate\(\) => for key in self.keys.iter()
//@loop 0 for it
invariant it.seq().len() == self.keys@.len(), forall|i: int| 0 <= i < self.keys@.len() ==> *it.seq()[i] == self.keys@[i], listable(self.keys@), self.keys@.len() <= 0xD000,
  n_bytes == 4 + (if file.big() { 8int } else { 0 }) + keys_len(self.keys@.subrange(0, it.index@ as int)), 0 <= keys_len(self.keys@.subrange(0, it.index@ as int)) <= 0x7FFF * it.index@
//@loopend 0
proof {
  let k = it.index@ as int;
  assert(self.keys@.subrange(0, k + 1).drop_last() =~= self.keys@.subrange(0, k));
  assert(self.keys@.subrange(0, k + 1).last() == self.keys@[k]);
}
//@loop 1 for it
invariant it.seq().len() == self.keys@.len(), forall|i: int| 0 <= i < self.keys@.len() ==> *it.seq()[i] == self.keys@[i], listable(self.keys@),
  buf.wf(), buf.v() =~= be32(self.keys@.len() as u32) + keys_enc(self.keys@.subrange(0, it.index@ as int)), buf.offset == 0
//@loopend 1
proof {
  let k = it.index@ as int;
  assert(self.keys@.subrange(0, k + 1).drop_last() =~= self.keys@.subrange(0, k));
  assert(self.keys@.subrange(0, k + 1).last() == self.keys@[k]);
}
//@afterloop 1
proof { assert(self.keys@.subrange(0, self.keys@.len() as int) =~= self.keys@); }
//@before Ok\(\(\)\)
proof { assert(list_record(hdr, *old(self), *old(file))); }
//@end
//@fn write_header
requires old(file).wr(), storable(old(self).ctime), 0 <= old(self).seek_dir <= 0x0400_0000_0000_0000, 0 <= old(self).n_bytes_name
ensures final(self).same_but_mtime(*old(self)), storable(final(self).mtime),
  ret is Ok ==> final(file).wr() && *final(file) == (RootFile { inner: final(file).inner, ..*old(file) })
    && final(file).content() == laid(old(file).content(), old(self).seek_dir + old(self).n_bytes_name, final(self).enc())
//@rewrite utils::now => now
//@start
broadcast use axiom_vec_len;
//@end
//@fn save
requires old(file).wr(), listable(old(self).keys@), old(self).keys@.len() <= 0xD000, old(file).header.end <= 0x0400_0000_0000_0000,
  names_ok("TDirectory"@, old(self).dir.named.name@, old(self).dir.named.title@),
  storable(old(self).ctime), 0 <= old(self).seek_dir <= 0x0400_0000_0000_0000, 0 <= old(self).n_bytes_name
ensures ret is Ok ==> saved(*old(self), *old(file), *final(self), *final(file))
//@end
//@fn close
requires old(file).wr(), listable(old(self).keys@), old(self).keys@.len() <= 0xD000, old(file).header.end <= 0x0400_0000_0000_0000,
  names_ok("TDirectory"@, old(self).dir.named.name@, old(self).dir.named.title@),
  storable(old(self).ctime), 0 <= old(self).seek_dir <= 0x0400_0000_0000_0000, 0 <= old(self).n_bytes_name
ensures ret is Ok ==> saved(*old(self), *old(file), *final(self), *final(file))
//@end
//@endimpl
impl TDirectoryFile {
    pub open spec fn same_but_mtime(&self, o: TDirectoryFile) -> bool { *self == (TDirectoryFile { mtime: self.mtime, ..o }) }
}
/// like moved, but the file's bytes may have changed too
pub open spec fn moved_only(pre: RootFile, post: RootFile, e: int) -> bool { moved(RootFile { inner: post.inner, ..pre }, post, e) }
/// h is the key of the record that lists the keys of d, put at the end of the file f
pub open spec fn list_record(h: Key, d: TDirectoryFile, f: RootFile) -> bool {
    &&& h.encodable() && sized(h) && h.left == 0 && h.wide() == f.big()
    &&& h.class@ == "TDirectory"@ && h.name@ == d.dir.named.name@ && h.title@ == d.dir.named.title@
    &&& h.seek_key == f.header.end && h.buffer@ == key_list(d.keys@)
    &&& h.obj_len == h.buffer@.len() + (if f.big() { 8int } else { 0 }) && h.n_bytes == h.key_len + h.obj_len
}
/// the key list went to the end of the file, then the directory record was brought up to date in its place
pub open spec fn saved(d: TDirectoryFile, f: RootFile, d2: TDirectoryFile, f2: RootFile) -> bool {
    let e = f.header.end; let n = d2.n_bytes_keys;
    &&& d2.same_but_mtime(TDirectoryFile { seek_keys: e, n_bytes_keys: n, ..d }) && storable(d2.mtime)
    &&& f2.wr() && moved_only(f, f2, e + n)
    &&& exists|h: Key| #[trigger] list_record(h, d, f) && n == h.n_bytes
        && f2.content() == laid(record(f.content(), h), d.seek_dir + d.n_bytes_name, d2.enc())
}
// ------------------------------------------------------------------ the file's own records
#[verifier::external_body]
pub struct StreamerInfo { x: u8 }
#[verifier::external_body]
pub fn vx_is_core_type(s: &str) -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vx_streamer_info_from<T: FactoryItemWrite>(o: &T, d: &mut TDirectoryFile) -> (r: Result<StreamerInfo>) ensures *final(d) == *old(d) { unimplemented!() }
#[verifier::external_body]
pub fn vx_contains_char(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { s.contains(c) }
/// the highest cycle among the keys named n (0: none)
pub open spec fn top_cycle(ks: Seq<Key>, n: Seq<char>) -> int decreases ks.len()
{
    if ks.len() == 0 { 0 } else {
        let c = top_cycle(ks.drop_last(), n);
        if ks.last().name@ == n && ks.last().cycle > c { ks.last().cycle as int } else { c }
    }
}
/// k is the key of the new record put for an object
pub open spec fn put_record(k: Key, f: RootFile, name: Seq<char>, title: Seq<char>, class: Seq<char>) -> bool {
    &&& made(k, f, class, name, title, k.buffer@.len() as int) && k.encodable() && sized(k)
    &&& k.n_bytes == k.key_len + k.buffer@.len() && k.seek_key == f.header.end
    &&& k.cycle == 1 + top_cycle(f.dir.keys@, name)
}
pub open spec fn put_name<T: FactoryItemWrite>(name: Seq<char>, obj: T) -> Seq<char> { if name.len() == 0 { obj.name_of() } else { name } }
//@impl oxyroot/src/riofs/file.rs | RootFile
//@fn mut_dir
ensures *ret == old(self).dir, *final(self) == (RootFile { dir: *final(ret), ..*old(self) })
//@end
//@fn title
ensures ret@ == self.dir.dir.named.title@
//@end
//@fn add_streamer_info
//@trusted the list of streamer infos is opaque here
ensures *final(self) == (RootFile { sinfos: final(self).sinfos, ..*old(self) })
//@end
//@fn find_deep_streamer
//@trusted visitor with closures over generated tables
ensures *final(self) == (RootFile { sinfos: final(self).sinfos, ..*old(self) })
//@end
//@fn put
requires old(self).wr(), obj.writable(), names_ok(obj.class_of(), put_name(name@, *obj), obj.title_of()), old(self).header.end <= 0x0400_0000_0000_0000,
  forall|i: int| 0 <= i < old(self).dir.keys@.len() ==> 0 <= (#[trigger] old(self).dir.keys@[i]).cycle < i16::MAX
ensures name@.contains('/') ==> ret is Err && *final(self) == *old(self),
  ret is Ok ==> {
    let n = old(self).dir.keys@.len() as int; let k = final(self).dir.keys@.last();
    &&& final(self).wr() && final(self).dir.keys@ == old(self).dir.keys@.push(k)
    &&& put_record(k, *old(self), put_name(name@, *obj), obj.title_of(), obj.class_of())
    &&& final(self).content() == record(old(self).content(), k)
    &&& moved_put(*old(self), *final(self), old(self).header.end + k.n_bytes)
  }
//@rewrite name\.contains\('/'\) => vx_contains_char(name, '/')
//@rewrite \bis_core_type\( => vx_is_core_type(
//@rewrite \bstreamer_info_from\( => vx_streamer_info_from(
//@start
let ghost name0 = name@;
//@loop 0 for it
invariant it.seq().len() == self.dir.keys@.len(), forall|i: int| 0 <= i < self.dir.keys@.len() ==> *it.seq()[i] == self.dir.keys@[i], *self == *old(self),
  forall|i: int| 0 <= i < self.dir.keys@.len() ==> 0 <= (#[trigger] self.dir.keys@[i]).cycle < i16::MAX,
  name@ == put_name(name0, *obj), 0 <= cycle < i16::MAX, cycle == top_cycle(self.dir.keys@.subrange(0, it.index@ as int), name@)
//@loopstart 0
proof {
  let k = it.index@ as int;
  assert(self.dir.keys@.subrange(0, k + 1).drop_last() =~= self.dir.keys@.subrange(0, k));
  assert(self.dir.keys@.subrange(0, k + 1).last() == self.dir.keys@[k]);
}
//@afterloop 0
proof { assert(self.dir.keys@.subrange(0, self.dir.keys@.len() as int) =~= self.dir.keys@); }
//@end
//@endimpl
/// only the end, the bytes, the streamer infos and the key list changed
pub open spec fn moved_put(pre: RootFile, post: RootFile, e: int) -> bool {
    moved(RootFile { inner: post.inner, sinfos: post.sinfos, dir: post.dir, ..pre }, post, e) && post.dir == (TDirectoryFile { keys: post.dir.keys, ..pre.dir })
}
