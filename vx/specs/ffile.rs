// ------------------------------------------------------------------ the file header
//@const oxyroot/src/riofs/file.rs ROOT_MAGIC
//@const oxyroot/src/riofs/file.rs HEADER_LEN
//@const oxyroot/src/riofs/file.rs HEADER_EXTRA_LEN
pub open spec fn magic() -> Seq<u8> { encode_utf8(ROOT_MAGIC@) }
pub proof fn lemma_magic() ensures magic() == seq![114u8, 111u8, 111u8, 116u8]
{
    reveal_strlit("root");
    assert(is_ascii_chars("root"@));
    is_ascii_chars_encode_utf8("root"@);
    assert(magic() =~= seq![114u8, 111u8, 111u8, 116u8]);
}
impl RootFileHeader {
    /// addresses take 64 bits
    pub open spec fn wide(&self) -> bool { self.end > kStartBigFile || self.seek_free > kStartBigFile || self.seek_info > kStartBigFile }
    pub open spec fn word(&self) -> i32 { if self.wide() && self.version < 1000000 { (self.version + 1000000) as i32 } else { self.version } }
    pub open spec fn enc(&self) -> Seq<u8> {
        let p = magic() + be32(self.word() as u32) + be32((self.begin as i32) as u32);
        if self.word() < 1000000 {
            p + be32((self.end as i32) as u32) + be32((self.seek_free as i32) as u32) + be32(self.n_bytes_free as u32) + be32(self.n_free as u32) + be32(self.n_bytes_name as u32)
              + be8(self.units) + be32(self.compression as u32) + be32((self.seek_info as i32) as u32) + be32(self.n_bytes_info as u32) + be16(rvers::UUID as u16) + self.uuid.bytes()
        } else {
            p + be64(self.end as u64) + be64(self.seek_free as u64) + be32(self.n_bytes_free as u32) + be32(self.n_free as u32) + be32(self.n_bytes_name as u32)
              + be8(self.units) + be32(self.compression as u32) + be64(self.seek_info as u64) + be32(self.n_bytes_info as u32) + be16(rvers::UUID as u16) + self.uuid.bytes()
        }
    }
    /// values the format has room for
    pub open spec fn fits_format(&self) -> bool {
        &&& 0 < self.version < 1000000 && i32::MIN <= self.begin <= i32::MAX
        &&& self.wide() || (i32::MIN <= self.end && i32::MIN <= self.seek_free && i32::MIN <= self.seek_info)
    }
}
pub open spec fn hdr_wide(s: Seq<u8>) -> bool { w32(from_at(s, 4)) as i32 > 1000000 }
/// h is the header stored in the first bytes of s
pub open spec fn header_is(h: RootFileHeader, s: Seq<u8>) -> bool {
    let k = if hdr_wide(s) { 8int } else { 0int };
    let m = if hdr_wide(s) { 12int } else { 0int };
    &&& h.version == (w32(from_at(s, 4)) as i32) as int % 1000000
    &&& h.begin == w32(from_at(s, 8)) as i32
    &&& h.end == if hdr_wide(s) { w64(from_at(s, 12)) as i64 } else { (w32(from_at(s, 12)) as i32) as i64 }
    &&& h.seek_free == if hdr_wide(s) { w64(from_at(s, 20)) as i64 } else { (w32(from_at(s, 16)) as i32) as i64 }
    &&& h.n_bytes_free == w32(from_at(s, 20 + k)) as i32 && h.n_free == w32(from_at(s, 24 + k)) as i32 && h.n_bytes_name == w32(from_at(s, 28 + k)) as i32
    &&& h.units == w8(from_at(s, 32 + k)) && h.compression == w32(from_at(s, 33 + k)) as i32
    &&& h.seek_info == if hdr_wide(s) { w64(from_at(s, 45)) as i64 } else { (w32(from_at(s, 37)) as i32) as i64 }
    &&& h.n_bytes_info == w32(from_at(s, 41 + m)) as i32
    &&& forall|i: int| 0 <= i < 16 ==> #[trigger] h.uuid.bytes()[i] == s[47 + m + i]
}
/// a header reads back as it was written, the address width apart
pub proof fn lemma_header_file_round(h: RootFileHeader, s: Seq<u8>)
    requires h.fits_format(), starts_with(s, h.enc())
    ensures forall|g: RootFileHeader| #[trigger] header_is(g, s) ==> g == (RootFileHeader { uuid: g.uuid, ..h }) && g.uuid.bytes() =~= h.uuid.bytes(),
        starts_with(s, magic()), s.len() >= h.enc().len(), h.enc().len() == if h.wide() { 75int } else { 63int }
{
    broadcast use group_words, axiom_uuid;
    lemma_magic(); signed_words();
    let u = h.uuid.bytes();
    let p = magic(); let p1 = p + be32(h.word() as u32); let p2 = p1 + be32((h.begin as i32) as u32);
    let a1 = if h.wide() { p2 + be64(h.end as u64) } else { p2 + be32((h.end as i32) as u32) };
    let a2 = if h.wide() { a1 + be64(h.seek_free as u64) } else { a1 + be32((h.seek_free as i32) as u32) };
    let a3 = a2 + be32(h.n_bytes_free as u32); let a4 = a3 + be32(h.n_free as u32); let a5 = a4 + be32(h.n_bytes_name as u32);
    let a6 = a5 + be8(h.units); let a7 = a6 + be32(h.compression as u32);
    let a8 = if h.wide() { a7 + be64(h.seek_info as u64) } else { a7 + be32((h.seek_info as i32) as u32) };
    let a9 = a8 + be32(h.n_bytes_info as u32); let a10 = a9 + be16(rvers::UUID as u16);
    assert(h.enc() == a10 + u);
    lemma_starts_concat(s, a10, u); lemma_starts_concat(s, a9, be16(rvers::UUID as u16)); lemma_starts_concat(s, a8, be32(h.n_bytes_info as u32));
    if h.wide() {
        lemma_starts_concat(s, a7, be64(h.seek_info as u64)); lemma_starts_concat(s, a1, be64(h.seek_free as u64)); lemma_starts_concat(s, p2, be64(h.end as u64));
    } else {
        lemma_starts_concat(s, a7, be32((h.seek_info as i32) as u32)); lemma_starts_concat(s, a1, be32((h.seek_free as i32) as u32)); lemma_starts_concat(s, p2, be32((h.end as i32) as u32));
    }
    lemma_starts_concat(s, a6, be32(h.compression as u32)); lemma_starts_concat(s, a5, be8(h.units)); lemma_starts_concat(s, a4, be32(h.n_bytes_name as u32));
    lemma_starts_concat(s, a3, be32(h.n_free as u32)); lemma_starts_concat(s, a2, be32(h.n_bytes_free as u32));
    lemma_starts_concat(s, a1, if h.wide() { be64(h.seek_free as u64) } else { be32((h.seek_free as i32) as u32) });
    lemma_starts_concat(s, p1, be32((h.begin as i32) as u32)); lemma_starts_concat(s, p, be32(h.word() as u32));
    let q = a10.len() as int;
    assert forall|i: int| 0 <= i < 16 implies s[q + i] == #[trigger] u[i] by { assert(from_at(s, q).subrange(0, 16)[i] == u[i]); }
    assert forall|g: RootFileHeader| #[trigger] header_is(g, s) implies g == (RootFileHeader { uuid: g.uuid, ..h }) && g.uuid.bytes() =~= h.uuid.bytes() by {
        assert(hdr_wide(s) == h.wide());
    }
}
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
/// the header as write_header brings it up to date
pub open spec fn header_now(f: RootFile) -> RootFileHeader {
    let h = RootFileHeader { n_free: f.spans.0@.len() as i32, ..f.header };
    if h.wide() { RootFileHeader { units: 8, ..h } } else { h }
}
/// the file with its header put into the space before the first record
pub open spec fn headed(s: Seq<u8>, h: RootFileHeader) -> Seq<u8> { laid(laid(s, 0, zeros(h.begin as int)), 0, h.enc()) }
/// writing the header touches nothing from the first record on
pub proof fn lemma_headed(s: Seq<u8>, h: RootFileHeader)
    requires h.fits_format(), 75 <= h.begin
    ensures headed(s, h).len() == if s.len() > h.begin { s.len() as int } else { h.begin as int }, starts_with(headed(s, h), h.enc()),
        forall|i: int| h.begin <= i < s.len() ==> #[trigger] headed(s, h)[i] == s[i]
{
    broadcast use axiom_uuid;
    lemma_magic();
    assert(headed(s, h).subrange(0, h.enc().len() as int) =~= h.enc());
}
/// a record changes only the bytes it owns, and holds its key and its data there
pub proof fn lemma_record(s: Seq<u8>, k: Key)
    requires k.seek_key >= 0, k.key_len == k.enc().len(), k.buffer@.len() <= k.n_bytes - k.key_len, k.key_len > 0
    ensures ({ let t = record(s, k); let a = k.seek_key as int;
        &&& forall|i: int| 0 <= i < s.len() && !(a <= i < a + k.n_bytes) ==> #[trigger] t[i] == s[i]
        &&& t.len() >= a + k.key_len + k.buffer@.len() && t.len() >= s.len() && t.len() <= (if s.len() > a + k.n_bytes { s.len() as int } else { a + k.n_bytes })
        &&& starts_with(from_at(t, a), k.enc()) && starts_with(from_at(t, a + k.key_len), k.buffer@)
    })
{
    let t = record(s, k); let a = k.seek_key as int;
    assert(from_at(t, a).subrange(0, k.enc().len() as int) =~= k.enc());
    assert(from_at(t, a + k.key_len).subrange(0, k.buffer@.len() as int) =~= k.buffer@);
}
// ------------------------------------------------------------------ streamer records (content opaque)
#[verifier::external_body]
pub struct VxRc { x: u8 }
impl VxRc {
    #[verifier::external_body]
    pub fn clone(&self) -> VxRc { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> &Vec<StreamerInfo> { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> usize { unimplemented!() }
}
pub struct WriterList { pub x: Vec<u8> }
#[verifier::external_body]
pub fn vx_addr(s: &StreamerInfo) -> usize { unimplemented!() }
pub open spec fn list_title() -> Seq<char> { "Doubly linked list"@ }
impl WriterList {
    #[verifier::external_body]
    pub fn new() -> WriterList { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, s: &StreamerInfo, a: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn title(&self) -> (r: &str) ensures r@ == list_title() { unimplemented!() }
    #[verifier::external_body]
    pub fn class(&self) -> (r: &str) ensures r@ == "TList"@ { unimplemented!() }
    #[verifier::external_body]
    pub fn marshal(&self, w: &mut WBuffer) -> (ret: super::rbytes::Result<i64>)
        requires old(w).wf()
        ensures ret is Ok ==> final(w).wf() && final(w).v().len() < old(w).v().len() + 0x7000_0000
    { unimplemented!() }
}
pub proof fn lemma_list_names()
    ensures names_ok("TList"@, "StreamerInfo"@, list_title()), encode_utf8("TFile"@).len() == 5, encode_utf8("TDirectory"@).len() == 10
{
    reveal_strlit("TFile"); reveal_strlit("TDirectory"); is_ascii_chars_encode_utf8("TFile"@); is_ascii_chars_encode_utf8("TDirectory"@);
    reveal_strlit("TList"); reveal_strlit("StreamerInfo"); reveal_strlit("Doubly linked list");
    is_ascii_chars_encode_utf8("TList"@); is_ascii_chars_encode_utf8("StreamerInfo"@); is_ascii_chars_encode_utf8("Doubly linked list"@);
}
pub assume_specification<T> [std::mem::replace::<T>] (a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;
/// the streamer list went to the end of the file
pub open spec fn info_written(f: RootFile, g: RootFile) -> bool {
    &&& g.wr() && exists|k: Key| {
        &&& #[trigger] made(k, f, "TList"@, "StreamerInfo"@, list_title(), k.buffer@.len() as int) && k.encodable() && sized(k)
        &&& k.seek_key == f.header.end && k.n_bytes == k.key_len + k.buffer@.len() && g.content() == record(f.content(), k)
        &&& g.header == (RootFileHeader { end: (f.header.end + k.n_bytes) as i64, seek_info: k.seek_key, n_bytes_info: k.n_bytes, ..f.header })
        &&& g.spans.0@ == seq![FreeSegments { first: (f.header.end + k.n_bytes) as i64, last: f.spans.0@[0].last }]
        &&& g.dir == f.dir && g.id == f.id
    }
}
/// the free segment went to the end of the file; it starts where the file now ends
pub open spec fn free_written(f: RootFile, g: RootFile) -> bool {
    &&& g.wr() && exists|k: Key| {
        &&& #[trigger] made(k, f, "TFile"@, f.dir.dir.named.name@, f.dir.dir.named.title@, k.buffer@.len() as int) && k.encodable() && sized(k)
        &&& k.seek_key == f.header.end && k.n_bytes == k.key_len + k.buffer@.len() && g.content() == record(f.content(), k)
        &&& g.header == (RootFileHeader { end: (f.header.end + k.n_bytes) as i64, seek_free: k.seek_key, n_bytes_free: k.n_bytes, ..f.header })
        &&& g.spans.0@ == seq![FreeSegments { first: g.header.end, last: f.spans.0@[0].last }]
        &&& k.buffer@ == g.spans.0@[0].enc()
        &&& g.dir == f.dir && g.id == f.id && g.sinfos == f.sinfos
    }
}
pub open spec fn header_written(f: RootFile, g: RootFile) -> bool {
    &&& g.wr() && g == (RootFile { inner: g.inner, header: header_now(f), ..f })
    &&& g.content() == headed(f.content(), header_now(f))
}
/// what closing does: key list, directory record, streamer list, free segment, header, in that order
pub open spec fn closed_as(f: RootFile, f1: RootFile, f2: RootFile, f3: RootFile, g: RootFile) -> bool {
    saved(f.dir, f, f1.dir, RootFile { dir: f.dir, ..f1 }) && info_written(f1, f2) && free_written(f2, f3) && header_written(f3, g)
}
/// and nothing is left in a buffer
pub open spec fn on_file(g: RootFile) -> bool { g.inner->Writer_0.disk() == g.content() }
//@impl oxyroot/src/riofs/file.rs | RootFile
//@fn write_header
requires old(self).wr(), 0 <= old(self).header.begin <= 1000, old(self).header.version < 1000000
ensures ret is Ok ==> header_written(*old(self), *final(self))
//@start
broadcast use axiom_vec_len, group_acc, axiom_uuid, axiom_str_len;
proof { lemma_magic(); }
//@after WBuffer::new\([^;]*;
proof { acc_start(w); }
//@before self\.write_at\(&buf, 0\)\?;
proof { assert(buf@ =~= zeros(self.header.begin as int)); }
//@end
//@fn write_streamer_info
requires old(self).wr(), old(self).header.seek_info == 0, old(self).header.end <= 0x0400_0000_0000_0000
ensures ret is Ok ==> info_written(*old(self), *final(self))
//@rewrite in binding\.as_ref\(\) => in binding.as_ref().iter()
//@rewrite addr_of!\(\*si\) as usize => vx_addr(si)
//@start
proof { lemma_list_names(); }
//@before Ok\(\(\)\)
proof {
  assert(self.spans.0@ =~= seq![self.spans.0@[0]]);
  assert(made(key, *old(self), "TList"@, "StreamerInfo"@, list_title(), key.buffer@.len() as int));
}
//@end
//@fn write_free_segments
requires old(self).wr(), old(self).header.seek_free == 0, 0 < old(self).header.end <= 0x0400_0000_0000_0000, names_ok("TFile"@, old(self).dir.dir.named.name@, old(self).dir.dir.named.title@)
ensures ret is Ok ==> free_written(*old(self), *final(self))
//@rewrite in self\.spans\.vec\(\) => in self.spans.0.iter()
//@rewrite nbytes\.into\(\) => nbytes as i64
//@before Ok\(\(\)\)
proof {
  assert(self.spans.0@ =~= seq![self.spans.0@[0]]);
  assert(made(key, *old(self), "TFile"@, old(self).dir.dir.named.name@, old(self).dir.dir.named.title@, key.buffer@.len() as int));
}
//@loop 0 for it
invariant it.seq().len() == 1, *it.seq()[0] == self.spans.0@[0], self.spans.0@[0].last == kStartBigFile, self.spans.0@.len() == 1,
  nbytes == 10 * it.index@
//@loop 1 for it
invariant it.seq().len() == 1, *it.seq()[0] == self.spans.0@[0], self.spans.0@[0].last == kStartBigFile, self.spans.0@.len() == 1,
  buf.wf(), buf.offset == 0, buf.v() =~= if it.index@ == 0 { Seq::empty() } else { self.spans.0@[0].enc() }
//@end
//@fn close
//@start
proof { lemma_list_names(); }
//@after &mut self\.dir, dir\);
let ghost f1 = *self;
//@after write_streamer_info\(\)\?;
let ghost f2 = *self;
//@after write_free_segments\(\)\?;
let ghost f3 = *self;
//@before Ok\(\(\)\)
proof { assert(closed_as(*old(self), f1, f2, f3, *self)); }
//@ret ret
requires old(self).wr(), 75 <= old(self).header.begin <= 1000, old(self).header.version < 1000000, old(self).header.seek_info == 0, old(self).header.seek_free == 0,
  0 < old(self).header.end <= 0x0100_0000_0000_0000,
  listable(old(self).dir.keys@), old(self).dir.keys@.len() <= 0xD000, names_ok("TDirectory"@, old(self).dir.dir.named.name@, old(self).dir.dir.named.title@),
  storable(old(self).dir.ctime), 0 <= old(self).dir.seek_dir <= 0x0400_0000_0000_0000, 0 <= old(self).dir.n_bytes_name
ensures ret is Ok ==> on_file(*final(self)) && exists|f1: RootFile, f2: RootFile, f3: RootFile| #[trigger] closed_as(*old(self), f1, f2, f3, *final(self))
//@end
//@endimpl
// ------------------------------------------------------------------ a new file
// #[derive(Default)] as the compiler expands them
impl Default for RootFileHeader {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.version == 0, r.begin == 0, r.end == 0, r.seek_free == 0, r.n_bytes_free == 0, r.n_free == 0, r.n_bytes_name == 0, r.units == 0, r.compression == 0, r.seek_info == 0, r.n_bytes_info == 0
    { unimplemented!() }
}
impl Default for FreeList { #[verifier::external_body] fn default() -> (r: Self) ensures r.0@ == Seq::<FreeSegments>::empty() { unimplemented!() } }
impl Default for RootFile { #[verifier::external_body] fn default() -> Self { unimplemented!() } }
/// the first record of the file f: names of the file, then the directory record
pub open spec fn first_record(k: Key, f: RootFile, name: Seq<char>) -> bool {
    &&& k.class@ == "TFile"@ && k.name@ == name && k.title@.len() == 0 && k.encodable() && sized(k) && !k.wide()
    &&& k.seek_key == consts::kBEGIN && k.n_bytes == f.header.end - consts::kBEGIN && k.n_bytes == k.key_len + k.obj_len
    &&& k.buffer@ == enc_str(encode_utf8(name)) + enc_str(encode_utf8(Seq::<char>::empty())) + f.dir.enc() && k.buffer@.len() <= k.obj_len
    &&& f.header.n_bytes_name == k.key_len + enc_str(encode_utf8(name)).len() + 1
}
pub open spec fn created(f: RootFile, name: Seq<char>) -> bool {
    let h = f.header;
    &&& f.wr() && h.version == rvers::ROOT && h.begin == consts::kBEGIN && h.seek_free == 0 && h.seek_info == 0 && h.n_free == 1 && h.compression == 1 && h.units == 4
    &&& f.dir.seek_dir == h.begin && f.dir.n_bytes_name == h.n_bytes_name && f.dir.keys@.len() == 0 && f.dir.dir.named.name@ == name && f.dir.dir.named.title@.len() == 0
    &&& storable(f.dir.ctime) && storable(f.dir.mtime) && f.dir.dir.rvers == rvers::DIRECTORY
    &&& f.spans.0@ == seq![FreeSegments { first: h.end, last: kStartBigFile }]
    &&& exists|k: Key| #[trigger] first_record(k, f, name) && f.content() == record(headed(Seq::empty(), h), k)
}
//@impl oxyroot/src/riofs/file.rs | RootFileWriter
//@fn new
ensures ret is Ok ==> ret->Ok_0.writer is Some && ret->Ok_0.content() == Seq::<u8>::empty()
//@rewrite AsRef<Path> => VxPath
//@end
//@endimpl
//@impl oxyroot/src/riofs/file.rs | RootFileReader
//@fn new
ensures ret is Ok ==> ret->Ok_0.reader is Some && ret->Ok_0.content() == on_disk(path.text())
//@rewrite AsRef<Path> => VxPath
//@end
//@endimpl
//@impl oxyroot/src/riofs/file.rs | RootFile
//@fn create
requires encode_utf8(path.text()).len() <= 30000
ensures ret is Ok ==> created(ret->Ok_0, path.text())
//@rewrite AsRef<Path> => VxPath
//@start
broadcast use axiom_vec_len, group_acc, axiom_uuid, axiom_str_len;
proof { lemma_list_names(); lemma_str_bound(path.text()); let e = Seq::<char>::empty(); assert(encode_utf8(e).len() == 0); }
//@after WBuffer::new\([^;]*;
proof { acc_start(buf); }
//@before Ok\(f\)
proof {
  assert(f.spans.0@ =~= seq![f.spans.0@[0]]);
  assert(first_record(key, f, path.text()));
}
//@end
//@endimpl
