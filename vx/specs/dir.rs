// ------------------------------------------------------------------ directories
/// #[derive(Clone)] and #[derive(Default)] as the compiler expands them
impl Clone for TDirectoryFile { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Default for ObjNamed { #[verifier::external_body] fn default() -> (r: Self) ensures r.name@ == Seq::<char>::empty(), r.title@ == Seq::<char>::empty() { unimplemented!() } }
//@impl oxyroot/src/riofs/dir.rs | Default for TDirectory
//@fn default
ensures ret.rvers == rvers::DIRECTORY, ret.named.name@.len() == 0, ret.named.title@.len() == 0
//@end
//@endimpl
//@impl oxyroot/src/riofs/dir.rs | Default for TDirectoryFile
//@fn default
ensures ret.dir.rvers == rvers::DIRECTORY, ret.n_bytes_keys == 0, ret.n_bytes_name == 0, ret.seek_dir == 0, ret.seek_parent == 0, ret.seek_keys == 0, ret.keys@.len() == 0,
  storable(ret.ctime), storable(ret.mtime), ret.dir.named.name@.len() == 0, ret.dir.named.title@.len() == 0
//@rewrite utils::now => now
//@end
//@endimpl
impl TDirectoryFile {
    pub open spec fn far(&self) -> bool { self.seek_dir > kStartBigFile || self.seek_parent > kStartBigFile || self.seek_keys > kStartBigFile }
    pub open spec fn version(&self) -> i16 { if self.dir.rvers < 1000 && self.far() { (self.dir.rvers + 1000) as i16 } else { self.dir.rvers } }
    pub open spec fn wide(&self) -> bool { self.version() > 1000 }
    pub open spec fn enc_head(&self) -> Seq<u8> {
        be16(self.version() as u16) + be32(pack(self.ctime.civil())) + be32(pack(self.mtime.civil())) + be32(self.n_bytes_keys as u32) + be32(self.n_bytes_name as u32)
    }
    pub open spec fn enc_seeks(&self) -> Seq<u8> {
        if self.wide() { self.enc_head() + be64(self.seek_dir as u64) + be64(self.seek_parent as u64) + be64(self.seek_keys as u64) }
        else { self.enc_head() + be32((self.seek_dir as i32) as u32) + be32((self.seek_parent as i32) as u32) + be32((self.seek_keys as i32) as u32) }
    }
    /// the addresses are ones the record's own format holds
    pub open spec fn fits_format(&self) -> bool {
        self.wide() || (i32::MIN <= self.seek_dir <= i32::MAX && i32::MIN <= self.seek_parent <= i32::MAX && i32::MIN <= self.seek_keys <= i32::MAX)
    }
}
pub open spec fn dir_wide(s: Seq<u8>) -> bool { w16(s) as i16 > 1000 }
//@impl oxyroot/src/riofs/dir.rs | Marshaler for TDirectoryFile
open spec fn enc(&self) -> Seq<u8> { self.enc_seeks() + be16(rvers::UUID as u16) + self.dir._uuid.bytes() }
open spec fn encodable(&self) -> bool { storable(self.ctime) && storable(self.mtime) }
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc, axiom_uuid;
proof { acc_start(*w); }
//@end
//@endimpl
//@impl oxyroot/src/riofs/dir.rs | Unmarshaler for TDirectoryFile
open spec fn fits(s: Seq<u8>) -> bool { s.len() >= 2 && s.len() >= Self::used(s) }
open spec fn used(s: Seq<u8>) -> int { if dir_wide(s) { 60 } else { 48 } }
open spec fn is(&self, s: Seq<u8>) -> bool {
    let p = if dir_wide(s) { 42int } else { 30int };
    &&& self.dir.rvers == w16(s) as i16
    &&& exists_civil(unpack(w32(from_at(s, 2)))) ==> self.ctime.civil() == unpack(w32(from_at(s, 2)))
    &&& exists_civil(unpack(w32(from_at(s, 6)))) ==> self.mtime.civil() == unpack(w32(from_at(s, 6)))
    &&& self.n_bytes_keys == w32(from_at(s, 10)) as i32 && self.n_bytes_name == w32(from_at(s, 14)) as i32
    &&& dir_wide(s) ==> self.seek_dir == w64(from_at(s, 18)) as i64 && self.seek_parent == w64(from_at(s, 26)) as i64 && self.seek_keys == w64(from_at(s, 34)) as i64
    &&& !dir_wide(s) ==> self.seek_dir == w32(from_at(s, 18)) as i32 && self.seek_parent == w32(from_at(s, 22)) as i32 && self.seek_keys == w32(from_at(s, 26)) as i32
    &&& forall|i: int| 0 <= i < 16 ==> #[trigger] self.dir._uuid.bytes()[i] == s[p + 2 + i]
}
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@start
broadcast use group_rd;
let ghost s = r.rest();
proof { rd_start(*r); assert(from_at(s, 0) =~= s); }
//@end
//@endimpl
impl RoundTrip for TDirectoryFile {
    open spec fn same(&self, other: &Self) -> bool {
        self.fits_format() ==> {
            &&& other.n_bytes_keys == self.n_bytes_keys && other.n_bytes_name == self.n_bytes_name
            &&& other.seek_dir == self.seek_dir && other.seek_parent == self.seek_parent && other.seek_keys == self.seek_keys
            &&& other.ctime.civil() == self.ctime.civil() && other.mtime.civil() == self.mtime.civil()
            &&& other.dir.rvers == self.version() && other.dir._uuid.bytes() =~= self.dir._uuid.bytes()
        }
    }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        broadcast use group_words, axiom_uuid;
        let u = self.dir._uuid.bytes();
        let f = self.enc_seeks();
        lemma_starts_concat(s, f + be16(rvers::UUID as u16), u);
        lemma_starts_concat(s, f, be16(rvers::UUID as u16));
        let a1 = be16(self.version() as u16); let a2 = a1 + be32(pack(self.ctime.civil())); let a3 = a2 + be32(pack(self.mtime.civil())); let a4 = a3 + be32(self.n_bytes_keys as u32);
        let a5 = a4 + be32(self.n_bytes_name as u32);
        assert(a5 == self.enc_head());
        if self.wide() {
            let a6 = a5 + be64(self.seek_dir as u64); let a7 = a6 + be64(self.seek_parent as u64);
            lemma_starts_concat(s, a7, be64(self.seek_keys as u64)); lemma_starts_concat(s, a6, be64(self.seek_parent as u64)); lemma_starts_concat(s, a5, be64(self.seek_dir as u64));
        } else {
            let a6 = a5 + be32((self.seek_dir as i32) as u32); let a7 = a6 + be32((self.seek_parent as i32) as u32);
            lemma_starts_concat(s, a7, be32((self.seek_keys as i32) as u32)); lemma_starts_concat(s, a6, be32((self.seek_parent as i32) as u32)); lemma_starts_concat(s, a5, be32((self.seek_dir as i32) as u32));
        }
        lemma_starts_concat(s, a4, be32(self.n_bytes_name as u32)); lemma_starts_concat(s, a3, be32(self.n_bytes_keys as u32));
        lemma_starts_concat(s, a2, be32(pack(self.mtime.civil()))); lemma_starts_concat(s, a1, be32(pack(self.ctime.civil())));
        signed_words();
        let p = f.len() as int;
        assert((f + be16(rvers::UUID as u16)).len() == p + 2);
        assert forall|i: int| 0 <= i < 16 implies s[p + 2 + i] == #[trigger] u[i] by { assert(from_at(s, p + 2).subrange(0, 16)[i] == u[i]); }
        assert forall|o: Self| #[trigger] o.is(s) implies self.same(&o) by {
            lemma_datetime_round(self.ctime, o.ctime); lemma_datetime_round(self.mtime, o.mtime);
        }
    }
}
/// every address a writer produces fits the directory record
pub proof fn lemma_dir_fits(d: TDirectoryFile)
    requires 0 < d.dir.rvers < 1000, d.seek_dir >= 0, d.seek_parent >= 0, d.seek_keys >= 0
    ensures d.fits_format()
{ }
