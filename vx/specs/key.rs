// ------------------------------------------------------------------ record keys
//@struct oxyroot/src/riofs/key.rs Key
pub open spec fn seeks_len(wide: bool) -> int { if wide { 16 } else { 8 } }
impl Key {
    pub open spec fn wide(&self) -> bool { self.rvers > 1000 }
    pub open spec fn enc_seeks(&self) -> Seq<u8> {
        if self.wide() { self.enc_fixed() + be64(self.seek_key as u64) + be64(self.seek_pdir as u64) }
        else { self.enc_fixed() + be32((self.seek_key as i32) as u32) + be32((self.seek_pdir as i32) as u32) }
    }
    pub open spec fn enc_fixed(&self) -> Seq<u8> {
        be32(self.n_bytes as u32) + be16(self.rvers as u16) + be32(self.obj_len as u32) + be32(pack(self.datetime.civil()))
            + be16((self.key_len as i16) as u16) + be16(self.cycle as u16)
    }
    /// the sizes and addresses are ones the key's own format holds
    pub open spec fn fits_format(&self) -> bool {
        &&& i16::MIN <= self.key_len <= i16::MAX
        &&& self.wide() || (i32::MIN <= self.seek_key <= i32::MAX && i32::MIN <= self.seek_pdir <= i32::MAX)
    }
    pub open spec fn names_fit(&self) -> bool {
        encode_utf8(self.class@).len() <= i32::MAX && encode_utf8(self.name@).len() <= i32::MAX && encode_utf8(self.title@).len() <= i32::MAX
    }
}
pub open spec fn key_wide(s: Seq<u8>) -> bool { w16(from_at(s, 4)) as i16 > 1000 }
/// where the class, the name, the title and the end of the key are
pub open spec fn key_p0(s: Seq<u8>) -> int { 18 + seeks_len(key_wide(s)) }
pub open spec fn str_end(s: Seq<u8>, p: int) -> int { p + str_hdr(from_at(s, p)) + str_len(from_at(s, p)) }
pub open spec fn str_ok(s: Seq<u8>, p: int) -> bool { 0 <= p <= s.len() && str_fits(from_at(s, p)) }
pub open spec fn key_p1(s: Seq<u8>) -> int { str_end(s, key_p0(s)) }
pub open spec fn key_p2(s: Seq<u8>) -> int { str_end(s, key_p1(s)) }
pub open spec fn key_p3(s: Seq<u8>) -> int { str_end(s, key_p2(s)) }
pub open spec fn is_gap(s: Seq<u8>) -> bool { (w32(s) as i32) < 0 }
pub open spec fn text_is(t: Seq<char>, s: Seq<u8>, p: int) -> bool {
    valid_utf8(str_body(from_at(s, p))) ==> encode_utf8(t) == str_body(from_at(s, p))
}
//@impl oxyroot/src/riofs/key.rs | Marshaler for Key
open spec fn enc(&self) -> Seq<u8> { self.enc_seeks() + enc_str(encode_utf8(self.class@)) + enc_str(encode_utf8(self.name@)) + enc_str(encode_utf8(self.title@)) }
open spec fn encodable(&self) -> bool {
    &&& self.n_bytes >= 0 && storable(self.datetime) && self.names_fit()
    // the width the version announces is the width the seeks are written with
    &&& self.seek_key > kStartBigFile ==> self.rvers >= 1000
}
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc;
proof { acc_start(*w); }
//@end
//@endimpl
//@impl oxyroot/src/riofs/key.rs | Unmarshaler for Key
open spec fn fits(s: Seq<u8>) -> bool {
    s.len() >= 4 && (!is_gap(s) ==> s.len() >= 6 && s.len() >= key_p0(s) && str_ok(s, key_p0(s)) && str_ok(s, key_p1(s)) && str_ok(s, key_p2(s)))
}
open spec fn used(s: Seq<u8>) -> int { if is_gap(s) { 4 } else { key_p3(s) } }
open spec fn is(&self, s: Seq<u8>) -> bool {
    &&& self.n_bytes == w32(s) as i32
    &&& !is_gap(s) ==> {
        &&& self.rvers == w16(from_at(s, 4)) as i16
        &&& self.obj_len == w32(from_at(s, 6)) as i32
        &&& exists_civil(unpack(w32(from_at(s, 10)))) ==> self.datetime.civil() == unpack(w32(from_at(s, 10)))
        &&& self.key_len == w16(from_at(s, 14)) as i16
        &&& self.cycle == w16(from_at(s, 16)) as i16
        &&& self.seek_key == if key_wide(s) { w64(from_at(s, 18)) as i64 } else { (w32(from_at(s, 18)) as i32) as i64 }
        &&& self.seek_pdir == if key_wide(s) { w64(from_at(s, 26)) as i64 } else { (w32(from_at(s, 22)) as i32) as i64 }
        &&& text_is(self.class@, s, key_p0(s)) && text_is(self.name@, s, key_p1(s)) && text_is(self.title@, s, key_p2(s))
    }
}
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@start
broadcast use group_rd;
let ghost s = r.rest();
proof { rd_start(*r); assert(from_at(s, 0) =~= s); }
//@end
//@endimpl
impl RoundTrip for Key {
    open spec fn same(&self, other: &Self) -> bool {
        self.fits_format() ==> {
            &&& other.n_bytes == self.n_bytes && other.rvers == self.rvers && other.obj_len == self.obj_len && other.key_len == self.key_len && other.cycle == self.cycle
            &&& other.seek_key == self.seek_key && other.seek_pdir == self.seek_pdir && other.datetime.civil() == self.datetime.civil()
            &&& other.class@ == self.class@ && other.name@ == self.name@ && other.title@ == self.title@
        }
    }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        broadcast use group_utf8_lib;
        let (c, n, t) = (encode_utf8(self.class@), encode_utf8(self.name@), encode_utf8(self.title@));
        let f = self.enc_seeks();
        lemma_starts_concat(s, f + enc_str(c) + enc_str(n), enc_str(t));
        lemma_starts_concat(s, f + enc_str(c), enc_str(n));
        lemma_starts_concat(s, f, enc_str(c));
        self.fixed_round(s);
        let p0 = f.len() as int; let p1 = p0 + enc_str(c).len(); let p2 = p1 + enc_str(n).len();
        assert((f + enc_str(c)).len() == p1 && (f + enc_str(c) + enc_str(n)).len() == p2);
        lemma_enc_str(from_at(s, p0), c); lemma_enc_str(from_at(s, p1), n); lemma_enc_str(from_at(s, p2), t);
        assert forall|o: Self| #[trigger] o.is(s) implies self.same(&o) by {
            lemma_datetime_round(self.datetime, o.datetime);
            lemma_utf8_inj(o.class@, self.class@); lemma_utf8_inj(o.name@, self.name@); lemma_utf8_inj(o.title@, self.title@);
        }
    }
}
impl Key {
    /// the fixed part, as the reader's offsets see it
    proof fn fixed_round(&self, s: Seq<u8>)
        requires self.n_bytes >= 0, starts_with(s, self.enc_seeks()), storable(self.datetime)
        ensures s.len() >= self.enc_seeks().len(), self.enc_seeks().len() == key_p0(s), !is_gap(s), key_wide(s) == self.wide(),
            w32(s) as i32 == self.n_bytes, w16(from_at(s, 4)) as i16 == self.rvers, w32(from_at(s, 6)) as i32 == self.obj_len,
            w32(from_at(s, 10)) == pack(self.datetime.civil()), w16(from_at(s, 14)) as i16 == self.key_len as i16, w16(from_at(s, 16)) as i16 == self.cycle,
            self.wide() ==> w64(from_at(s, 18)) as i64 == self.seek_key && w64(from_at(s, 26)) as i64 == self.seek_pdir,
            !self.wide() ==> w32(from_at(s, 18)) as i32 == self.seek_key as i32 && w32(from_at(s, 22)) as i32 == self.seek_pdir as i32
    {
        broadcast use group_words;
        let a1 = be32(self.n_bytes as u32); let a2 = a1 + be16(self.rvers as u16); let a3 = a2 + be32(self.obj_len as u32); let a4 = a3 + be32(pack(self.datetime.civil()));
        let a5 = a4 + be16((self.key_len as i16) as u16); let a6 = a5 + be16(self.cycle as u16);
        assert(a6 == self.enc_fixed());
        if self.wide() {
            let a7 = a6 + be64(self.seek_key as u64);
            lemma_starts_concat(s, a7, be64(self.seek_pdir as u64)); lemma_starts_concat(s, a6, be64(self.seek_key as u64));
        } else {
            let a7 = a6 + be32((self.seek_key as i32) as u32);
            lemma_starts_concat(s, a7, be32((self.seek_pdir as i32) as u32)); lemma_starts_concat(s, a6, be32((self.seek_key as i32) as u32));
        }
        lemma_starts_concat(s, a5, be16(self.cycle as u16)); lemma_starts_concat(s, a4, be16((self.key_len as i16) as u16));
        lemma_starts_concat(s, a3, be32(pack(self.datetime.civil()))); lemma_starts_concat(s, a2, be32(self.obj_len as u32));
        lemma_starts_concat(s, a1, be16(self.rvers as u16));
        signed_words();
    }
}
/// storing a signed number in an unsigned word of its width loses nothing
pub proof fn signed_words()
    ensures forall|x: i16| #[trigger] ((x as u16) as i16) == x, forall|x: i32| #[trigger] ((x as u32) as i32) == x, forall|x: i64| #[trigger] ((x as u64) as i64) == x
{
    assert forall|x: i16| #[trigger] ((x as u16) as i16) == x by { assert((x as u16) as i16 == x) by (bit_vector); }
    assert forall|x: i32| #[trigger] ((x as u32) as i32) == x by { assert((x as u32) as i32 == x) by (bit_vector); }
    assert forall|x: i64| #[trigger] ((x as u64) as i64) == x by { assert((x as u64) as i64 == x) by (bit_vector); }
}
