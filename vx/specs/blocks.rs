// ------------------------------------------------------------------ free segments
//@struct oxyroot/src/riofs/blocks.rs FreeSegments
//@struct oxyroot/src/riofs/blocks.rs FreeList
impl FreeSegments {
    pub open spec fn wide(&self) -> bool { self.last > kStartBigFile }
    /// both bounds fit the width the record is written with
    pub open spec fn fits_width(&self) -> bool { self.wide() || (i32::MIN <= self.first <= i32::MAX && i32::MIN <= self.last) }
}
pub open spec fn span_wide(s: Seq<u8>) -> bool { w16(s) as i16 > 1000 }
//@impl oxyroot/src/riofs/blocks.rs | FreeSegments
//@fn new
ensures ret.first == first, ret.last == last
//@end
//@fn size_of
ensures ret == self.enc().len()
//@end
//@endimpl
//@impl oxyroot/src/riofs/blocks.rs | Marshaler for FreeSegments
open spec fn enc(&self) -> Seq<u8> {
    if self.wide() { be16(1001u16) + be64(self.first as u64) + be64(self.last as u64) }
    else { be16(1u16) + be32((self.first as i32) as u32) + be32((self.last as i32) as u32) }
}
open spec fn encodable(&self) -> bool { true }
//@fn marshal
//@start
broadcast use axiom_vec_len, lemma_appended;
//@end
//@endimpl
//@impl oxyroot/src/riofs/blocks.rs | Unmarshaler for FreeSegments
open spec fn fits(s: Seq<u8>) -> bool { s.len() >= 2 && s.len() >= Self::used(s) }
open spec fn used(s: Seq<u8>) -> int { if span_wide(s) { 18 } else { 10 } }
open spec fn is(&self, s: Seq<u8>) -> bool {
    if span_wide(s) { self.first == w64(from_at(s, 2)) as i64 && self.last == w64(from_at(s, 10)) as i64 }
    else { self.first == w32(from_at(s, 2)) as i32 && self.last == w32(from_at(s, 6)) as i32 }
}
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@start
broadcast use lemma_from_at, lemma_consumed;
proof { assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
impl RoundTrip for FreeSegments {
    open spec fn same(&self, other: &Self) -> bool { self.fits_width() ==> *self == *other }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        broadcast use group_words, lemma_from_at;
        let (a, b) = (self.first, self.last);
        assert((a as u64) as i64 == a && (b as u64) as i64 == b) by (bit_vector);
        let (a, b) = (self.first as i32, self.last as i32);
        assert((a as u32) as i32 == a && (b as u32) as i32 == b) by (bit_vector);
        assert((1u16 as i16) == 1 && (1001u16 as i16) == 1001) by (bit_vector);
        if self.wide() {
            lemma_starts_concat(s, be16(1001u16) + be64(self.first as u64), be64(self.last as u64));
            lemma_starts_concat(s, be16(1001u16), be64(self.first as u64));
        } else {
            lemma_starts_concat(s, be16(1u16) + be32((self.first as i32) as u32), be32((self.last as i32) as u32));
            lemma_starts_concat(s, be16(1u16), be32((self.first as i32) as u32));
        }
    }
}
//@impl oxyroot/src/riofs/blocks.rs | FreeList
//@fn vec
ensures *ret == old(self).0, final(self).0 == *final(ret)
//@end
//@fn append
ensures final(self).0@ == old(self).0@.push(seg)
//@end
//@fn len
ensures ret == self.0@.len()
//@end
//@endimpl
