// ---- TAttFill
//@struct oxyroot/src/rbase/attfill.rs AttFill
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t=AttFill n=@oxyroot/src/rbase/attfill.rs:factory_all_for_register_impl:AttFill:1
//@impl @ | $crate::root::traits::Object for AttFill => impl traits::Object for AttFill
open spec fn class_of(&self) -> Seq<char> { "TAttFill"@ }
//@fn class
//@end
//@endimpl
//@endmacro
//@impl oxyroot/src/rbase/attfill.rs | RVersioner for AttFill
open spec fn vers_of(&self) -> i16 { rvers::ATT_FILL }
//@fn rversion
//@end
//@endimpl
//@impl oxyroot/src/rbase/attfill.rs | Marshaler for AttFill
open spec fn enc(&self) -> Seq<u8> { framed(head(rvers::ATT_FILL) + be16(self.color.code() as u16) + be16(self.style as u16)) }
open spec fn encodable(&self) -> bool { true }
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc, acc_patch;
proof { acc_start(*w); }
//@end
//@endimpl
//@impl oxyroot/src/rbase/attfill.rs | Unmarshaler for AttFill
open spec fn fits(s: Seq<u8>) -> bool { hdr_ok(s) && s.len() >= hdr_n(s) + 4 && hdr_v(s) <= rvers::ATT_FILL }
open spec fn used(s: Seq<u8>) -> int { hdr_n(s) + 4 }
open spec fn is(&self, s: Seq<u8>) -> bool { self.color.code() == w16(from_at(s, hdr_n(s) + 0)) as i16 && self.style == w16(from_at(s, hdr_n(s) + 2)) as i16 }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
open spec fn rejects(s: Seq<u8>) -> bool { hdr_ok(s) && hdr_v(s) > rvers::ATT_FILL }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@rewrite \.into\(\) => .to_string()
//@start
broadcast use group_rd;
proof { rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
impl RoundTrip for AttFill {
    open spec fn same(&self, other: &Self) -> bool { self.color.code() == other.color.code() && self.style == other.style }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        broadcast use group_words, lemma_from_at;
        signed_words();
        let b = be16(self.color.code() as u16) + be16(self.style as u16);
        assert(head(rvers::ATT_FILL) + be16(self.color.code() as u16) + be16(self.style as u16) =~= head(rvers::ATT_FILL) + b);
        lemma_framed(s, rvers::ATT_FILL, b);
        let q = from_at(s, 6);
        lemma_starts_concat(q, be16(self.color.code() as u16), be16(self.style as u16));
        assert(from_at(q, 0) =~= q);
    }
}
// ---- TAttLine
//@struct oxyroot/src/rbase/attline.rs AttLine
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t=AttLine n=@oxyroot/src/rbase/attline.rs:factory_all_for_register_impl:AttLine:1
//@impl @ | $crate::root::traits::Object for AttLine => impl traits::Object for AttLine
open spec fn class_of(&self) -> Seq<char> { "TAttLine"@ }
//@fn class
//@end
//@endimpl
//@endmacro
//@impl oxyroot/src/rbase/attline.rs | RVersioner for AttLine
open spec fn vers_of(&self) -> i16 { rvers::ATT_LINE }
//@fn rversion
//@end
//@endimpl
//@impl oxyroot/src/rbase/attline.rs | Marshaler for AttLine
open spec fn enc(&self) -> Seq<u8> { framed(head(rvers::ATT_LINE) + be16(self.color.code() as u16) + be16(self.style as u16) + be16(self.width as u16)) }
open spec fn encodable(&self) -> bool { true }
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc, acc_patch;
proof { acc_start(*w); }
//@end
//@endimpl
//@impl oxyroot/src/rbase/attline.rs | Unmarshaler for AttLine
open spec fn fits(s: Seq<u8>) -> bool { hdr_ok(s) && s.len() >= hdr_n(s) + 6 && hdr_v(s) <= rvers::ATT_LINE }
open spec fn used(s: Seq<u8>) -> int { hdr_n(s) + 6 }
open spec fn is(&self, s: Seq<u8>) -> bool { self.color.code() == w16(from_at(s, hdr_n(s) + 0)) as i16 && self.style == w16(from_at(s, hdr_n(s) + 2)) as i16 && self.width == w16(from_at(s, hdr_n(s) + 4)) as i16 }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
open spec fn rejects(s: Seq<u8>) -> bool { hdr_ok(s) && hdr_v(s) > rvers::ATT_LINE }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@rewrite \.into\(\) => .to_string()
//@start
broadcast use group_rd;
proof { rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
impl RoundTrip for AttLine {
    open spec fn same(&self, other: &Self) -> bool { self.color.code() == other.color.code() && self.style == other.style && self.width == other.width }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        broadcast use group_words, lemma_from_at;
        signed_words();
        let b = be16(self.color.code() as u16) + be16(self.style as u16) + be16(self.width as u16);
        assert(head(rvers::ATT_LINE) + be16(self.color.code() as u16) + be16(self.style as u16) + be16(self.width as u16) =~= head(rvers::ATT_LINE) + b);
        lemma_framed(s, rvers::ATT_LINE, b);
        let q = from_at(s, 6);
        lemma_starts_concat(q, be16(self.color.code() as u16) + be16(self.style as u16), be16(self.width as u16));
        lemma_starts_concat(q, be16(self.color.code() as u16), be16(self.style as u16));
        assert(from_at(q, 0) =~= q);
    }
}
// ---- TAttMarker
//@struct oxyroot/src/rbase/attmarker.rs AttMarker
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t=AttMarker n=@oxyroot/src/rbase/attmarker.rs:factory_all_for_register_impl:AttMarker:1
//@impl @ | $crate::root::traits::Object for AttMarker => impl traits::Object for AttMarker
open spec fn class_of(&self) -> Seq<char> { "TAttMarker"@ }
//@fn class
//@end
//@endimpl
//@endmacro
//@impl oxyroot/src/rbase/attmarker.rs | RVersioner for AttMarker
open spec fn vers_of(&self) -> i16 { rvers::ATT_MARKER }
//@fn rversion
//@end
//@endimpl
//@impl oxyroot/src/rbase/attmarker.rs | Marshaler for AttMarker
open spec fn enc(&self) -> Seq<u8> { framed(head(rvers::ATT_MARKER) + be16(self.color.code() as u16) + be16(self.style as u16) + be32(f32_bits(self.width))) }
open spec fn encodable(&self) -> bool { true }
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc, acc_patch;
proof { acc_start(*w); }
//@end
//@endimpl
//@impl oxyroot/src/rbase/attmarker.rs | Unmarshaler for AttMarker
open spec fn fits(s: Seq<u8>) -> bool { hdr_ok(s) && s.len() >= hdr_n(s) + 8 && hdr_v(s) <= rvers::ATT_MARKER }
open spec fn used(s: Seq<u8>) -> int { hdr_n(s) + 8 }
open spec fn is(&self, s: Seq<u8>) -> bool { self.color.code() == w16(from_at(s, hdr_n(s) + 0)) as i16 && self.style == w16(from_at(s, hdr_n(s) + 2)) as i16 && f32_bits(self.width) == w32(from_at(s, hdr_n(s) + 4)) }
open spec fn fresh(&self) -> bool { true }
open spec fn skips(k: Option<i32>) -> bool { true }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
open spec fn rejects(s: Seq<u8>) -> bool { hdr_ok(s) && hdr_v(s) > rvers::ATT_MARKER }
proof fn lemma_used(s: Seq<u8>) { }
//@fn unmarshal
//@rewrite \.into\(\) => .to_string()
//@start
broadcast use group_rd;
proof { rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); }
//@end
//@endimpl
impl RoundTrip for AttMarker {
    open spec fn same(&self, other: &Self) -> bool { self.color.code() == other.color.code() && self.style == other.style && f32_bits(self.width) == f32_bits(other.width) }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        broadcast use group_words, lemma_from_at;
        signed_words();
        let b = be16(self.color.code() as u16) + be16(self.style as u16) + be32(f32_bits(self.width));
        assert(head(rvers::ATT_MARKER) + be16(self.color.code() as u16) + be16(self.style as u16) + be32(f32_bits(self.width)) =~= head(rvers::ATT_MARKER) + b);
        lemma_framed(s, rvers::ATT_MARKER, b);
        let q = from_at(s, 6);
        lemma_starts_concat(q, be16(self.color.code() as u16) + be16(self.style as u16), be32(f32_bits(self.width)));
        lemma_starts_concat(q, be16(self.color.code() as u16), be16(self.style as u16));
        assert(from_at(q, 0) =~= q);
    }
}
