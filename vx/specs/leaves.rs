// ---- TLeafI
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t=LeafI n=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafI:1
//@impl @ | $crate::root::traits::Object for LeafI => impl traits::Object for LeafI
open spec fn class_of(&self) -> Seq<char> { "TLeafI"@ }
//@fn class
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rtree/leaf.rs make_tleaf_variant 0 struct_name=LeafI root_name=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafI:1 field_type=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafI:2
//@struct @ LeafI
impl Default for LeafI {
    // what derive(Default) makes
    #[verifier::external_body]
    fn default() -> (r: Self) ensures i32_zero(r.min), i32_zero(r.max), r.rvers == 0, r.tleaf.fresh_leaf() { unimplemented!() }
}
//@impl @ | LeafI
//@fn new
ensures ret.tleaf == tleaf, ret.rvers == rvers::LeafI, i32_zero(ret.min), i32_zero(ret.max)
//@end
//@endimpl
//@impl @ | RVersioner for LeafI
open spec fn vers_of(&self) -> i16 { rvers::LeafI }
//@fn rversion
//@end
//@endimpl
//@impl @ | Marshaler for LeafI
open spec fn enc(&self) -> Seq<u8> { framed(head(rvers::LeafI) + self.tleaf.enc() + self.min.enc() + self.max.enc()) }
open spec fn encodable(&self) -> bool { self.tleaf.encodable() }
open spec fn lead() -> int { 1 }
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc, acc_patch;
proof { acc_start(*w); self.tleaf.lemma_size(); }
//@end
//@endimpl
//@impl @ | Unmarshaler for LeafI
open spec fn fits(s: Seq<u8>) -> bool { hdr_ok(s) && hdr_v(s) <= rvers::LeafI && TLeaf::fits(from_at(s, hdr_n(s))) && s.len() >= leaf_p(s) + i32_size() + i32_size() }
open spec fn used(s: Seq<u8>) -> int { leaf_p(s) + i32_size() + i32_size() }
open spec fn is(&self, s: Seq<u8>) -> bool { self.rvers == hdr_v(s) && self.tleaf.is(from_at(s, hdr_n(s))) && self.min.is(from_at(s, leaf_p(s))) && self.max.is(from_at(s, leaf_p(s) + i32_size())) }
open spec fn fresh(&self) -> bool { self.tleaf.fresh() }
open spec fn skips(k: Option<i32>) -> bool { noskip(k) }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
open spec fn rejects(s: Seq<u8>) -> bool { hdr_ok(s) && (hdr_v(s) > rvers::LeafI || TLeaf::rejects(from_at(s, hdr_n(s)))) }
proof fn lemma_used(s: Seq<u8>) { TLeaf::lemma_used(from_at(s, hdr_n(s))); }
//@fn unmarshal
//@start
broadcast use group_rd, lemma_from_0, lemma_from_at;
proof { rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); let s = r.rest(); if TLeaf::fits(from_at(s, hdr_n(s))) { TLeaf::lemma_used(from_at(s, hdr_n(s))); } }
//@end
//@endimpl
//@endmacro
impl RoundTrip for LeafI {
    open spec fn same(&self, other: &Self) -> bool { self.tleaf.same(&other.tleaf) && self.min.same(&other.min) && self.max.same(&other.max) }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        let (t, a, b) = (self.tleaf.enc(), self.min.enc(), self.max.enc());
        self.tleaf.lemma_size();
        assert(head(rvers::LeafI) + t + a + b =~= head(rvers::LeafI) + (t + a + b));
        lemma_framed(s, rvers::LeafI, t + a + b);
        let q = from_at(s, 6);
        lemma_starts_concat(q, t + a, b);
        lemma_starts_concat(q, t, a);
        self.tleaf.round_trip(q); self.min.round_trip(from_at(q, t.len() as int)); self.max.round_trip(from_at(q, (t + a).len() as int));
        lemma_from_at(s, 6, t.len() as int); lemma_from_at(s, 6, (t + a).len() as int);
        assert forall|o: Self| #[trigger] o.is(s) implies self.same(&o) by { }
    }
}
// ---- TLeafB
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t=LeafB n=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafB:1
//@impl @ | $crate::root::traits::Object for LeafB => impl traits::Object for LeafB
open spec fn class_of(&self) -> Seq<char> { "TLeafB"@ }
//@fn class
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rtree/leaf.rs make_tleaf_variant 0 struct_name=LeafB root_name=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafB:1 field_type=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafB:2
//@struct @ LeafB
impl Default for LeafB {
    // what derive(Default) makes
    #[verifier::external_body]
    fn default() -> (r: Self) ensures i8_zero(r.min), i8_zero(r.max), r.rvers == 0, r.tleaf.fresh_leaf() { unimplemented!() }
}
//@impl @ | LeafB
//@fn new
ensures ret.tleaf == tleaf, ret.rvers == rvers::LeafB, i8_zero(ret.min), i8_zero(ret.max)
//@end
//@endimpl
//@impl @ | RVersioner for LeafB
open spec fn vers_of(&self) -> i16 { rvers::LeafB }
//@fn rversion
//@end
//@endimpl
//@impl @ | Marshaler for LeafB
open spec fn enc(&self) -> Seq<u8> { framed(head(rvers::LeafB) + self.tleaf.enc() + self.min.enc() + self.max.enc()) }
open spec fn encodable(&self) -> bool { self.tleaf.encodable() }
open spec fn lead() -> int { 1 }
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc, acc_patch;
proof { acc_start(*w); self.tleaf.lemma_size(); }
//@end
//@endimpl
//@impl @ | Unmarshaler for LeafB
open spec fn fits(s: Seq<u8>) -> bool { hdr_ok(s) && hdr_v(s) <= rvers::LeafB && TLeaf::fits(from_at(s, hdr_n(s))) && s.len() >= leaf_p(s) + i8_size() + i8_size() }
open spec fn used(s: Seq<u8>) -> int { leaf_p(s) + i8_size() + i8_size() }
open spec fn is(&self, s: Seq<u8>) -> bool { self.rvers == hdr_v(s) && self.tleaf.is(from_at(s, hdr_n(s))) && self.min.is(from_at(s, leaf_p(s))) && self.max.is(from_at(s, leaf_p(s) + i8_size())) }
open spec fn fresh(&self) -> bool { self.tleaf.fresh() }
open spec fn skips(k: Option<i32>) -> bool { noskip(k) }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
open spec fn rejects(s: Seq<u8>) -> bool { hdr_ok(s) && (hdr_v(s) > rvers::LeafB || TLeaf::rejects(from_at(s, hdr_n(s)))) }
proof fn lemma_used(s: Seq<u8>) { TLeaf::lemma_used(from_at(s, hdr_n(s))); }
//@fn unmarshal
//@start
broadcast use group_rd, lemma_from_0, lemma_from_at;
proof { rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); let s = r.rest(); if TLeaf::fits(from_at(s, hdr_n(s))) { TLeaf::lemma_used(from_at(s, hdr_n(s))); } }
//@end
//@endimpl
//@endmacro
impl RoundTrip for LeafB {
    open spec fn same(&self, other: &Self) -> bool { self.tleaf.same(&other.tleaf) && self.min.same(&other.min) && self.max.same(&other.max) }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        let (t, a, b) = (self.tleaf.enc(), self.min.enc(), self.max.enc());
        self.tleaf.lemma_size();
        assert(head(rvers::LeafB) + t + a + b =~= head(rvers::LeafB) + (t + a + b));
        lemma_framed(s, rvers::LeafB, t + a + b);
        let q = from_at(s, 6);
        lemma_starts_concat(q, t + a, b);
        lemma_starts_concat(q, t, a);
        self.tleaf.round_trip(q); self.min.round_trip(from_at(q, t.len() as int)); self.max.round_trip(from_at(q, (t + a).len() as int));
        lemma_from_at(s, 6, t.len() as int); lemma_from_at(s, 6, (t + a).len() as int);
        assert forall|o: Self| #[trigger] o.is(s) implies self.same(&o) by { }
    }
}
// ---- TLeafS
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t=LeafS n=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafS:1
//@impl @ | $crate::root::traits::Object for LeafS => impl traits::Object for LeafS
open spec fn class_of(&self) -> Seq<char> { "TLeafS"@ }
//@fn class
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rtree/leaf.rs make_tleaf_variant 0 struct_name=LeafS root_name=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafS:1 field_type=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafS:2
//@struct @ LeafS
impl Default for LeafS {
    // what derive(Default) makes
    #[verifier::external_body]
    fn default() -> (r: Self) ensures i16_zero(r.min), i16_zero(r.max), r.rvers == 0, r.tleaf.fresh_leaf() { unimplemented!() }
}
//@impl @ | LeafS
//@fn new
ensures ret.tleaf == tleaf, ret.rvers == rvers::LeafS, i16_zero(ret.min), i16_zero(ret.max)
//@end
//@endimpl
//@impl @ | RVersioner for LeafS
open spec fn vers_of(&self) -> i16 { rvers::LeafS }
//@fn rversion
//@end
//@endimpl
//@impl @ | Marshaler for LeafS
open spec fn enc(&self) -> Seq<u8> { framed(head(rvers::LeafS) + self.tleaf.enc() + self.min.enc() + self.max.enc()) }
open spec fn encodable(&self) -> bool { self.tleaf.encodable() }
open spec fn lead() -> int { 1 }
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc, acc_patch;
proof { acc_start(*w); self.tleaf.lemma_size(); }
//@end
//@endimpl
//@impl @ | Unmarshaler for LeafS
open spec fn fits(s: Seq<u8>) -> bool { hdr_ok(s) && hdr_v(s) <= rvers::LeafS && TLeaf::fits(from_at(s, hdr_n(s))) && s.len() >= leaf_p(s) + i16_size() + i16_size() }
open spec fn used(s: Seq<u8>) -> int { leaf_p(s) + i16_size() + i16_size() }
open spec fn is(&self, s: Seq<u8>) -> bool { self.rvers == hdr_v(s) && self.tleaf.is(from_at(s, hdr_n(s))) && self.min.is(from_at(s, leaf_p(s))) && self.max.is(from_at(s, leaf_p(s) + i16_size())) }
open spec fn fresh(&self) -> bool { self.tleaf.fresh() }
open spec fn skips(k: Option<i32>) -> bool { noskip(k) }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
open spec fn rejects(s: Seq<u8>) -> bool { hdr_ok(s) && (hdr_v(s) > rvers::LeafS || TLeaf::rejects(from_at(s, hdr_n(s)))) }
proof fn lemma_used(s: Seq<u8>) { TLeaf::lemma_used(from_at(s, hdr_n(s))); }
//@fn unmarshal
//@start
broadcast use group_rd, lemma_from_0, lemma_from_at;
proof { rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); let s = r.rest(); if TLeaf::fits(from_at(s, hdr_n(s))) { TLeaf::lemma_used(from_at(s, hdr_n(s))); } }
//@end
//@endimpl
//@endmacro
impl RoundTrip for LeafS {
    open spec fn same(&self, other: &Self) -> bool { self.tleaf.same(&other.tleaf) && self.min.same(&other.min) && self.max.same(&other.max) }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        let (t, a, b) = (self.tleaf.enc(), self.min.enc(), self.max.enc());
        self.tleaf.lemma_size();
        assert(head(rvers::LeafS) + t + a + b =~= head(rvers::LeafS) + (t + a + b));
        lemma_framed(s, rvers::LeafS, t + a + b);
        let q = from_at(s, 6);
        lemma_starts_concat(q, t + a, b);
        lemma_starts_concat(q, t, a);
        self.tleaf.round_trip(q); self.min.round_trip(from_at(q, t.len() as int)); self.max.round_trip(from_at(q, (t + a).len() as int));
        lemma_from_at(s, 6, t.len() as int); lemma_from_at(s, 6, (t + a).len() as int);
        assert forall|o: Self| #[trigger] o.is(s) implies self.same(&o) by { }
    }
}
// ---- TLeafL
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t=LeafL n=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafL:1
//@impl @ | $crate::root::traits::Object for LeafL => impl traits::Object for LeafL
open spec fn class_of(&self) -> Seq<char> { "TLeafL"@ }
//@fn class
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rtree/leaf.rs make_tleaf_variant 0 struct_name=LeafL root_name=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafL:1 field_type=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafL:2
//@struct @ LeafL
impl Default for LeafL {
    // what derive(Default) makes
    #[verifier::external_body]
    fn default() -> (r: Self) ensures i64_zero(r.min), i64_zero(r.max), r.rvers == 0, r.tleaf.fresh_leaf() { unimplemented!() }
}
//@impl @ | LeafL
//@fn new
ensures ret.tleaf == tleaf, ret.rvers == rvers::LeafL, i64_zero(ret.min), i64_zero(ret.max)
//@end
//@endimpl
//@impl @ | RVersioner for LeafL
open spec fn vers_of(&self) -> i16 { rvers::LeafL }
//@fn rversion
//@end
//@endimpl
//@impl @ | Marshaler for LeafL
open spec fn enc(&self) -> Seq<u8> { framed(head(rvers::LeafL) + self.tleaf.enc() + self.min.enc() + self.max.enc()) }
open spec fn encodable(&self) -> bool { self.tleaf.encodable() }
open spec fn lead() -> int { 1 }
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc, acc_patch;
proof { acc_start(*w); self.tleaf.lemma_size(); }
//@end
//@endimpl
//@impl @ | Unmarshaler for LeafL
open spec fn fits(s: Seq<u8>) -> bool { hdr_ok(s) && hdr_v(s) <= rvers::LeafL && TLeaf::fits(from_at(s, hdr_n(s))) && s.len() >= leaf_p(s) + i64_size() + i64_size() }
open spec fn used(s: Seq<u8>) -> int { leaf_p(s) + i64_size() + i64_size() }
open spec fn is(&self, s: Seq<u8>) -> bool { self.rvers == hdr_v(s) && self.tleaf.is(from_at(s, hdr_n(s))) && self.min.is(from_at(s, leaf_p(s))) && self.max.is(from_at(s, leaf_p(s) + i64_size())) }
open spec fn fresh(&self) -> bool { self.tleaf.fresh() }
open spec fn skips(k: Option<i32>) -> bool { noskip(k) }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
open spec fn rejects(s: Seq<u8>) -> bool { hdr_ok(s) && (hdr_v(s) > rvers::LeafL || TLeaf::rejects(from_at(s, hdr_n(s)))) }
proof fn lemma_used(s: Seq<u8>) { TLeaf::lemma_used(from_at(s, hdr_n(s))); }
//@fn unmarshal
//@start
broadcast use group_rd, lemma_from_0, lemma_from_at;
proof { rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); let s = r.rest(); if TLeaf::fits(from_at(s, hdr_n(s))) { TLeaf::lemma_used(from_at(s, hdr_n(s))); } }
//@end
//@endimpl
//@endmacro
impl RoundTrip for LeafL {
    open spec fn same(&self, other: &Self) -> bool { self.tleaf.same(&other.tleaf) && self.min.same(&other.min) && self.max.same(&other.max) }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        let (t, a, b) = (self.tleaf.enc(), self.min.enc(), self.max.enc());
        self.tleaf.lemma_size();
        assert(head(rvers::LeafL) + t + a + b =~= head(rvers::LeafL) + (t + a + b));
        lemma_framed(s, rvers::LeafL, t + a + b);
        let q = from_at(s, 6);
        lemma_starts_concat(q, t + a, b);
        lemma_starts_concat(q, t, a);
        self.tleaf.round_trip(q); self.min.round_trip(from_at(q, t.len() as int)); self.max.round_trip(from_at(q, (t + a).len() as int));
        lemma_from_at(s, 6, t.len() as int); lemma_from_at(s, 6, (t + a).len() as int);
        assert forall|o: Self| #[trigger] o.is(s) implies self.same(&o) by { }
    }
}
// ---- TLeafF
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t=LeafF n=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafF:1
//@impl @ | $crate::root::traits::Object for LeafF => impl traits::Object for LeafF
open spec fn class_of(&self) -> Seq<char> { "TLeafF"@ }
//@fn class
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rtree/leaf.rs make_tleaf_variant 0 struct_name=LeafF root_name=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafF:1 field_type=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafF:2
//@struct @ LeafF
impl Default for LeafF {
    // what derive(Default) makes
    #[verifier::external_body]
    fn default() -> (r: Self) ensures f32_zero(r.min), f32_zero(r.max), r.rvers == 0, r.tleaf.fresh_leaf() { unimplemented!() }
}
//@impl @ | LeafF
//@fn new
ensures ret.tleaf == tleaf, ret.rvers == rvers::LeafF, f32_zero(ret.min), f32_zero(ret.max)
//@end
//@endimpl
//@impl @ | RVersioner for LeafF
open spec fn vers_of(&self) -> i16 { rvers::LeafF }
//@fn rversion
//@end
//@endimpl
//@impl @ | Marshaler for LeafF
open spec fn enc(&self) -> Seq<u8> { framed(head(rvers::LeafF) + self.tleaf.enc() + self.min.enc() + self.max.enc()) }
open spec fn encodable(&self) -> bool { self.tleaf.encodable() }
open spec fn lead() -> int { 1 }
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc, acc_patch;
proof { acc_start(*w); self.tleaf.lemma_size(); }
//@end
//@endimpl
//@impl @ | Unmarshaler for LeafF
open spec fn fits(s: Seq<u8>) -> bool { hdr_ok(s) && hdr_v(s) <= rvers::LeafF && TLeaf::fits(from_at(s, hdr_n(s))) && s.len() >= leaf_p(s) + f32_size() + f32_size() }
open spec fn used(s: Seq<u8>) -> int { leaf_p(s) + f32_size() + f32_size() }
open spec fn is(&self, s: Seq<u8>) -> bool { self.rvers == hdr_v(s) && self.tleaf.is(from_at(s, hdr_n(s))) && self.min.is(from_at(s, leaf_p(s))) && self.max.is(from_at(s, leaf_p(s) + f32_size())) }
open spec fn fresh(&self) -> bool { self.tleaf.fresh() }
open spec fn skips(k: Option<i32>) -> bool { noskip(k) }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
open spec fn rejects(s: Seq<u8>) -> bool { hdr_ok(s) && (hdr_v(s) > rvers::LeafF || TLeaf::rejects(from_at(s, hdr_n(s)))) }
proof fn lemma_used(s: Seq<u8>) { TLeaf::lemma_used(from_at(s, hdr_n(s))); }
//@fn unmarshal
//@start
broadcast use group_rd, lemma_from_0, lemma_from_at;
proof { rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); let s = r.rest(); if TLeaf::fits(from_at(s, hdr_n(s))) { TLeaf::lemma_used(from_at(s, hdr_n(s))); } }
//@end
//@endimpl
//@endmacro
impl RoundTrip for LeafF {
    open spec fn same(&self, other: &Self) -> bool { self.tleaf.same(&other.tleaf) && self.min.same(&other.min) && self.max.same(&other.max) }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        let (t, a, b) = (self.tleaf.enc(), self.min.enc(), self.max.enc());
        self.tleaf.lemma_size();
        assert(head(rvers::LeafF) + t + a + b =~= head(rvers::LeafF) + (t + a + b));
        lemma_framed(s, rvers::LeafF, t + a + b);
        let q = from_at(s, 6);
        lemma_starts_concat(q, t + a, b);
        lemma_starts_concat(q, t, a);
        self.tleaf.round_trip(q); self.min.round_trip(from_at(q, t.len() as int)); self.max.round_trip(from_at(q, (t + a).len() as int));
        lemma_from_at(s, 6, t.len() as int); lemma_from_at(s, 6, (t + a).len() as int);
        assert forall|o: Self| #[trigger] o.is(s) implies self.same(&o) by { }
    }
}
// ---- TLeafD
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t=LeafD n=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafD:1
//@impl @ | $crate::root::traits::Object for LeafD => impl traits::Object for LeafD
open spec fn class_of(&self) -> Seq<char> { "TLeafD"@ }
//@fn class
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rtree/leaf.rs make_tleaf_variant 0 struct_name=LeafD root_name=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafD:1 field_type=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafD:2
//@struct @ LeafD
impl Default for LeafD {
    // what derive(Default) makes
    #[verifier::external_body]
    fn default() -> (r: Self) ensures f64_zero(r.min), f64_zero(r.max), r.rvers == 0, r.tleaf.fresh_leaf() { unimplemented!() }
}
//@impl @ | LeafD
//@fn new
ensures ret.tleaf == tleaf, ret.rvers == rvers::LeafD, f64_zero(ret.min), f64_zero(ret.max)
//@end
//@endimpl
//@impl @ | RVersioner for LeafD
open spec fn vers_of(&self) -> i16 { rvers::LeafD }
//@fn rversion
//@end
//@endimpl
//@impl @ | Marshaler for LeafD
open spec fn enc(&self) -> Seq<u8> { framed(head(rvers::LeafD) + self.tleaf.enc() + self.min.enc() + self.max.enc()) }
open spec fn encodable(&self) -> bool { self.tleaf.encodable() }
open spec fn lead() -> int { 1 }
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc, acc_patch;
proof { acc_start(*w); self.tleaf.lemma_size(); }
//@end
//@endimpl
//@impl @ | Unmarshaler for LeafD
open spec fn fits(s: Seq<u8>) -> bool { hdr_ok(s) && hdr_v(s) <= rvers::LeafD && TLeaf::fits(from_at(s, hdr_n(s))) && s.len() >= leaf_p(s) + f64_size() + f64_size() }
open spec fn used(s: Seq<u8>) -> int { leaf_p(s) + f64_size() + f64_size() }
open spec fn is(&self, s: Seq<u8>) -> bool { self.rvers == hdr_v(s) && self.tleaf.is(from_at(s, hdr_n(s))) && self.min.is(from_at(s, leaf_p(s))) && self.max.is(from_at(s, leaf_p(s) + f64_size())) }
open spec fn fresh(&self) -> bool { self.tleaf.fresh() }
open spec fn skips(k: Option<i32>) -> bool { noskip(k) }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
open spec fn rejects(s: Seq<u8>) -> bool { hdr_ok(s) && (hdr_v(s) > rvers::LeafD || TLeaf::rejects(from_at(s, hdr_n(s)))) }
proof fn lemma_used(s: Seq<u8>) { TLeaf::lemma_used(from_at(s, hdr_n(s))); }
//@fn unmarshal
//@start
broadcast use group_rd, lemma_from_0, lemma_from_at;
proof { rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); let s = r.rest(); if TLeaf::fits(from_at(s, hdr_n(s))) { TLeaf::lemma_used(from_at(s, hdr_n(s))); } }
//@end
//@endimpl
//@endmacro
impl RoundTrip for LeafD {
    open spec fn same(&self, other: &Self) -> bool { self.tleaf.same(&other.tleaf) && self.min.same(&other.min) && self.max.same(&other.max) }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        let (t, a, b) = (self.tleaf.enc(), self.min.enc(), self.max.enc());
        self.tleaf.lemma_size();
        assert(head(rvers::LeafD) + t + a + b =~= head(rvers::LeafD) + (t + a + b));
        lemma_framed(s, rvers::LeafD, t + a + b);
        let q = from_at(s, 6);
        lemma_starts_concat(q, t + a, b);
        lemma_starts_concat(q, t, a);
        self.tleaf.round_trip(q); self.min.round_trip(from_at(q, t.len() as int)); self.max.round_trip(from_at(q, (t + a).len() as int));
        lemma_from_at(s, 6, t.len() as int); lemma_from_at(s, 6, (t + a).len() as int);
        assert forall|o: Self| #[trigger] o.is(s) implies self.same(&o) by { }
    }
}
// ---- TLeafO
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t=LeafO n=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafO:1
//@impl @ | $crate::root::traits::Object for LeafO => impl traits::Object for LeafO
open spec fn class_of(&self) -> Seq<char> { "TLeafO"@ }
//@fn class
//@end
//@endimpl
//@endmacro
//@macro oxyroot/src/rtree/leaf.rs make_tleaf_variant 0 struct_name=LeafO root_name=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafO:1 field_type=@oxyroot/src/rtree/leaf.rs:make_tleaf_variant:LeafO:2
//@struct @ LeafO
impl Default for LeafO {
    // what derive(Default) makes
    #[verifier::external_body]
    fn default() -> (r: Self) ensures bool_zero(r.min), bool_zero(r.max), r.rvers == 0, r.tleaf.fresh_leaf() { unimplemented!() }
}
//@impl @ | LeafO
//@fn new
ensures ret.tleaf == tleaf, ret.rvers == rvers::LeafO, bool_zero(ret.min), bool_zero(ret.max)
//@end
//@endimpl
//@impl @ | RVersioner for LeafO
open spec fn vers_of(&self) -> i16 { rvers::LeafO }
//@fn rversion
//@end
//@endimpl
//@impl @ | Marshaler for LeafO
open spec fn enc(&self) -> Seq<u8> { framed(head(rvers::LeafO) + self.tleaf.enc() + self.min.enc() + self.max.enc()) }
open spec fn encodable(&self) -> bool { self.tleaf.encodable() }
open spec fn lead() -> int { 1 }
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc, acc_patch;
proof { acc_start(*w); self.tleaf.lemma_size(); }
//@end
//@endimpl
//@impl @ | Unmarshaler for LeafO
open spec fn fits(s: Seq<u8>) -> bool { hdr_ok(s) && hdr_v(s) <= rvers::LeafO && TLeaf::fits(from_at(s, hdr_n(s))) && s.len() >= leaf_p(s) + bool_size() + bool_size() }
open spec fn used(s: Seq<u8>) -> int { leaf_p(s) + bool_size() + bool_size() }
open spec fn is(&self, s: Seq<u8>) -> bool { self.rvers == hdr_v(s) && self.tleaf.is(from_at(s, hdr_n(s))) && self.min.is(from_at(s, leaf_p(s))) && self.max.is(from_at(s, leaf_p(s) + bool_size())) }
open spec fn fresh(&self) -> bool { self.tleaf.fresh() }
open spec fn skips(k: Option<i32>) -> bool { noskip(k) }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
open spec fn rejects(s: Seq<u8>) -> bool { hdr_ok(s) && (hdr_v(s) > rvers::LeafO || TLeaf::rejects(from_at(s, hdr_n(s)))) }
proof fn lemma_used(s: Seq<u8>) { TLeaf::lemma_used(from_at(s, hdr_n(s))); }
//@fn unmarshal
//@start
broadcast use group_rd, lemma_from_0, lemma_from_at;
proof { rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); let s = r.rest(); if TLeaf::fits(from_at(s, hdr_n(s))) { TLeaf::lemma_used(from_at(s, hdr_n(s))); } }
//@end
//@endimpl
//@endmacro
impl RoundTrip for LeafO {
    open spec fn same(&self, other: &Self) -> bool { self.tleaf.same(&other.tleaf) && self.min.same(&other.min) && self.max.same(&other.max) }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        let (t, a, b) = (self.tleaf.enc(), self.min.enc(), self.max.enc());
        self.tleaf.lemma_size();
        assert(head(rvers::LeafO) + t + a + b =~= head(rvers::LeafO) + (t + a + b));
        lemma_framed(s, rvers::LeafO, t + a + b);
        let q = from_at(s, 6);
        lemma_starts_concat(q, t + a, b);
        lemma_starts_concat(q, t, a);
        self.tleaf.round_trip(q); self.min.round_trip(from_at(q, t.len() as int)); self.max.round_trip(from_at(q, (t + a).len() as int));
        lemma_from_at(s, 6, t.len() as int); lemma_from_at(s, 6, (t + a).len() as int);
        assert forall|o: Self| #[trigger] o.is(s) implies self.same(&o) by { }
    }
}
// ---- TLeafC
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t=LeafC n=@oxyroot/src/rtree/leaf.rs:factory_all_for_register_impl:LeafC:1
//@impl @ | $crate::root::traits::Object for LeafC => impl traits::Object for LeafC
open spec fn class_of(&self) -> Seq<char> { "TLeafC"@ }
//@fn class
//@end
//@endimpl
//@endmacro
//@struct oxyroot/src/rtree/leaf.rs LeafC
impl Default for LeafC {
    // what derive(Default) makes
    #[verifier::external_body]
    fn default() -> (r: Self) ensures i32_zero(r.min), i32_zero(r.max), r.rvers == 0, r.tleaf.fresh_leaf() { unimplemented!() }
}
//@impl oxyroot/src/rtree/leaf.rs | LeafC
//@fn new
ensures ret.tleaf == tleaf, ret.rvers == rvers::LEAF_C, i32_zero(ret.min), i32_zero(ret.max)
//@end
//@endimpl
//@impl oxyroot/src/rtree/leaf.rs | RVersioner for LeafC
open spec fn vers_of(&self) -> i16 { rvers::LEAF_C }
//@fn rversion
//@end
//@endimpl
//@impl oxyroot/src/rtree/leaf.rs | Marshaler for LeafC
open spec fn enc(&self) -> Seq<u8> { framed(head(rvers::LEAF_C) + self.tleaf.enc() + self.min.enc() + self.max.enc()) }
open spec fn encodable(&self) -> bool { self.tleaf.encodable() }
open spec fn lead() -> int { 1 }
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc, acc_patch;
proof { acc_start(*w); self.tleaf.lemma_size(); }
//@end
//@endimpl
//@impl oxyroot/src/rtree/leaf.rs | Unmarshaler for LeafC
open spec fn fits(s: Seq<u8>) -> bool { hdr_ok(s) && hdr_v(s) <= rvers::LEAF_C && TLeaf::fits(from_at(s, hdr_n(s))) && s.len() >= leaf_p(s) + i32_size() + i32_size() }
open spec fn used(s: Seq<u8>) -> int { leaf_p(s) + i32_size() + i32_size() }
open spec fn is(&self, s: Seq<u8>) -> bool { self.rvers == hdr_v(s) && self.tleaf.is(from_at(s, hdr_n(s))) && self.min.is(from_at(s, leaf_p(s))) && self.max.is(from_at(s, leaf_p(s) + i32_size())) }
open spec fn fresh(&self) -> bool { self.tleaf.fresh() }
open spec fn skips(k: Option<i32>) -> bool { noskip(k) }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
open spec fn rejects(s: Seq<u8>) -> bool { hdr_ok(s) && (hdr_v(s) > rvers::LEAF_C || TLeaf::rejects(from_at(s, hdr_n(s)))) }
proof fn lemma_used(s: Seq<u8>) { TLeaf::lemma_used(from_at(s, hdr_n(s))); }
//@fn unmarshal
//@start
broadcast use group_rd, lemma_from_0, lemma_from_at;
proof { rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); let s = r.rest(); if TLeaf::fits(from_at(s, hdr_n(s))) { TLeaf::lemma_used(from_at(s, hdr_n(s))); } }
//@end
//@endimpl
impl RoundTrip for LeafC {
    open spec fn same(&self, other: &Self) -> bool { self.tleaf.same(&other.tleaf) && self.min.same(&other.min) && self.max.same(&other.max) }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        let (t, a, b) = (self.tleaf.enc(), self.min.enc(), self.max.enc());
        self.tleaf.lemma_size();
        assert(head(rvers::LEAF_C) + t + a + b =~= head(rvers::LEAF_C) + (t + a + b));
        lemma_framed(s, rvers::LEAF_C, t + a + b);
        let q = from_at(s, 6);
        lemma_starts_concat(q, t + a, b);
        lemma_starts_concat(q, t, a);
        self.tleaf.round_trip(q); self.min.round_trip(from_at(q, t.len() as int)); self.max.round_trip(from_at(q, (t + a).len() as int));
        lemma_from_at(s, 6, t.len() as int); lemma_from_at(s, 6, (t + a).len() as int);
        assert forall|o: Self| #[trigger] o.is(s) implies self.same(&o) by { }
    }
}
// ---- TLeafElement
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t=LeafElement n=@oxyroot/src/rtree/leaf.rs:factory_all_for_register_impl:LeafElement:1
//@impl @ | $crate::root::traits::Object for LeafElement => impl traits::Object for LeafElement
open spec fn class_of(&self) -> Seq<char> { "TLeafElement"@ }
//@fn class
//@end
//@endimpl
//@endmacro
//@struct oxyroot/src/rtree/leaf.rs LeafElement
impl Default for LeafElement {
    // what derive(Default) makes
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.id == 0, r.ltype == 0, r.rvers == 0, r.tleaf.fresh_leaf() { unimplemented!() }
}
//@impl oxyroot/src/rtree/leaf.rs | LeafElement
//@fn new
ensures ret.tleaf == tleaf, ret.rvers == rvers::LeafElement, ret.id == -1, ret.ltype == -1
//@end
//@endimpl
//@impl oxyroot/src/rtree/leaf.rs | RVersioner for LeafElement
open spec fn vers_of(&self) -> i16 { rvers::LeafElement }
//@fn rversion
//@end
//@endimpl
//@impl oxyroot/src/rtree/leaf.rs | Marshaler for LeafElement
open spec fn enc(&self) -> Seq<u8> { framed(head(rvers::LeafElement) + self.tleaf.enc() + self.id.enc() + self.ltype.enc()) }
open spec fn encodable(&self) -> bool { self.tleaf.encodable() }
open spec fn lead() -> int { 1 }
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc, acc_patch;
proof { acc_start(*w); self.tleaf.lemma_size(); }
//@end
//@endimpl
//@impl oxyroot/src/rtree/leaf.rs | Unmarshaler for LeafElement
open spec fn fits(s: Seq<u8>) -> bool { hdr_ok(s) && hdr_v(s) <= rvers::LeafElement && TLeaf::fits(from_at(s, hdr_n(s))) && s.len() >= leaf_p(s) + i32_size() + i32_size() }
open spec fn used(s: Seq<u8>) -> int { leaf_p(s) + i32_size() + i32_size() }
open spec fn is(&self, s: Seq<u8>) -> bool { self.rvers == hdr_v(s) && self.tleaf.is(from_at(s, hdr_n(s))) && self.id.is(from_at(s, leaf_p(s))) && self.ltype.is(from_at(s, leaf_p(s) + i32_size())) }
open spec fn fresh(&self) -> bool { self.tleaf.fresh() }
open spec fn skips(k: Option<i32>) -> bool { noskip(k) }
open spec fn headered() -> bool { false }
open spec fn calm() -> bool { true }
open spec fn rejects(s: Seq<u8>) -> bool { hdr_ok(s) && (hdr_v(s) > rvers::LeafElement || TLeaf::rejects(from_at(s, hdr_n(s)))) }
proof fn lemma_used(s: Seq<u8>) { TLeaf::lemma_used(from_at(s, hdr_n(s))); }
//@fn unmarshal
//@start
broadcast use group_rd, lemma_from_0, lemma_from_at;
proof { rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); let s = r.rest(); if TLeaf::fits(from_at(s, hdr_n(s))) { TLeaf::lemma_used(from_at(s, hdr_n(s))); } }
//@end
//@endimpl
impl RoundTrip for LeafElement {
    open spec fn same(&self, other: &Self) -> bool { self.tleaf.same(&other.tleaf) && self.id.same(&other.id) && self.ltype.same(&other.ltype) }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        let (t, a, b) = (self.tleaf.enc(), self.id.enc(), self.ltype.enc());
        self.tleaf.lemma_size();
        assert(head(rvers::LeafElement) + t + a + b =~= head(rvers::LeafElement) + (t + a + b));
        lemma_framed(s, rvers::LeafElement, t + a + b);
        let q = from_at(s, 6);
        lemma_starts_concat(q, t + a, b);
        lemma_starts_concat(q, t, a);
        self.tleaf.round_trip(q); self.id.round_trip(from_at(q, t.len() as int)); self.ltype.round_trip(from_at(q, (t + a).len() as int));
        lemma_from_at(s, 6, t.len() as int); lemma_from_at(s, 6, (t + a).len() as int);
        assert forall|o: Self| #[trigger] o.is(s) implies self.same(&o) by { }
    }
}
