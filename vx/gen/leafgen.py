"""Writes vx/specs/leaves.rs: the leaf variants share one shape, so their contracts are made from one text."""
F = "oxyroot/src/rtree/leaf.rs"
out = []
for T, cls, V, ty, rd in [("LeafI", "TLeafI", "LeafI", "i32", 0), ("LeafB", "TLeafB", "LeafB", "i8", 0), ("LeafS", "TLeafS", "LeafS", "i16", 0),
                          ("LeafL", "TLeafL", "LeafL", "i64", 0), ("LeafF", "TLeafF", "LeafF", "f32", 0), ("LeafD", "TLeafD", "LeafD", "f64", 0),
                          ("LeafO", "TLeafO", "LeafO", "bool", 0), ("LeafC", "TLeafC", "LEAF_C", "i32", 0), ("LeafElement", "TLeafElement", "LeafElement", "i32", 0)]:
    mac = T not in ("LeafC", "LeafElement")
    a, b = ("id", "ltype") if T == "LeafElement" else ("min", "max")
    S = "@" if mac else F
    nm = f"@{F}:make_tleaf_variant:{T}:1" if mac else f"@{F}:factory_all_for_register_impl:{T}:1"
    M = f"//@macro {F} make_tleaf_variant 0 struct_name={T} root_name=@{F}:make_tleaf_variant:{T}:1 field_type=@{F}:make_tleaf_variant:{T}:2"
    new = {"LeafElement": "ret.id == -1, ret.ltype == -1"}.get(T, f"{ty}_zero(ret.{a}), {ty}_zero(ret.{b})")
    out.append(f'''// ---- {cls}
//@macro oxyroot/src/rtypes/factory.rs factory_fn_register_impl 0 t={T} n={nm}
//@impl @ | $crate::root::traits::Object for {T} => impl traits::Object for {T}
open spec fn class_of(&self) -> Seq<char> {{ "{cls}"@ }}
//@fn class
//@end
//@endimpl
//@endmacro
{M if mac else ""}
//@struct {S} {T}
impl Default for {T} {{
    // what derive(Default) makes
    #[verifier::external_body]
    fn default() -> (r: Self) ensures {"r.id == 0, r.ltype == 0" if a == "id" else f"{ty}_zero(r.{a}), {ty}_zero(r.{b})"}, r.rvers == 0, r.tleaf.fresh_leaf() {{ unimplemented!() }}
}}
//@impl {S} | {T}
//@fn new
ensures ret.tleaf == tleaf, ret.rvers == rvers::{V}, {new}
//@end
//@endimpl
//@impl {S} | RVersioner for {T}
open spec fn vers_of(&self) -> i16 {{ rvers::{V} }}
//@fn rversion
//@end
//@endimpl
//@impl {S} | Marshaler for {T}
open spec fn enc(&self) -> Seq<u8> {{ framed(head(rvers::{V}) + self.tleaf.enc() + self.{a}.enc() + self.{b}.enc()) }}
open spec fn encodable(&self) -> bool {{ self.tleaf.encodable() }}
open spec fn lead() -> int {{ 1 }}
//@fn marshal
//@start
broadcast use axiom_vec_len, group_acc, acc_patch;
proof {{ acc_start(*w); self.tleaf.lemma_size(); }}
//@end
//@endimpl
//@impl {S} | Unmarshaler for {T}
open spec fn fits(s: Seq<u8>) -> bool {{ hdr_ok(s) && hdr_v(s) <= rvers::{V} && TLeaf::fits(from_at(s, hdr_n(s))) && s.len() >= leaf_p(s) + {ty}_size() + {ty}_size() }}
open spec fn used(s: Seq<u8>) -> int {{ leaf_p(s) + {ty}_size() + {ty}_size() }}
open spec fn is(&self, s: Seq<u8>) -> bool {{ self.rvers == hdr_v(s) && self.tleaf.is(from_at(s, hdr_n(s))) && self.{a}.is(from_at(s, leaf_p(s))) && self.{b}.is(from_at(s, leaf_p(s) + {ty}_size())) }}
open spec fn fresh(&self) -> bool {{ self.tleaf.fresh() }}
open spec fn skips(k: Option<i32>) -> bool {{ noskip(k) }}
open spec fn headered() -> bool {{ false }}
open spec fn calm() -> bool {{ true }}
open spec fn rejects(s: Seq<u8>) -> bool {{ hdr_ok(s) && (hdr_v(s) > rvers::{V} || TLeaf::rejects(from_at(s, hdr_n(s)))) }}
proof fn lemma_used(s: Seq<u8>) {{ TLeaf::lemma_used(from_at(s, hdr_n(s))); }}
//@fn unmarshal
//@start
broadcast use group_rd, lemma_from_0, lemma_from_at;
proof {{ rd_start(*r); assert(from_at(r.rest(), 0) =~= r.rest()); let s = r.rest(); if TLeaf::fits(from_at(s, hdr_n(s))) {{ TLeaf::lemma_used(from_at(s, hdr_n(s))); }} }}
//@end
//@endimpl
{"//@endmacro" if mac else ""}
impl RoundTrip for {T} {{
    open spec fn same(&self, other: &Self) -> bool {{ self.tleaf.same(&other.tleaf) && self.{a}.same(&other.{a}) && self.{b}.same(&other.{b}) }}
    proof fn modes() {{}}
    proof fn round_trip(&self, s: Seq<u8>) {{
        let (t, a, b) = (self.tleaf.enc(), self.{a}.enc(), self.{b}.enc());
        self.tleaf.lemma_size();
        assert(head(rvers::{V}) + t + a + b =~= head(rvers::{V}) + (t + a + b));
        lemma_framed(s, rvers::{V}, t + a + b);
        let q = from_at(s, 6);
        lemma_starts_concat(q, t + a, b);
        lemma_starts_concat(q, t, a);
        self.tleaf.round_trip(q); self.{a}.round_trip(from_at(q, t.len() as int)); self.{b}.round_trip(from_at(q, (t + a).len() as int));
        lemma_from_at(s, 6, t.len() as int); lemma_from_at(s, 6, (t + a).len() as int);
        assert forall|o: Self| #[trigger] o.is(s) implies self.same(&o) by {{ }}
    }}
}}''')
open(__file__.replace("gen/leafgen.py", "specs/leaves.rs"), "w").write("\n".join(x for x in "\n".join(out).split("\n") if x) + "\n")
