// ------------------------------------------------------------------ round trips (lemmas over the contracts)
pub trait RoundTrip: Marshaler + Unmarshaler {
    spec fn same(&self, other: &Self) -> bool;
    proof fn modes() ensures Self::skips(None), Self::skips(Some(0i32)), Self::calm();
    /// what marshal writes, unmarshal reads back, whatever follows it
    proof fn round_trip(&self, s: Seq<u8>)
        requires self.encodable(), starts_with(s, self.enc())
        ensures Self::fits(s), Self::used(s) == self.enc().len(), forall|o: Self| #[trigger] o.is(s) ==> self.same(&o);
}
impl RoundTrip for i8 {
    open spec fn same(&self, other: &Self) -> bool { *self == *other }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) { broadcast use group_words; let x = *self; assert((x as u8) as i8 == x) by (bit_vector); }
}
impl RoundTrip for u8 {
    open spec fn same(&self, other: &Self) -> bool { *self == *other }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) { broadcast use group_words;  }
}
impl RoundTrip for i16 {
    open spec fn same(&self, other: &Self) -> bool { *self == *other }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) { broadcast use group_words; let x = *self; assert((x as u16) as i16 == x) by (bit_vector); }
}
impl RoundTrip for u16 {
    open spec fn same(&self, other: &Self) -> bool { *self == *other }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) { broadcast use group_words;  }
}
impl RoundTrip for i32 {
    open spec fn same(&self, other: &Self) -> bool { *self == *other }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) { broadcast use group_words; let x = *self; assert((x as u32) as i32 == x) by (bit_vector); }
}
impl RoundTrip for u32 {
    open spec fn same(&self, other: &Self) -> bool { *self == *other }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) { broadcast use group_words;  }
}
impl RoundTrip for i64 {
    open spec fn same(&self, other: &Self) -> bool { *self == *other }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) { broadcast use group_words; let x = *self; assert((x as u64) as i64 == x) by (bit_vector); }
}
impl RoundTrip for u64 {
    open spec fn same(&self, other: &Self) -> bool { *self == *other }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) { broadcast use group_words;  }
}
impl RoundTrip for f32 {
    open spec fn same(&self, other: &Self) -> bool { f32_bits(*self) == f32_bits(*other) }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) { broadcast use group_words;  }
}
impl RoundTrip for f64 {
    open spec fn same(&self, other: &Self) -> bool { f64_bits(*self) == f64_bits(*other) }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) { broadcast use group_words;  }
}
impl RoundTrip for bool {
    open spec fn same(&self, other: &Self) -> bool { *self == *other }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) { broadcast use group_words;  }
}
impl RoundTrip for String {
    open spec fn same(&self, other: &Self) -> bool { self@ == other@ }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        broadcast use group_words, group_utf8_lib;
        let b = encode_utf8(self@);
        lemma_enc_str(s, b);
        assert(valid_utf8(b));
        assert forall|o: Self| #[trigger] o.is(s) implies self.same(&o) by { lemma_utf8_inj(o@, self@); }
    }
}
pub proof fn lemma_enc_str(s: Seq<u8>, b: Seq<u8>)
    requires starts_with(s, enc_str(b)), b.len() <= u32::MAX
    ensures str_fits(s), str_hdr(s) + str_len(s) == enc_str(b).len(), str_body(s) == b
{
    broadcast use group_words;
    let n = b.len() as int;
    if n < 255 {
        let e = seq![b.len() as u8] + b;
        assert(s.subrange(0, e.len() as int)[0] == e[0]);
        assert(s[0] == n as u8);
        assert(str_body(s) =~= b) by {
            assert forall|i: int| 0 <= i < n implies s[1 + i] == b[i] by { assert(s.subrange(0, e.len() as int)[1 + i] == e[1 + i]); }
        }
    } else {
        let h = seq![255u8]; let e = h + be32(b.len() as u32) + b;
        assert(s.subrange(0, e.len() as int)[0] == e[0]);
        assert(e =~= h + (be32(b.len() as u32) + b));
        lemma_starts_concat(s, h, be32(b.len() as u32) + b);
        lemma_starts_concat(from_at(s, 1), be32(b.len() as u32), b);
        assert(from_at(from_at(s, 1), 4) == from_at(s, 5)) by { lemma_from_at(s, 1, 4); }
        assert(str_body(s) =~= b) by { assert(from_at(s, 5).subrange(0, n) =~= s.subrange(5, 5 + n)); }
    }
}
pub proof fn lemma_list_round<T: RoundTrip>(v: Seq<T>, s: Seq<u8>)
    requires starts_with(s, list_enc(v)), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i].encodable()
    ensures list_fits::<T>(s, v.len() as int), list_used::<T>(s, v.len() as int) == list_enc(v).len(),
        forall|o: Seq<T>, i: int| #![trigger list_is(o, s), v[i]] #![trigger list_is(o, s), o[i]] o.len() == v.len() && list_is(o, s) && 0 <= i < v.len() ==> v[i].same(&o[i]),
    decreases v.len()
{
    if v.len() > 0 {
        let p = v.drop_last(); let l = v.last(); let n = v.len() - 1;
        lemma_starts_concat(s, list_enc(p), l.enc());
        assert(forall|i: int| 0 <= i < p.len() ==> p[i] == v[i]);
        lemma_list_round(p, s);
        assert(v[n].encodable());
        let t = from_at(s, list_used::<T>(s, n));
        l.round_trip(t);
        assert forall|i: int| 0 <= i < v.len() implies T::fits(from_at(s, #[trigger] list_used::<T>(s, i))) by {}
        assert forall|o: Seq<T>, i: int| #![trigger list_is(o, s), v[i]] #![trigger list_is(o, s), o[i]] o.len() == v.len() && list_is(o, s) && 0 <= i < v.len() implies v[i].same(&o[i]) by {
            assert(o[i].is(from_at(s, list_used::<T>(s, i))));
            if i < n {
                let q = o.drop_last();
                assert forall|j: int| 0 <= j < q.len() implies #[trigger] q[j].is(from_at(s, list_used::<T>(s, j))) by { assert(q[j] == o[j]); }
                assert(list_is(q, s));
                assert(p[i].same(&q[i]));
            }
        }
    }
}
impl<T: RoundTrip + Default + UnmarshalerInto<Item = T>> RoundTrip for Vec<T> {
    open spec fn same(&self, other: &Self) -> bool { self@.len() == other@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).same(&other@[i]) }
    proof fn modes() {}
    proof fn round_trip(&self, s: Seq<u8>) {
        broadcast use group_words;
        let n = self@.len();
        T::modes();
        lemma_starts_concat(s, be32(n as u32), list_enc(self@));
        lemma_list_round(self@, from_at(s, 4));
        let x = n as i32; assert((x as u32) as i32 == x) by (bit_vector);
        assert(n as u32 == (n as i32) as u32);
    }
}
impl<T: RoundTrip + Default + UnmarshalerInto<Item = T>, const N: usize> RoundTrip for [T; N] {
    open spec fn same(&self, other: &Self) -> bool { forall|i: int| 0 <= i < N ==> (#[trigger] self@[i]).same(&other@[i]) }
    proof fn modes() { T::modes(); }
    proof fn round_trip(&self, s: Seq<u8>) {
        T::modes();
        lemma_list_round(self@, s);
    }
}
