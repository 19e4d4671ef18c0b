// ------------------------------------------------------------------ version guards, header framing
//@freefn oxyroot/src/rbytes/mod.rs ensure_maximum_supported_version
//@rewrite \.into\(\) => .to_string()
ensures ret is Ok <==> read_version <= max_supported_version,
  ret is Err ==> ret->Err_0 is VersionTooHigh && ret->Err_0->VersionTooHigh_version_read == read_version && ret->Err_0->max_expected == max_supported_version && ret->Err_0->VersionTooHigh_class@ == class_involved@
//@end
//@freefn oxyroot/src/rbytes/mod.rs ensure_minimum_supported_version
//@rewrite \.into\(\) => .to_string()
ensures ret is Ok <==> read_version > min_supported_version,
  ret is Err ==> ret->Err_0 is VersionTooLow && ret->Err_0->VersionTooLow_version_read == read_version && ret->Err_0->min_expected == min_supported_version && ret->Err_0->VersionTooLow_class@ == class_involved@
//@end
/// a header written, a body appended and the header closed: the reader finds the version and the size of all of it
pub proof fn lemma_header_round(w0: WBuffer, w1: WBuffer, w2: WBuffer, w3: WBuffer, vers: i16, r: RBuffer)
    requires w0.wf(), appended(w0, w1, be32(0) + be16(vers as u16)), w2.wf(), starts_with(w2.v(), w1.v()), w2.offset == w0.offset, w2.at() - w0.at() - 4 < 0x4000_0000,
        patched(w2, w3, w0.v().len() as int, be32(count_word((w2.at() - w0.at() - 4) as u32))),
        r.wf(), r.rest() == from_at(w3.v(), w0.v().len() as int)
    ensures has_count(r.rest()), w32(r.rest()) & 0xBFFF_FFFF == w2.at() - w0.at() - 4, w16(from_at(r.rest(), 4)) as i16 == vers,
        starts_with(w3.v(), w0.v()), from_at(w3.v(), w0.v().len() as int + 6) == from_at(w2.v(), w1.v().len() as int), w3.v().len() == w2.v().len()
{
    broadcast use group_words, lemma_from_at;
    let n = w0.v().len() as int; let a = w2.v(); let b = w3.v();
    lemma_count_word(w2.at() - w0.at() - 4);
    assert forall|i: int| 0 <= i < w1.v().len() implies a[i] == w1.v()[i] by { assert(a.subrange(0, w1.v().len() as int)[i] == a[i]); }
    let hv = be16(vers as u16);
    assert(from_at(b, n).subrange(0, 4) =~= be32(count_word((w2.at() - w0.at() - 4) as u32)));
    assert(starts_with(from_at(b, n), be32(count_word((w2.at() - w0.at() - 4) as u32))));
    assert forall|i: int| 0 <= i < 2 implies b[n + 4 + i] == hv[i] by { assert(w1.v()[n + 4 + i] == (w0.v() + (be32(0) + hv))[n + 4 + i]); }
    assert(from_at(b, n + 4).subrange(0, 2) =~= hv);
    assert(starts_with(from_at(from_at(b, n), 4), hv));
    let v = vers; assert((v as u16) as i16 == v) by (bit_vector);
    assert(b.subrange(0, n) =~= w0.v());
    assert(from_at(b, n + 6) =~= from_at(a, n + 6));
}
