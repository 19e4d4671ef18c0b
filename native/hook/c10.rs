include!("files.rs");
use crate::rbytes::rbuffer::RBuffer;
use crate::{Marshaler, Unmarshaler};
use vr::blocks::FreeSegments;
fn enc(a: i64, b: i64) -> Vec<u8> { if b > 2_000_000_000 { cat(&[rbe(1001, 2), rbe(a as u64, 8), rbe(b as u64, 8)]) } else { cat(&[rbe(1, 2), rbe(a as u64, 4), rbe(b as u64, 4)]) } }
pub fn run(x: &mut Ctx) {
    x.case("free segment written and read back", 3000, |g, _| {
        let pos = |g: &mut Gen| match g.below(4) { 0 => 2_000_000_000 + g.range(-2, 2), 1 => g.below(2_000_000_000) as i64, 2 => (g.bits() as i64) & i64::MAX, _ => g.below(1 << 40) as i64 };
        let b = pos(g); let a = if g.chance(1, 20) { b + 1 } else { g.below(b as u64 + 1) as i64 };
        g.note(format!("{a}..{b}"));
        let s = FreeSegments::new(a, b); let e = enc(a, b); let mut w = WBuffer::new(0); ok("pre", w.write_u8(7))?;
        let n = ok("marshal", s.marshal(&mut w))?; eq("count", n, e.len() as i64)?; eq("size_of", s.size_of(), e.len() as i32)?; eqb("buffer", &w.p()[1..], &e)?;
        let all = cat(&[e, vec![1, 2, 3]]); let mut r = RBuffer::new(&all, 0); let mut o = FreeSegments::new(5, 5); ok("unmarshal", o.unmarshal(&mut r))?;
        eq("read back", (o.first, o.last, r.len()), (a, b, 3))
    });
    x.case("the file's own free list", 80, |g, _| {
        let path = { let e = g.size(100); scratch(g, e) }; let _gone = Gone(path.clone());
        let mut f = ok("create", crate::RootFile::create(&path))?; let n = g.below(3);
        for i in 0..n { let l = g.size(3000); let o = Blob { bytes: g.bytes(l), class: "TKey".into(), name: format!("o{i}"), title: String::new() }; ok("put", f.put("", &o))?; }
        g.note(format!("path of {} bytes, {n} objects", path.len()));
        ok("close", f.close())?; let end = f.end(); let now = vr::file::spans(&mut f); drop(f);
        eq("free list while writing", now.clone(), vec![(end, 2_000_000_000)])?;
        let b = std::fs::read(&path).map_err(|e| e.to_string())?; let h = rhead(&b)?; let k = rkey(&b, h.seek_free as usize)?;
        eq("number of segments", h.n_free, 1)?; eq("record size", k.n_bytes, h.n_free_b)?; let s = (k.seek + k.key_len) as usize;
        eqb("record", b.get(s..s + k.obj_len as usize).ok_or("past the end")?, &enc(end, 2_000_000_000))?;
        let mut f = ok("open", crate::RootFile::open(&path))?; eq("free list read back", vr::file::spans(&mut f), now)
    });
    x.case("free list of a file that has grown past 2 GB", 12, |g, _| {
        let path = scratch(g, 0); let _gone = Gone(path.clone());
        let mut f = ok("create", crate::RootFile::create(&path))?; let at = 2_000_000_001 + g.below(1 << 32) as i64; ok("set_end", f.set_end(at))?;
        ok("close", f.close())?; let end = f.end(); g.note(format!("end {end}; beyond 2^31: {}", end > i32::MAX as i64)); drop(f);
        let mut f = ok("open", crate::RootFile::open(&path))?; eq("free list read back", vr::file::spans(&mut f).first().map(|s| s.0), Some(end))
    });
    x.case("the free segment follows the end of the file", 60, |g, i| {
        let path = scratch(g, 0); let _gone = Gone(path.clone());
        let mut f = ok("create", crate::RootFile::create(&path))?; let mut at = 0; let mut told = vec![];
        for k in 0..4 { at = if k == 0 { end_pos(g, i) } else { at + 1 + match g.below(3) { 0 => g.below(1000), 1 => g.below(1 << 20), _ => g.below(1 << 31) } as i64 }; told.push(at); g.note(format!("ends {told:?}"));
            ok("set_end", f.set_end(at))?; eq("end", f.end(), at)?; eq("free list", vr::file::spans(&mut f), vec![(at, 2_000_000_000)])?; }
        Ok(())
    });
}
