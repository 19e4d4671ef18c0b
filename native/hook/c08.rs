include!("files.rs");
use vr::file::H;
fn enc(h: &H) -> Vec<u8> {
    let wide = h.end > 2_000_000_000 || h.seek_free > 2_000_000_000 || h.seek_info > 2_000_000_000 || h.version >= 1_000_000;
    let w = if wide { 8 } else { 4 }; let v = if wide && h.version < 1_000_000 { h.version + 1_000_000 } else { h.version };
    let units = if h.end > 2_000_000_000 || h.seek_free > 2_000_000_000 || h.seek_info > 2_000_000_000 { 8 } else { h.units };
    cat(&[b"root".to_vec(), rbe(v as u64, 4), rbe(h.begin as u64, 4), rbe(h.end as u64, w), rbe(h.seek_free as u64, w), rbe(h.n_bytes_free as u32 as u64, 4), rbe(1, 4), rbe(h.n_bytes_name as u32 as u64, 4),
        vec![units], rbe(h.compression as u32 as u64, 4), rbe(h.seek_info as u64, w), rbe(h.n_bytes_info as u32 as u64, 4), rbe(1, 2), h.uuid.to_vec()])
}
pub fn run(x: &mut Ctx) {
    x.case("header bytes", 300, |g, i| {
        let path = scratch(g, 0); let _gone = Gone(path.clone());
        let mut f = ok("create", crate::RootFile::create(&path))?; vr::file::flush(&mut f);
        let was = std::fs::read(&path).map_err(|e| e.to_string())?;
        let h0 = vr::file::header(&f);
        let seek = |g: &mut Gen| match g.below(4) { 0 => 0, 1 => 2_000_000_000 + g.range(-1, 1), 2 => g.below(1 << 31) as i64, _ => g.below(1 << 50) as i64 };
        let mut u = [0u8; 16]; for b in u.iter_mut() { *b = g.bits() as u8; }
        let h = H { version: if g.chance(1, 2) { h0.version } else { g.below(999_999) as i32 }, begin: h0.begin, end: end_pos(g, i), seek_free: seek(g), n_bytes_free: g.bits() as i32, n_free: g.bits() as i32, n_bytes_name: g.bits() as i32,
            units: g.bits() as u8, compression: g.bits() as i32, seek_info: seek(g), n_bytes_info: g.bits() as i32, uuid: u };
        g.note(format!("{h:?}"));
        vr::file::set_header(&mut f, &h); ok("write_header", vr::file::write_header(&mut f))?; vr::file::flush(&mut f);
        let b = std::fs::read(&path).map_err(|e| e.to_string())?; let e = enc(&h);
        eq("length of the file", b.len(), was.len())?; eqb("header", &b[..e.len()], &e)?; hold("the rest up to the first record is not zero", b[e.len()..h.begin as usize].iter().all(|x| *x == 0))?;
        eqb("records", &b[h.begin as usize..], &was[h.begin as usize..])
    });
    x.case("header of a file written, closed and opened again", 60, |g, _| {
        let path = { let e = g.size(120); scratch(g, e) }; let _gone = Gone(path.clone());
        let mut f = ok("create", crate::RootFile::create(&path))?;
        let p = if g.chance(2, 3) { Some(put_tree(g, &mut f, "t", 500)?) } else { None };
        g.note(format!("path of {} bytes, {} entries", path.len(), p.as_ref().map_or(0, |p| p.n)));
        ok("close", f.close())?; let h = vr::file::header(&f); drop(f);
        let b = std::fs::read(&path).map_err(|e| e.to_string())?; let r = rhead(&b)?;
        eq("begin, end, free, info", (r.begin, r.end, r.seek_free, r.n_free_b, r.seek_info, r.n_info), (100, b.len() as i64, h.seek_free, h.n_bytes_free as i64, h.seek_info, h.n_bytes_info as i64))?;
        let mut f = ok("open", crate::RootFile::open(&path))?; eq("header read back", vr::file::header(&f), h)?;
        if let Some(p) = p { check_tree(&mut f, &p)?; }
        Ok(())
    });
    x.case("a file whose records lie beyond 2 GB", 12, |g, i| {
        let path = scratch(g, 0); let _gone = Gone(path.clone());
        let mut f = ok("create", crate::RootFile::create(&path))?; let at = match i % 3 { 0 => 2_000_000_000 - g.below(3000) as i64, 1 => 2_000_000_001, _ => 2_000_000_000 + g.below(1 << 33) as i64 }; ok("set_end", f.set_end(at))?;
        g.note(format!("first record at {at}"));
        let p = put_tree(g, &mut f, "t", 200)?; ok("close", f.close())?; let h = vr::file::header(&f); drop(f);
        let mut f = ok("open", crate::RootFile::open(&path))?; eq("header read back", vr::file::header(&f), H { version: h.version % 1_000_000, ..h })?;
        check_tree(&mut f, &p)
    });
}
