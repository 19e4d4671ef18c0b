include!("files.rs");
pub fn run(x: &mut Ctx) {
    x.case("payload kept as it is", 600, |g, i| {
        let n = match i % 4 { 0 => g.size(600), 1 => 510 + g.below(5) as usize, 2 => g.below(2000) as usize, _ => if g.chance(1, 20) { 300_000 } else { g.below(20000) as usize } };
        let b = if g.chance(1, 4) { vec![*g.pick(&[0u8, 0, 1, 32, 255]); n] } else { g.bytes(n) }; g.note(format!("{n} bytes from {:?}", b.first()));
        // the level every created file uses
        let r = catch_unwind(|| crate::rcompress::compress(b.clone(), 1));
        match r { Ok(Ok(v)) => eqb("payload", &v, &b), Ok(Err(e)) => Err(format!("error {e:?}")), Err(_) => Err("panicked".into()) }
    });
    x.case("records hold the payload itself", 60, |g, _| {
        let path = scratch(g, 0); let _gone = Gone(path.clone());
        let mut f = ok("create", crate::RootFile::create(&path))?; eq("compression setting", f.compression(), 1)?;
        let n = 1 + g.below(4); let mut os = vec![];
        for i in 0..n { let l = if g.chance(1, 3) { g.size(70_000) } else { g.size(4000) }; let o = Blob { bytes: if g.chance(1, 4) { vec![0; l] } else { g.bytes(l) }, class: "TKey".into(), name: format!("o{i}"), title: String::new() }; g.note(format!("object {i} of {l} bytes")); ok("put", f.put("", &o))?; os.push(o) }
        ok("close", f.close())?; let b = std::fs::read(&path).map_err(|e| e.to_string())?;
        for k in walk(&b)? { if k.class != "TDirectory" && k.class != "TFile" { eq("size of the record of an uncompressed object", k.n_bytes, k.key_len + k.obj_len)?; } }
        for (k, o) in rkeys(&b)?.iter().zip(&os) { let s = (k.seek + k.key_len) as usize; eqb("payload", &b[s..s + o.bytes.len()], &o.bytes)?; eq("size", k.obj_len, o.bytes.len() as i64)?; }
        Ok(())
    });
}
