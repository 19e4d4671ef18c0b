include!("files.rs");
use crate::rbytes::rbuffer::RBuffer;
use crate::root::traits::Named;
use crate::{Marshaler, Unmarshaler};
use vr::dir::{mk, parts, D};
fn far(d: &D) -> bool { d.seek_dir > 2_000_000_000 || d.seek_parent > 2_000_000_000 || d.seek_keys > 2_000_000_000 }
fn enc(d: &D) -> Vec<u8> {
    let v = if d.rvers < 1000 && far(d) { d.rvers + 1000 } else { d.rvers }; let w = if v > 1000 { 8 } else { 4 };
    cat(&[rbe(v as u64, 2), rbe(d.ctime as u64, 4), rbe(d.mtime as u64, 4), rbe(d.n_keys as u32 as u64, 4), rbe(d.n_name as u32 as u64, 4), rbe(d.seek_dir as u64, w), rbe(d.seek_parent as u64, w), rbe(d.seek_keys as u64, w), rbe(1, 2), d.uuid.to_vec()])
}
pub fn run(x: &mut Ctx) {
    x.case("directory record written and read back", 3000, |g, _| {
        let seek = |g: &mut Gen| match g.below(4) { 0 => 0, 1 => 2_000_000_000 + g.range(-1, 1), 2 => g.below(1 << 31) as i64, _ => if g.chance(1, 3) { g.below(1 << 50) as i64 } else { 100 } };
        let mut u = [0u8; 16]; for b in u.iter_mut() { *b = g.bits() as u8; }
        let mut d = D { rvers: if g.chance(1, 4) { 1005 } else { 5 }, ctime: date(g), mtime: date(g), n_keys: g.bits() as i32, n_name: g.bits() as i32, seek_dir: seek(g), seek_parent: seek(g), seek_keys: seek(g), uuid: u };
        let pre = { let n = g.size(20); g.bytes(n) }; g.note(format!("{d:?} after {} bytes", pre.len()));
        let mut w = WBuffer::new(0); ok("pre", w.write_array_u8(&pre))?; let n = ok("marshal", mk(&d).marshal(&mut w))?; let e = enc(&d);
        eq("count", n, e.len() as i64)?; eqb("buffer", w.p(), &cat(&[pre, e.clone()]))?;
        let all = cat(&[e, vec![1, 2, 3]]); let mut r = RBuffer::new(&all, 0); let mut o = mk(&D { rvers: 9, ctime: 5, mtime: 5, n_keys: 1, n_name: 1, seek_dir: 1, seek_parent: 1, seek_keys: 1, uuid: [0; 16] });
        ok("unmarshal", o.unmarshal(&mut r))?; if far(&d) && d.rvers < 1000 { d.rvers += 1000 }
        eq("read back", parts(&o), d)?; eq("left", r.len(), 3)
    });
    x.case("keys of a file are those put into it", 120, |g, i| {
        let path = { let e = g.size(120); scratch(g, e) }; let _gone = Gone(path.clone());
        let mut f = ok("create", crate::RootFile::create(&path))?;
        if i % 8 == 7 { let at = 2_000_000_000 - g.below(2000) as i64; ok("set_end", f.set_end(at))?; }
        let n = g.size(12); let mut put: Vec<(String, String, i32, i64)> = vec![];
        for _ in 0..n {
            let name = if g.chance(1, 3) { format!("n{}", g.below(3)) } else { { let n = g.size(600); g.text(n).replace('/', "_") } }; let name = if name.is_empty() { "e".to_string() } else { name };
            let l = g.size(2000); let o = Blob { bytes: g.bytes(l), class: "TKey".into(), name: name.clone(), title: { let n = g.size(600); g.text(n) } };
            let c = 1 + put.iter().filter(|p| p.0 == name).count() as i32;
            let at = f.end(); ok("put", f.put(if g.chance(1, 2) { "" } else { &name }, &o))?; put.push((name, o.title, c, at));
            g.note(format!("path of {} bytes, start {}, {} objects, last of {l} bytes", path.len(), put[0].3, put.len()));
        }
        eq("keys while writing", f.keys().len(), put.len())?;
        ok("close", f.close())?; drop(f);
        if i % 8 != 7 {
            let b = std::fs::read(&path).map_err(|e| e.to_string())?;
            eq("key list", rkeys(&b)?.into_iter().map(|k| (k.name, k.title, k.cycle as i32, k.seek)).collect::<Vec<_>>(), put.clone())?;
            let h = rhead(&b)?; let d = rdir(&b, (h.begin + h.n_name) as usize)?; eq("directory place", (d.2, d.3), (h.n_name, h.begin))?;
        }
        let f = ok("open", crate::RootFile::open(&path))?;
        eq("keys read back", f.keys().iter().map(|k| (k.name().to_string(), k.title().to_string(), k.cycle(), k.seek_key())).collect::<Vec<_>>(), put.clone())?;
        eq("names", f.keys_name().map(|s| s.to_string()).collect::<Vec<_>>(), put.iter().map(|p| p.0.clone()).collect::<Vec<_>>())?;
        eq("directory's own name", vr::dir::named(f.dir()), ("TFile".to_string(), path.clone(), String::new()))
    });
    x.case("many keys", 6, |g, i| {
        let path = scratch(g, 0); let _gone = Gone(path.clone());
        let mut f = ok("create", crate::RootFile::create(&path))?;
        let n = match i % 6 { 0 => 254 + g.below(4), 1 => 510 + g.below(4), 2 => 1022 + g.below(4), 3 => 126 + g.below(4), 4 => 300 + g.below(700), _ => 2046 + g.below(4) }; g.note(format!("{n} objects"));
        for k in 0..n { let l = g.size(8); let o = Blob { bytes: g.bytes(l), class: "TKey".into(), name: format!("o{k}"), title: String::new() }; ok("put", f.put("", &o))?; }
        ok("close", f.close())?; drop(f);
        let want: Vec<String> = (0..n).map(|k| format!("o{k}")).collect();
        let b = std::fs::read(&path).map_err(|e| e.to_string())?; eq("key list", rkeys(&b)?.into_iter().map(|k| k.name).collect::<Vec<_>>(), want.clone())?;
        let f = ok("open", crate::RootFile::open(&path))?; eq("keys read back", f.keys().iter().map(|k| k.name().to_string()).collect::<Vec<_>>(), want)
    });
}
