// payloads as the format describes them: a sequence of blocks, each with a tag, a method byte, the
// size of what follows and the size of what it stands for (three bytes each, low byte first)
include!("files.rs");
use crate::rtree::basket::verif as vk;
include!("packs.rs");
fn quietly<T>(f: impl FnOnce() -> T) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }
pub fn run(x: &mut Ctx) {
    x.case("payloads of one or more blocks", 1500, |g, i| {
        let data = plain(g, 5000); if data.is_empty() { return Ok(()) }
        let (mut all, say) = stored(g, &data, if i % 2 == 0 { 1 } else { 6 }); g.note(format!("{} bytes in{say}", data.len()));
        if g.chance(1, 4) { let n = g.size(30); all.extend(g.bytes(n)); }
        let mut out = vec![0xcc; data.len()]; ok("decompress", crate::rcompress::decompress(&mut out, &all))?; eqb("payload", &out, &data)
    });
    x.case("long payloads", 8, |g, i| {
        let n = [65535, 65536, 70000, 262144, 1 << 20, 300000, 131071, 4 << 20][i as usize % 8]; let p = 1 + g.below(2000) as usize; let s = g.bytes(p); let data: Vec<u8> = (0..n).map(|k| s[k % p] ^ (k / 70001) as u8).collect();
        let (all, say) = stored(g, &data, 3); g.note(format!("{n} bytes in{say}"));
        let mut out = vec![0; n]; ok("decompress", crate::rcompress::decompress(&mut out, &all))?; eqb("payload", &out, &data)
    });
    x.case("payloads cut short", 800, |g, _| {
        let data = plain(g, 600); if data.is_empty() { return Ok(()) }
        let (all, say) = stored(g, &data, 4); let n = g.below(all.len() as u64) as usize; g.note(format!("{} bytes in{say}, of which {n} are there", data.len()));
        let mut out = vec![0; data.len()]; let r = quietly(|| crate::rcompress::decompress(&mut out, &all[..n]).is_ok());
        hold("a payload cut short is taken for a whole one", r != Some(true))
    });
    x.case("blocks for more than the record holds", 400, |g, _| {
        let data = plain(g, 600); if data.len() < 2 { return Ok(()) }
        let (all, say) = stored(g, &data, 1); let n = 1 + g.below(data.len() as u64 - 1) as usize; g.note(format!("{} bytes in{say}, record of {n}", data.len()));
        let mut out = vec![0; n]; let r = quietly(|| crate::rcompress::decompress(&mut out, &all).is_ok());
        hold("a record of another size is taken", r != Some(true))
    });
    x.case("records of a file", 300, |g, i| {
        let path = scratch(g, 0); let _gone = Gone(path.clone()); let data = plain(g, 3000); let np = g.size(40); let pre = g.bytes(np); let klen = 30 + g.below(80) as usize;
        let (body, say) = if i % 3 == 0 { (data.clone(), " no blocks".to_string()) } else { stored(g, &data, 4) };
        if i % 3 != 0 && (data.is_empty() || body.len() == data.len()) { return Ok(()) }
        let ns = g.size(20); let b = cat(&[pre.clone(), g.bytes(klen), body.clone(), g.bytes(ns)]); std::fs::write(&path, &b).map_err(|e| e.to_string())?;
        let k = vr::key::mk(&vr::key::K { n_bytes: (klen + body.len()) as i32, rvers: 4, obj_len: data.len() as i32, date: 0, key_len: klen as i32, cycle: 1, seek_key: pre.len() as i64, seek_pdir: 0, class: "TObjString".into(), name: "n".into(), title: "".into() });
        g.note(format!("record of {} bytes at {} with a key of {klen}:{say}", data.len(), pre.len()));
        let mut f = ok("open", vr::file::reader(&path))?; let got = ok("bytes", k.bytes(&mut f, None))?; eqb("payload", &got, &data)
    });
    x.case("baskets of a file", 300, |g, i| {
        let path = scratch(g, 0); let _gone = Gone(path.clone()); let klen = 40 + g.below(60) as usize; let n = g.size(60); let bare = g.chance(1, 4);
        let sizes: Vec<usize> = (0..n).map(|_| g.below(12) as usize).collect(); let total: usize = sizes.iter().sum(); let data = g.bytes(total);
        let mut all = data.clone(); let mut want = vec![];
        if !bare { // a count, then where each entry starts, and one more number that is not a place
            all.extend(rbe(n as u64 + 1, 4)); let mut at = 0; for s in &sizes { all.extend(rbe((klen + at) as u64, 4)); want.push(at as i32); at += s; } all.extend(rbe(g.bits() & 0x7fff_ffff, 4)); want.push(total as i32); }
        let (body, say) = if i % 3 == 0 { (all.clone(), " no blocks".to_string()) } else { stored(g, &all, 3) };
        if all.is_empty() || (i % 3 != 0 && body.len() == all.len()) { return Ok(()) }
        std::fs::write(&path, cat(&[g.bytes(klen), body.clone()])).map_err(|e| e.to_string())?;
        let k = vr::key::mk(&vr::key::K { n_bytes: (klen + body.len()) as i32, rvers: 4, obj_len: all.len() as i32, date: 0, key_len: klen as i32, cycle: 1, seek_key: 0, seek_pdir: 0, class: "TBasket".into(), name: "n".into(), title: "".into() });
        g.note(format!("{n} entries of {sizes:?}, with offsets: {}, {} bytes in{say}", !bare, all.len()));
        let mut f = ok("open", vr::file::reader(&path))?; let (m, d, o) = vk::raw(k, n as i32, (klen + total) as i32, &mut f);
        eq("entries", m, n as u32)?; eqb("data", &d, &data)?; eq("offsets", o, if bare { None } else { Some(want) })
    });
}
