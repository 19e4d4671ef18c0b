include!("files.rs");
use crate::root::traits::Named;
pub fn run(x: &mut Ctx) {
    x.case("cycles of objects put under the same names", 150, |g, i| {
        let path = scratch(g, 0); let _gone = Gone(path.clone());
        let mut f = ok("create", crate::RootFile::create(&path))?; if i % 10 == 9 { ok("set_end", f.set_end(2_000_000_000 - g.clone().below(800) as i64))?; }
        let n = g.size(30); let mut put: Vec<(String, i32)> = vec![]; let mut last: Vec<(String, Vec<u8>)> = vec![];
        for _ in 0..n {
            let name = match g.below(5) { 0 => "a".to_string(), 1 => "aa".to_string(), 2 => "A".to_string(), 3 => "é".to_string(), _ => g.ident(3) };
            let l = 10 + g.below(40) as usize; let o = Blob { bytes: g.bytes(l), class: "TKey".into(), name: name.clone(), title: String::new() };
            ok("put", f.put(&name, &o))?; let c = 1 + put.iter().filter(|p| p.0 == name).map(|p| p.1).max().unwrap_or(0); put.push((name.clone(), c)); last.retain(|x| x.0 != name); last.push((name, o.bytes));
            g.note(format!("{:?}", put.iter().map(|p| p.0.as_str()).collect::<Vec<_>>()));
        }
        eq("cycles", f.dir().keys().iter().map(|k| (k.name().to_string(), k.cycle())).collect::<Vec<_>>(), put.clone())?;
        let bad = Blob { bytes: vec![], class: "TFile".into(), name: String::new(), title: String::new() };
        if let Some(p) = put.first() { hold("another class under a used name", matches!(f.put(&p.0, &bad), Err(crate::riofs::Error::KeyClassMismatch { .. })))?; }
        hold("a name with a slash", matches!(f.put("a/b", &bad), Err(crate::riofs::Error::NameContainsSlash(_))))?;
        ok("close", f.close())?; drop(f);
        let f = ok("open", crate::RootFile::open(&path))?; eq("cycles read back", f.keys().iter().map(|k| (k.name().to_string(), k.cycle())).collect::<Vec<_>>(), put)
    });
    x.case("the last tree of a name is the one read", 60, |g, _| {
        let path = scratch(g, 0); let _gone = Gone(path.clone());
        let mut f = ok("create", crate::RootFile::create(&path))?; let n = 1 + g.below(5); let mut ps: Vec<Put> = vec![];
        for _ in 0..n { let name = g.pick(&["t", "tt", "T"]).to_string(); let p = put_tree(g, &mut f, &name, 30)?; ps.retain(|q| q.name != name); ps.push(p); }
        g.note(format!("{n} trees, {} names", ps.len())); ok("close", f.close())?; drop(f);
        let mut f = ok("open", crate::RootFile::open(&path))?; for p in &ps { check_tree(&mut f, p)?; }
        hold("a name not in the file is found", f.get_tree("absent").is_err())
    });
    x.case("highest cycle wins whatever the order of keys", 200, |g, _| {
        let path = scratch(g, 0); let _gone = Gone(path.clone());
        let mut f = ok("create", crate::RootFile::create(&path))?; let n = 1 + g.below(4) as usize;
        for _ in 0..n { put_tree(g, &mut f, "t", 12)?; }
        put_tree(g, &mut f, "u", 5)?;
        // trees are told apart by their number of entries: rewrite cycles and order of the keys before the list is written
        let mut cs: Vec<i16> = vec![]; while cs.len() < n { let c = 1 + g.below(300) as i16; if !cs.contains(&c) { cs.push(c) } }
        for (k, c) in f.mut_dir().keys.iter_mut().filter(|k| k.name() == "t").zip(&cs) { k.set_cycle(*c); }
        for i in 0..n { let j = g.below(n as u64 + 1) as usize; f.mut_dir().keys.swap(i, j); }
        let want = f.dir().keys().iter().filter(|k| k.name() == "t").max_by_key(|k| k.cycle()).unwrap().seek_key();
        g.note(format!("cycles {cs:?}")); ok("close", f.close())?; drop(f);
        let b = std::fs::read(&path).map_err(|e| e.to_string())?; let k = rkey(&b, want as usize)?; let bytes = &b[want as usize + k.key_len as usize..(want + k.n_bytes) as usize];
        let mut r = crate::rbytes::rbuffer::RBuffer::new(bytes, k.key_len as u32); let mut t = crate::rtree::tree::ReaderTree::default(); ok("unmarshal", crate::Unmarshaler::unmarshal(&mut t, &mut r))?;
        let mut f = ok("open", crate::RootFile::open(&path))?; let got = ok("get_tree", f.get_tree("t"))?; eq("entries", got.entries(), t.entries())?;
        eq("seeks", got.branch("a").map(|b| b.tbranch().basket_seek.clone()), t.branch("a").map(|b| b.tbranch().basket_seek.clone()))
    });
}
