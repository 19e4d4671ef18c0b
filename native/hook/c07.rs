include!("files.rs");
pub fn run(x: &mut Ctx) {
    x.case("space handed out in a row", 400, |g, i| {
        let path = scratch(g, 0); let _gone = Gone(path.clone());
        let mut f = ok("create", crate::RootFile::create(&path))?; let at = end_pos(g, i); ok("set_end", f.set_end(at))?;
        let n = 1 + g.size(14); let mut next = at; let mut told = vec![];
        for _ in 0..n {
            let (name, title) = (g.string(), g.string()); let class = "TX".to_string();
            let k = match g.below(3) {
                0 => { let l = 1 + g.below(3000) as i32; told.push(format!("new {l}")); g.note(format!("end {at}: {told:?}")); ok("new", crate::riofs::Key::new(name, title, class, l, &mut f))? }
                1 => { let l = if g.chance(1, 3) { g.size(140_000) } else { g.size(3000) }; told.push(format!("buffer {l}")); g.note(format!("end {at}: {told:?}")); let b = g.bytes(l); ok("new_from_buffer", crate::riofs::Key::new_from_buffer(name, title, class, 1, b, &mut f))? }
                _ => { let l = if g.chance(1, 3) { g.size(140_000) } else { g.size(3000) }; told.push(format!("object {l}")); g.note(format!("end {at}: {told:?}")); let o = Blob { bytes: g.bytes(l), class: class.clone(), name: name.clone(), title: title.clone() }; ok("new_from_object", crate::riofs::Key::new_from_object(&name, &title, &class, &o, &mut f))? }
            };
            eq("address", k.seek_key(), next)?; hold("a record of no bytes", k.n_bytes() > 0)?; hold("a key longer than its record", k.key_len() <= k.n_bytes())?;
            next += k.n_bytes() as i64; eq("end of the file", f.end(), next)?; eq("free segment", vr::file::spans(&mut f), vec![(next, 2_000_000_000)])?;
        }
        Ok(())
    });
    x.case("records of a written file, one after another", 150, |g, _| {
        let path = { let e = g.size(120); scratch(g, e) }; let _gone = Gone(path.clone());
        let mut f = ok("create", crate::RootFile::create(&path))?; let n = g.below(4); let mut names = vec![]; let mut what = vec![];
        for i in 0..n {
            if g.chance(1, 2) { let p = put_tree(g, &mut f, &format!("t{}", g.clone().below(3)), 300)?; what.push(format!("tree {} of {} entries", p.name, p.n)); names.push(p.name) }
            else { let l = if g.chance(1, 3) { g.size(140_000) } else { g.size(5000) }; let title = { let n = g.size(600); g.text(n) }; let o = Blob { bytes: g.bytes(l), class: "TKey".into(), name: format!("o{i}"), title }; what.push(format!("object of {l} bytes")); ok("put", f.put("", &o))?; names.push(o.name) }
            g.note(format!("path of {} bytes; {what:?}", path.len()));
        }
        ok("close", f.close())?; drop(f);
        let b = std::fs::read(&path).map_err(|e| e.to_string())?; let h = rhead(&b)?;
        let ks = walk(&b)?; eq("file size", b.len() as i64, h.end)?;
        for n in &names { hold("a name put into the file has no record", ks.iter().any(|k| &k.name == n))?; }
        eq("free segments record", ks.last().map(|k| (k.seek, k.n_bytes)), Some((h.seek_free, h.n_free_b)))?;
        hold("no record for the streamer list", ks.iter().any(|k| k.seek == h.seek_info && k.n_bytes == h.n_info))
    });
    x.case("what was put first is untouched by what comes later", 60, |g, _| {
        let path = scratch(g, 0); let _gone = Gone(path.clone());
        let mut f = ok("create", crate::RootFile::create(&path))?; let n = 1 + g.below(6); let mut bl = vec![];
        for i in 0..n {
            let (l, t) = (if g.chance(1, 3) { g.size(140_000) } else { g.size(9000) }, g.size(600)); let t = g.text(t); let o = Blob { bytes: g.bytes(l), class: "TKey".into(), name: format!("o{i}"), title: t };
            g.note(format!("object {i} of {l} bytes, title of {}", o.title.len())); ok("put", f.put("", &o))?;
            if g.chance(1, 3) { put_tree(g, &mut f, "t", 200)?; }
            bl.push(o);
        }
        ok("close", f.close())?;
        let b = std::fs::read(&path).map_err(|e| e.to_string())?; let ks = rkeys(&b)?;
        for o in &bl { let k = ks.iter().find(|k| k.name == o.name).ok_or("no key")?; let s = (k.seek + k.key_len) as usize; eqb(&o.name, b.get(s..s + o.bytes.len()).ok_or("past the end")?, &o.bytes)?; }
        let f = ok("open", crate::RootFile::open(&path))?;
        for o in &bl { let k = f.keys().into_iter().find(|k| k.name() == o.name).ok_or("no key")?; let mut f2 = ok("open", crate::RootFile::open(&path))?; eqb("read", &ok("bytes", vr::file::key_bytes(&mut f2, &k))?, &o.bytes)?; }
        Ok(())
    });
}
use crate::root::traits::Named;
