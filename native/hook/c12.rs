include!("files.rs");
include!("trees.rs");
fn vframed(vers: u64, body: Vec<u8>) -> Vec<u8> { cat(&[rbe((body.len() as u64 + 2) | 0x4000_0000, 4), rbe(vers, 2), body]) }
enum Col { I(Vec<i32>), B(Vec<i8>), S(Vec<String>), V(Vec<Vec<i16>>), A(Vec<[f64; 3]>) }
fn some(g: &mut Gen, n: usize) -> Col {
    match g.below(5) {
        0 => Col::I((0..n).map(|_| g.bits() as i32).collect()), 1 => Col::B((0..n).map(|_| g.bits() as i8).collect()), 2 => Col::S((0..n).map(|_| { let l = g.strlen().min(700); g.text(l) }).collect()),
        3 => Col::V((0..n).map(|_| { let l = g.size(30); (0..l).map(|_| g.bits() as i16).collect() }).collect()), _ => Col::A((0..n).map(|_| [f64::from_bits(g.bits()), 0.5, f64::from_bits(g.bits())]).collect()),
    }
}
fn add(t: &mut crate::WriterTree, name: &str, c: &Col) -> (Vec<Vec<u8>>, bool, &'static str) {
    match c {
        Col::I(v) => { t.new_branch(name, v.clone().into_iter()); (v.iter().map(|x| rbe(*x as u32 as u64, 4)).collect(), false, "TLeafI") }
        Col::B(v) => { t.new_branch(name, v.clone().into_iter()); (v.iter().map(|x| rbe(*x as u8 as u64, 1)).collect(), false, "TLeafB") }
        Col::S(v) => { t.new_branch(name, v.clone().into_iter()); (v.iter().map(|x| rstr(x.as_bytes())).collect(), true, "TLeafC") }
        Col::V(v) => { t.new_branch(name, v.clone().into_iter()); (v.iter().map(|x| vframed(9, cat(&[rbe(x.len() as u64, 4), x.iter().flat_map(|y| rbe(*y as u16 as u64, 2)).collect()]))).collect(), true, "TLeafElement") }
        Col::A(v) => { t.new_branch(name, v.clone().into_iter()); (v.iter().map(|x| x.iter().flat_map(|y| rbe(y.to_bits(), 8)).collect()).collect(), false, "TLeafD") }
    }
}
pub fn run(x: &mut Ctx) {
    x.case("what a tree in the file says about its baskets", 250, |g, i| {
        let path = scratch(g, 0); let _gone = Gone(path.clone());
        let mut f = ok("create", crate::RootFile::create(&path))?; if i % 8 == 7 { let d = g.size(9000) as i64; let a = match i / 8 % 3 { 0 => 2_000_000_000 - d, 1 => (1i64 << 31) - d, _ => (1i64 << 31) + g.below(1 << 33) as i64 }; ok("set_end", f.set_end(a))?; } let start = f.end();
        let nt = 1 + g.below(2); let mut all = vec![];
        for k in 0..nt {
            let tn = if g.chance(1, 10) { let n = g.strlen().min(300); g.text(n).replace('/', "_") } else { format!("t{k}") };
            let mut t = crate::WriterTree::new(tn.clone()); let nb = g.size(6); let mut cols = vec![];
            for j in 0..nb { let n = if g.chance(1, 30) { 20_000 } else { g.size(400) }; let c = some(g, n); let name = if g.chance(1, 20) { let n = g.strlen().min(300); g.text(n) } else { format!("b{j}") }; let (e, tab, leaf) = add(&mut t, &name, &c); cols.push((name, e, tab, leaf)); }
            let size = if g.chance(1, 3) { 32768 } else { g.range(40, 3000) as i32 }; vt::small(&mut t, size);
            g.note(format!("{tn:?}: {:?} baskets of {size}, file end {}", cols.iter().map(|c| (c.0.as_str(), c.1.len(), c.3)).collect::<Vec<_>>(), f.end()));
            ok("write", t.write(&mut f))?; eq("entries counted", vt::entries(&t), cols.iter().map(|c| c.1.len()).max().unwrap_or(0) as i64)?; all.push((tn, size, cols));
        }
        ok("close", f.close())?; drop(f);
        // the part of the file before `start` may be a hole: read from there, addresses shifted
        use std::io::{Read, Seek}; let mut h = std::fs::File::open(&path).map_err(|e| e.to_string())?;
        let keys = { let f = ok("open", crate::RootFile::open(&path))?; f.keys().iter().map(|k| { let p = vr::key::parts(k); (p.name, p.seek_key, p.n_bytes) }).collect::<Vec<_>>() };
        let hole = start > 1_000_000_000; let b = if hole { h.seek(std::io::SeekFrom::Start(start as u64)).map_err(|e| e.to_string())?; let mut v = vec![]; h.read_to_end(&mut v).map_err(|e| e.to_string())?; v } else { let mut v = vec![]; h.read_to_end(&mut v).map_err(|e| e.to_string())?; v };
        let off = if hole { start } else { 0 };
        eq("trees in the list", keys.len(), all.len())?;
        for ((name, seek, nbytes), (tn, size, cols)) in keys.into_iter().zip(&all) {
            eq("name", name.as_str(), tn.as_str())?; let k = rkey(&b, (seek - off) as usize)?; eq("size of the record", k.n_bytes, nbytes as i64)?;
            let mut r = rtree(&b, &k)?; eq("tree name", r.name.as_str(), tn.as_str())?; eq("entries of the tree", r.entries, cols.iter().map(|c| c.1.len()).max().unwrap_or(0) as i64)?;
            eq("branches", r.branches.iter().map(|b| b.name.clone()).collect::<Vec<_>>(), cols.iter().map(|c| c.0.clone()).collect())?; eq("leaves", r.nleaves, cols.len())?;
            for (rb, (_, e, tab, leaf)) in r.branches.iter_mut().zip(cols) {
                eq("leaf", rb.leaves.clone(), vec![leaf.to_string()])?; eq("basket size", rb.basket_size, *size as i64)?; eq("table", rb.offlen > 0, *tab)?; eq("class", rb.class.as_str(), if *leaf == "TLeafElement" { "TBranchElement" } else { "TBranch" })?;
                let held: usize = e.iter().map(|x| x.len()).sum(); hold("far fewer baskets than the data needs", held == 0 || rb.write_basket >= 1)?;
                if hole {
                    // addresses are checked against the real ones, then shifted with the records
                    for j in 0..rb.write_basket as usize { let a = (rb.seek[j] - off) as usize; let k = rkey(&b, a)?; eq("place a basket says it is at", k.seek, rb.seek[j])?; }
                    let mut z = b.clone(); for j in 0..rb.write_basket as usize { let a = (rb.seek[j] - off) as usize; let w = if num(&b, a + 4, 2)? > 1000 { 8 } else { 4 }; z[a + 18..a + 18 + w].copy_from_slice(&rbe(a as u64, w)); rb.seek[j] = a as i64; }
                    branch_is(&z, rb, tn, e, *tab)?;
                } else { branch_is(&b, rb, tn, e, *tab)?; }
            }
        }
        Ok(())
    });
}
