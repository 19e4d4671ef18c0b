include!("objs.rs");
fn nested(x: &mut Ctx) {
    x.case("objects of any class name, nested", 1500, |g, _| {
        let names: Vec<&'static str> = (0..1 + g.below(8)).map(|_| { let n = match g.below(3) { 0 => 10, 1 => 40, _ => 300 }; &*Box::leak(g.ident(n).into_boxed_str()) }).collect();
        let off = if g.chance(1, 2) { 0 } else { g.below(3000) as u32 };
        let mut next = 4096; let ts: Vec<(usize, N)> = (0..1 + g.below(6)).map(|_| { let d = g.below(4) as u32; tree(g, &names, d, &mut next) }).collect();
        let pre = { let n = g.size(30) + 1; g.bytes(n) };
        g.note(format!("offset {off}, {} bytes before, {} objects in {} trees, class names of {:?} letters", pre.len(), (next - 4096) / 8, ts.len(), names.iter().map(|n| n.len()).collect::<Vec<_>>()));
        let mut w = WBuffer::new(off); ok("pre", w.write_array_u8(&pre))?;
        let mut l = L { base: off as usize, ..Default::default() }; l.out.extend(&pre);
        for (a, d) in &ds(&ts) { let b = w.pos(); let n = ok("write_object_any", w.write_object_any(*d, *a))?; eq("count", n, w.pos() - b)?; l.one(*a, d); }
        eqb("buffer", w.p(), &l.out)
    });
}
fn ds(t: &[(usize, N)]) -> Vec<(usize, &N)> { t.iter().map(|(a, d)| (*a, d)).collect() }
pub fn run(x: &mut Ctx) {
    nested(x);
    x.case("objects written in a row", 3000, |g, _| {
        let off = if g.chance(1, 2) { 0 } else { g.below(3000) as u32 }; let n = g.size(12) + 1;
        let share = g.chance(1, 4);
        let mut ds: Vec<(usize, D)> = vec![];
        for i in 0..n { let d = any(g); let a = if share && i > 0 && g.chance(1, 3) { let j = g.below(i as u64) as usize; ds[j].0 } else { 1000 + 8 * i }; ds.push((a, d)); }
        let pre = { let n = g.size(30) + 1; g.bytes(n) };
        g.note(format!("offset {off}, {} bytes before, classes {:?} addresses {:?}", pre.len(), ds.iter().map(|d| d.1.class).collect::<Vec<_>>(), ds.iter().map(|d| d.0).collect::<Vec<_>>()));
        let mut w = WBuffer::new(off); ok("pre", w.write_array_u8(&pre))?;
        for (a, d) in &ds { let b = w.pos(); let n = ok("write_object_any", w.write_object_any(d, *a))?; eq("count", n, w.pos() - b)?; }
        let e = layout(&ds, off as usize, pre.len());
        eqb("buffer", &w.p()[pre.len()..], &e)?;
        let all = cat(&[w.p().clone(), vec![9, 9]]);
        let mut r = RBuffer::new(&all, off); ok("pre", r.skip(pre.len() as i64))?;
        let mut seen = vec![];
        for (a, d) in &ds {
            let o = ok("read_object_any_into", r.read_object_any_into())?;
            if seen.contains(a) { continue }  // a reference to an object already read: not resolved by the reader
            seen.push(*a);
            same(d, &o.ok_or("no object read")?)?;
        }
        eq("left", r.len(), 2)
    });
    x.case("null object", 50, |g, _| {
        let mut w = WBuffer::new(0); ok("pre", w.write_u8(1))?; ok("nil", w.write_object_nil())?; eqb("nil", w.p(), &[1, 0, 0, 0, 0])?;
        let mut r = RBuffer::new(&w.p()[1..], 0); hold("nil reads as an object", ok("read", r.read_object_any_into())?.is_none())?; eq("left", r.len(), 0)
    });
    x.case("list and array of objects", 1200, |g, _| {
        let off = if g.chance(1, 2) { 0 } else { g.below(3000) as u32 }; let n = g.size(12);
        let ds: Vec<(usize, D)> = (0..n).map(|i| (1000 + 8 * i, any(g))).collect();
        g.note(format!("offset {off}, classes {:?}", ds.iter().map(|d| d.1.class).collect::<Vec<_>>()));
        let mut w = WBuffer::new(off); let mut l = WriterList::new(); for (a, d) in &ds { l.push(d, *a) }
        let c = ok("list", l.marshal(&mut w))?; eq("count", c, w.len() as i64)?;
        let mut r = RBuffer::new(w.p(), off); let mut rl = ReaderList::new(); ok("read list", rl.unmarshal(&mut r))?;
        eq("length", rl.len(), n)?; eq("left", r.len(), 0)?;
        for (_, d) in ds.iter().rev() { let o = rl.remove(rl.len() - 1); same(d, &o)?; }
        let mut w = WBuffer::new(off); let mut l = WriterObjArray::new(); for (a, d) in &ds { l.push(d, *a) }
        let c = ok("array", l.marshal(&mut w))?; eq("count", c, w.len() as i64)?;
        let mut r = RBuffer::new(w.p(), off); let mut ra = ReaderObjArray::new(); ok("read array", ra.unmarshal(&mut r))?;
        let os = ra.take_objs(); eq("length", os.len(), n)?; eq("left", r.len(), 0)?;
        for ((_, d), o) in ds.iter().zip(&os) { same(d, o)?; }
        Ok(())
    });
}
