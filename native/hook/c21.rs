include!("objs.rs");
use crate::rcont::{list::verif as vl, objarray::verif as va};
use crate::rbase::verif::object as vo;
/// class and body of an object read; texts compared when the class holds one
fn name(g: &mut Gen) -> Option<String> { if g.chance(1, 2) { None } else if g.chance(1, 6) { Some(g.text(300)) } else { let n = g.below(12) as usize; Some(g.text(n)) } }
fn head_bytes(id: u32, bits: u32) -> Vec<u8> { let r = bits & 16 != 0; cat(&[rbe(1, 2), rbe(if r { id & 0xff_ffff } else { id } as u64, 4), rbe(bits as u64, 4), if r { vec![0, 0] } else { vec![] }]) }
fn parents(g: &mut Gen) -> (u32, u32) { if g.chance(1, 2) { (0, 0x300_0000) } else { (g.bits() as u32, g.bits() as u32) } }
fn count(b: &mut Vec<u8>) { let n = (b.len() as u64 - 4) | 0x4000_0000; b[..4].copy_from_slice(&rbe(n, 4)); }
/// the records of objects at position `at`, each followed by sep; None: a null record (in one of the two ways to write it)
fn records(l: &mut L, os: &[Option<(usize, N)>], sep: &[u8]) { for o in os { match o { Some((a, d)) => l.one(*a, d), None => l.out.extend(rbe(0, 4)) } l.out.extend(sep); } }
fn written(x: &mut Ctx) {
    x.case("the bytes of a list and of an array", 1500, |g, _| {
        let names: Vec<&'static str> = (0..1 + g.below(6)).map(|_| { let n = match g.below(3) { 0 => 10, 1 => 40, _ => 300 }; &*Box::leak(g.ident(n).into_boxed_str()) }).collect();
        let off = if g.chance(1, 2) { 0 } else { g.below(3000) as u32 }; let mut next = 4096;
        let n = if g.chance(1, 40) { 300 } else { g.below(9) as usize };
        let ts: Vec<(usize, N)> = (0..n).map(|_| { let d = if n > 20 { 0 } else { g.below(3) as u32 }; tree(g, &names, d, &mut next) }).collect();
        let again: Vec<usize> = if g.chance(1, 5) && n > 0 { (0..1 + g.below(3)).map(|_| g.below(n as u64) as usize).collect() } else { vec![] };
        let pre = { let n = g.size(30); g.bytes(n) }; let nm = name(g); let (id, bits) = parents(g); let low = if g.chance(1, 2) { 0 } else { g.bits() as i32 };
        g.note(format!("offset {off}, {} bytes before, {n} objects, again {again:?}, classes {:?}, name {nm:?}, object {id:x}/{bits:x}, low {low}", pre.len(), ts.iter().map(|t| clip(t.1.class, 12)).take(12).collect::<Vec<_>>()));
        let all: Vec<&(usize, N)> = ts.iter().chain(again.iter().map(|i| &ts[*i])).collect();
        for list in [true, false] {
            let mut w = WBuffer::new(off); ok("pre", w.write_array_u8(&pre))?;
            // something written before in the same buffer: its classes can be referred to
            let before = if g.chance(1, 2) { Some((64usize, N { class: names[0], body: vec![1, 2, 3], kids: vec![] })) } else { None };
            let mut l = L { base: off as usize, ..Default::default() }; l.out.extend(&pre);
            if let Some((a, d)) = &before { if pre.is_empty() { ok("u8", w.write_u8(7))?; l.out.push(7); } ok("before", w.write_object_any(d, *a))?; l.one(*a, d); }
            let beg = l.out.len(); let p0 = w.pos();
            l.out.extend(rbe(0, 4)); l.out.extend(rbe(if list { 5 } else { 3 }, 2)); l.out.extend(head_bytes(id, bits)); l.out.extend(rstr(nm.clone().unwrap_or_default().as_bytes())); l.out.extend(rbe(all.len() as u64, 4));
            if !list { l.out.extend(rbe(low as u32 as u64, 4)); }
            for (a, d) in &all { l.one(*a, d); if list { l.out.push(0); } }
            let n = (l.out.len() - beg - 4) as u64 | 0x4000_0000; l.out[beg..beg + 4].copy_from_slice(&rbe(n, 4));
            let c = if list { let mut k = WriterList::new(); vl::set(&mut k, nm.clone(), vo::mk(id, bits)); for (a, d) in &all { k.push(d, *a) } ok("list", k.marshal(&mut w))? }
                else { let mut k = WriterObjArray::new(); va::set(&mut k, nm.clone(), vo::mk(id, bits), low); for (a, d) in &all { k.push(d, *a) } ok("array", k.marshal(&mut w))? };
            eq("count", c, w.pos() - p0)?; eqb(if list { "list" } else { "array" }, w.p(), &l.out)?;
        }
        Ok(())
    });
}
fn bits_read(bits: u32) -> u32 { bits | 0x0100_0000 }
fn read(x: &mut Ctx) {
    x.case("lists and arrays of every version, read", 2000, |g, _| {
        let off = if g.chance(1, 2) { 0 } else { g.below(3000) as u32 }; let n = if g.chance(1, 40) { 300 } else { g.below(9) as usize };
        let list = g.chance(1, 2); let v = if list { 4 + g.below(2) as i16 } else { 1 + g.below(3) as i16 };
        let ds: Vec<Option<(usize, D)>> = (0..n).map(|i| if !list && g.chance(1, 5) { None } else { Some((1000 + 8 * i, any(g))) }).collect();
        let nm = name(g).unwrap_or_default(); let (id, bits) = parents(g); let low = g.bits() as i32; let counted = g.chance(3, 4);
        g.note(format!("{} of version {v}, counted {counted}, offset {off}, {n} objects {:?}, name {nm:?}", if list { "list" } else { "array" }, ds.iter().map(|d| d.as_ref().map(|d| d.1.class)).take(12).collect::<Vec<_>>()));
        let mut l = L { base: off as usize, ..Default::default() };
        let pre = { let n = g.size(30); g.bytes(n) }; l.out.extend(&pre);
        let beg = l.out.len(); if counted { l.out.extend(rbe(0, 4)); } l.out.extend(rbe(v as u64, 2));
        if list || v > 2 { l.out.extend(head_bytes(id, bits & !0x0100_0000)); } if list || v > 1 { l.out.extend(rstr(nm.as_bytes())); }
        l.out.extend(rbe(n as u64, 4)); if !list { l.out.extend(rbe(low as u32 as u64, 4)); }
        let os: Vec<Option<(usize, N)>> = ds.iter().map(|d| d.as_ref().map(|(a, d)| (*a, N { class: d.class, body: d.body.clone(), kids: vec![] }))).collect();
        records(&mut l, &os, if list { &[0] } else { &[] });
        if counted { let n = (l.out.len() - beg - 4) as u64 | 0x4000_0000; l.out[beg..beg + 4].copy_from_slice(&rbe(n, 4)); }
        let tail = g.size(9) + 2; let end = l.out.len(); l.out.extend(g.bytes(tail));
        // an uncounted header is only told apart when the bit is not set in its place
        if !counted && l.out[beg] & 0x40 != 0 { return Ok(()) }
        let mut r = RBuffer::new(&l.out, off); ok("pre", r.skip(pre.len() as i64))?;
        let want: Vec<&D> = ds.iter().flatten().map(|d| &d.1).collect();
        if list {
            let mut k = ReaderList::new(); ok("list", k.unmarshal(&mut r))?;
            eq("left", r.len(), (l.out.len() - end) as i64)?; eq("length", k.len(), want.len())?; eq("empty", k.is_empty(), want.is_empty())?;
            let (a, o) = vl::parts(&k); eq("name", a, Some(nm.clone()))?; let b = vo::parts(o); eq("object", b, (if bits & 16 != 0 { id & 0xff_ffff } else { id }, bits_read(bits & !0x0100_0000)))?;
            for (i, d) in want.iter().enumerate() { if d.class == "TObjString" { eq("text in place", k.at::<crate::rbase::TObjString>(i).to_string(), d.text.clone())?; } }
            // taken out one by one, in any order, the others stay
            let mut rest = want.clone(); while !rest.is_empty() { let i = g.below(rest.len() as u64) as usize; let o = k.remove(i); same(rest.remove(i), &o)?; eq("length", k.len(), rest.len())?; }
        } else {
            let mut k = ReaderObjArray::new(); ok("array", k.unmarshal(&mut r))?;
            eq("left", r.len(), (l.out.len() - end) as i64)?;
            let (a, o, lo) = va::parts(&k); eq("low", lo, low)?; if v > 1 { eq("name", a, Some(nm.clone()))?; } if v > 2 { eq("object", vo::parts(o), (if bits & 16 != 0 { id & 0xff_ffff } else { id }, bits_read(bits & !0x0100_0000)))?; }
            let os = k.take_objs(); eq("length", os.len(), want.len())?; for (d, o) in want.iter().zip(&os) { same(d, o)?; }
            eq("after taking", k.take_objs().len(), 0)?;
        }
        Ok(())
    });
    x.case("versions out of range", 300, |g, _| {
        let list = g.chance(1, 2); let v = if list { *g.pick(&[-1i16, 0, 1, 2, 3, 6, 7, 300, i16::MAX]) } else { *g.pick(&[4i16, 5, 6, 300, i16::MAX]) };
        g.note(format!("{} of version {v}", if list { "list" } else { "array" }));
        let b = cat(&[rbe(0x4000_0000 | 40, 4), rbe(v as u16 as u64, 2), vec![0; 60]]); let mut r = RBuffer::new(&b, 0);
        let bad = if list { ReaderList::new().unmarshal(&mut r).is_ok() } else { ReaderObjArray::new().unmarshal(&mut r).is_ok() };
        hold("read in spite of its version", !bad)
    });
}
fn both(x: &mut Ctx) {
    x.case("lists inside arrays inside lists", 600, |g, _| {
        let off = g.below(3000) as u32; let n = g.size(12);
        let ds: Vec<(usize, D)> = (0..n).map(|i| (1000 + 8 * i, any(g))).collect();
        g.note(format!("offset {off}, classes {:?}", ds.iter().map(|d| d.1.class).collect::<Vec<_>>()));
        let mut w = WBuffer::new(off); let mut l = WriterList::new(); for (a, d) in &ds { l.push(d, *a) }
        ok("list", l.marshal(&mut w))?; let mut k = WriterObjArray::new(); for (a, d) in &ds { k.push(d, *a + 4) } ok("array behind it", k.marshal(&mut w))?;
        let mut r = RBuffer::new(w.p(), off); let mut rl = ReaderList::new(); ok("read list", rl.unmarshal(&mut r))?; let mut ra = ReaderObjArray::new(); ok("read array", ra.unmarshal(&mut r))?;
        eq("left", r.len(), 0)?; eq("length", rl.len(), n)?; let os = ra.take_objs(); eq("length", os.len(), n)?;
        for ((_, d), o) in ds.iter().zip(&os) { same(d, o)?; } for (_, d) in ds.iter() { let o = rl.remove(0); same(d, &o)?; }
        Ok(())
    });
}
pub fn run(x: &mut Ctx) { written(x); read(x); both(x); }
