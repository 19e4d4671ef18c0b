include!("files.rs");
include!("trees.rs");
use crate::rtree::basket::{Basket, BasketData};
use crate::rtree::branch::TBranch;
use crate::rtree::wbasket::WBasket;
use crate::Branch;
pub fn run(x: &mut Ctx) {
    x.case("a basket written and found in the file", 700, |g, i| {
        let path = scratch(g, 0); let _gone = Gone(path.clone());
        let mut f = ok("create", crate::RootFile::create(&path))?; let n = g.strlen().min(14_000); let bn = g.text(n); let n = g.strlen().min(14_000); let tn = g.text(n);
        let (bn, tn) = if i % 3 == 0 { (bn, tn) } else { (g.ident(9), g.ident(9)) };
        let big = i % 7; if big == 1 { ok("set_end", f.set_end(2_000_000_000 + 1 + g.below(99) as i64))?; }
        let off = match g.below(4) { 0 => 0, 1 => 1000, _ => 1 + g.below(30) as i32 }; let cycle = 1 + g.below(300) as i16;
        let t = crate::WriterTree::new(tn.clone()); let b = Branch::Base(TBranch::new(bn.clone()));
        let mut w = WBasket::new(Basket::new_from_branch(&b, cycle, 32768, off, &t, &f));
        if big == 2 { ok("set_end", f.set_end(2_000_000_000 + 1 + g.below(99) as i64))?; }
        let n = if off == 1000 && g.chance(1, 3) { g.size(2500) } else { g.size(60) };
        let items: Vec<Vec<u8>> = (0..n).map(|_| { let l = 1 + g.size(40); g.bytes(l) }).collect(); g.note(format!("{bn:?}/{tn:?} {n} entries, table {off}, big {big}"));
        for e in &items { let at = w.wbuf.len() as i64; ok("update", w.update(at))?; ok("entry", w.wbuf.write_array_u8(e))?; }
        let at = f.end(); let r = ok("write_to_file", w.write_to_file(&mut f))?; vr::file::flush(&mut f);
        use std::io::{Read, Seek}; let mut h = std::fs::File::open(&path).map_err(|e| e.to_string())?; h.seek(std::io::SeekFrom::Start(at as u64)).map_err(|e| e.to_string())?; let mut rec = vec![]; h.read_to_end(&mut rec).map_err(|e| e.to_string())?;
        let k0 = w.basket.key(); eq("place", k0.seek_key(), at)?; eq("end of the file", f.end(), at + k0.n_bytes() as i64)?; eq("record", rec.len(), k0.n_bytes() as usize)?; eq("bytes reported", (r.tot_bytes, r.zip_bytes), (rec.len() as i64, rec.len() as i64))?;
        eq("buffer left", w.wbuf.len(), 0)?;
        let mut k = { let mut s = rkey(&rec, 0)?; eq("seek", s.seek, at)?; s.seek = 0; let w8 = if s.vers > 1000 { 8 } else { 4 }; let mut z = rec.clone(); for b in z[18..18 + w8].iter_mut() { *b = 0 } rbasket(&z, 0)? };
        k.key.seek = at; eq("width of the key", k.key.vers > 1000, at > 2_000_000_000)?; eq("names", (k.key.name.clone(), k.key.title.clone(), k.key.cycle), (bn, tn, cycle as i64))?;
        basket_is(&k, &items, off > 0)?; eq("room", k.buf_size, 32768)?;
        // and what the library's own reader makes of it
        let mut r = crate::rbytes::rbuffer::RBuffer::new(&rec, 0); let b = ok("read", r.read_object_into::<Basket>())?; eq("left", r.len(), k.key.obj_len)?;
        eq("entries", b.nev_buf(), n as i32)?; eq("border", b.border(), k.data.len() as i32)?; eq("size of the payload", b.uncompressed_bytes(), k.key.obj_len as i32)?; eq("offsets", b.offsets().len(), 0)?; hold("embedded", (k.key.obj_len == 0) == b.is_embedded())?;
        let mut f2 = ok("reader", crate::riofs::file::RootFileReader::new(std::path::Path::new(&path)))?;
        match b.raw_data(&mut f2) {
            BasketData::TrustNEntries((m, d)) => { hold("no table", off == 0)?; eq("entries", m, n as i32)?; eqb("data", &d, &k.data) }
            BasketData::UnTrustNEntries((m, d, o)) => { hold("a table", off > 0)?; eq("entries", m, n as i32)?; eqb("data", &d, &k.data)?; let mut want = vec![0]; for e in &items { want.push(want.last().unwrap() + e.len() as i32); } eq("starts", o, want) }
        }
    });
    x.case("the fields of a basket's head", 1500, |g, _| {
        let k = crate::riofs::verif::key::K { n_bytes: g.bits() as i32 & 0xff_ffff, rvers: 4, obj_len: g.bits() as i32 & 0xff_ffff, date: date(g), key_len: g.below(2000) as i32, cycle: g.bits() as i16, seek_key: g.below(2_000_000_000) as i64, seek_pdir: g.below(2_000_000_000) as i64, class: "TBasket".into(), name: g.string(), title: g.string() };
        let (bs, ns, nb, last) = (g.bits() as i32, g.bits() as i32 & 0x7fff_ffff, g.bits() as i32, g.bits() as i32 & 0x7fff_ffff); g.note(format!("{bs} {ns} {nb} {last}"));
        let mut b = Basket::default(); b.set_key(crate::riofs::verif::key::mk(&k)); b.buf_size = bs; b.nev_size = ns; b.nev_buf = nb; b.last = last;
        let mut w = WBuffer::new(0); ok("marshal", crate::Marshaler::marshal(&WBasket::new(b), &mut w))?;
        let h = cat(&[rbe(3, 2), rbe(bs as u32 as u64, 4), rbe(ns as u32 as u64, 4), rbe(nb as u32 as u64, 4), rbe(last as u32 as u64, 4), vec![0]]); let n = w.p().len(); eqb("head", &w.p()[n - h.len()..], &h)?;
        let mut r = crate::rbytes::rbuffer::RBuffer::new(w.p(), 0); let b = ok("read", r.read_object_into::<Basket>())?; eq("left", r.len(), 0)?;
        eq("fields", (b.buf_size, b.entry_size(), b.nev_buf(), b.last, b.border()), (bs.max(last), ns, nb, last, last.wrapping_sub(k.key_len)))?; eq("key", crate::riofs::verif::key::parts(b.key()), k)
    });
}
