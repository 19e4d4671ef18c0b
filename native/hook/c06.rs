include!("files.rs");
use crate::rbytes::rbuffer::RBuffer;
use crate::{Marshaler, Unmarshaler};
use vr::key::{mk, parts, K};
fn enc(k: &K) -> Vec<u8> {
    let w = if k.rvers > 1000 { 8 } else { 4 };
    cat(&[rbe(k.n_bytes as u32 as u64, 4), rbe(k.rvers as u16 as u64, 2), rbe(k.obj_len as u32 as u64, 4), rbe(k.date as u64, 4), rbe(k.key_len as u16 as u64, 2), rbe(k.cycle as u16 as u64, 2),
        rbe(k.seek_key as u64, w), rbe(k.seek_pdir as u64, w), rstr(k.class.as_bytes()), rstr(k.name.as_bytes()), rstr(k.title.as_bytes())])
}
fn any(g: &mut Gen) -> K {
    let big = g.chance(1, 2);
    let seek = |g: &mut Gen| if big { (g.bits() as i64) & i64::MAX } else { (g.bits() as i64) & 0x7735_9400 };
    K { n_bytes: (g.bits() as i32) & i32::MAX, rvers: if big { 1004 } else { 4 }, obj_len: g.bits() as i32, date: date(g), key_len: (g.bits() as i16) as i32, cycle: g.bits() as i16, seek_key: seek(g), seek_pdir: seek(g),
        class: g.string(), name: g.string(), title: g.string() }
}
pub fn run(x: &mut Ctx) {
    x.case("key written and read back", 4000, |g, _| {
        let k = any(g); let pre = { let n = g.size(20); g.bytes(n) };
        g.note(format!("{k:?} after {} bytes", pre.len()));
        let mut w = WBuffer::new(g.below(1000) as u32); ok("pre", w.write_array_u8(&pre))?;
        let n = ok("marshal", mk(&k).marshal(&mut w))?; let e = enc(&k);
        eq("count", n, e.len() as i64)?; eqb("buffer", w.p(), &cat(&[pre.clone(), e.clone()]))?;
        let all = cat(&[e, vec![1, 2, 3]]); let mut r = RBuffer::new(&all, 0); let mut o = crate::riofs::Key::default();
        ok("unmarshal", o.unmarshal(&mut r))?; eq("read back", parts(&o), k)?; eq("left", r.len(), 3)
    });
    x.case("gap", 50, |g, _| {
        let n = -(1 + g.below(i32::MAX as u64) as i32); g.note(format!("{n}"));
        let b = cat(&[rbe(n as u32 as u64, 4), g.bytes(8)]); let mut r = RBuffer::new(&b, 0); let mut o = crate::riofs::Key::default();
        ok("unmarshal", o.unmarshal(&mut r))?; eq("class", o.class_name(), "[GAP]")?; eq("size", o.n_bytes(), n)?; eq("left", r.len(), 8)
    });
    x.case("length of a new key", 500, |g, i| {
        let at = end_pos(g, i); let (name, title) = (g.string(), g.string()); let basket = g.chance(1, 4);
        let class = if basket { "TBasket".to_string() } else { g.pick(&["TFile", "TTree", "TDirectory", "", "TBaskets"]).to_string() };
        g.note(format!("end {at}, class {class:?} name of {} bytes, title of {}", name.len(), title.len()));
        let path = scratch(g, 0); let _gone = Gone(path.clone());
        let mut f = ok("create", crate::RootFile::create(&path))?; let pd = f.dir().seek_dir; ok("set_end", f.set_end(at))?;
        let big = at > 2_000_000_000; let w = if big { 8 } else { 4 };
        let len = 18 + 2 * w + rstr(class.as_bytes()).len() + rstr(name.as_bytes()).len() + rstr(title.as_bytes()).len();
        let say = len + if class == "TBasket" { 19 } else { 0 };
        let check = |k: &crate::riofs::Key, obj: i32, seek: Option<i64>, bytes: i64| -> Result<(), String> {
            let mut b = WBuffer::new(0); ok("marshal", k.marshal(&mut b))?;
            eq("length on file", b.len() as usize, len)?; eq("stated length", k.key_len(), say as i32)?; eq("object size", k.obj_len(), obj)?;
            eq("version", k.rvers(), if big { 1004 } else { 4 })?; eq("bytes", k.n_bytes() as i64, bytes)?;
            if let Some(s) = seek { eq("address", k.seek_key(), s)?; }
            let p = parts(k); eq("directory", p.seek_pdir, pd)?; eq("class", p.class, class.clone())?; eq("name", p.name, name.clone())?; eq("title", p.title, title.clone())?;
            let r = rkey(b.p(), 0)?; eq("reads as", (r.len, r.seek, r.class, r.name, r.title), (len, k.seek_key(), class.clone(), name.clone(), title.clone()))
        };
        match g.below(4) {
            0 => { let n = g.below(5000) as i32; let k = ok("new", crate::riofs::Key::new(name.clone(), title.clone(), class.clone(), n, &mut f))?; check(&k, n, if n > 0 { Some(at) } else { None }, say as i64 + n as i64)?; eq("end", f.end(), if n > 0 { at + say as i64 + n as i64 } else { at }) }
            1 => { let n = g.size(600); let b = g.bytes(n); let c = g.below(9) as i16; let k = ok("new_from_buffer", crate::riofs::Key::new_from_buffer(name.clone(), title.clone(), class.clone(), c, b.clone(), &mut f))?; eq("cycle", k.cycle(), c as i32)?; eqb("payload", k.buffer(), &b)?; check(&k, n as i32, Some(at), (say + n) as i64)?; eq("end", f.end(), at + (say + n) as i64) }
            2 => { let c = g.below(9) as i16; let k = crate::riofs::Key::new_key_for_basket_internal(name.clone(), title.clone(), class.clone(), c, &f); eq("cycle", k.cycle(), c as i32)?; check(&k, 0, None, say as i64) }
            _ => { let n = g.size(600); let o = Blob { bytes: g.bytes(n), class: class.clone(), name: name.clone(), title: title.clone() }; let k = ok("new_from_object", crate::riofs::Key::new_from_object(&name, &title, &class, &o, &mut f))?; eq("cycle", k.cycle(), 1)?; eqb("payload", k.buffer(), &o.bytes)?; check(&k, n as i32, Some(at), (say + n) as i64)?; eq("end", f.end(), at + (say + n) as i64) }
        }
    });
}
