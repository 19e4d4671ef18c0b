use crate::rbytes::rbuffer::RBuffer;
use crate::rbytes::wbuffer::WBuffer;
use crate::rbytes::RVersioner;
use crate::root::traits::{Named, Object};
use crate::rtypes::factory::{FactoryItemRead, FactoryItemWrite};
use crate::rcont::list::{ReaderList, WriterList};
use crate::rcont::objarray::{ReaderObjArray, WriterObjArray};
use crate::{Marshaler, Unmarshaler};
/// an object to write: its class, what it holds, objects written inside it
pub struct D { class: &'static str, body: Vec<u8>, text: String }
impl Object for D { fn class(&self) -> &str { self.class } }
impl Named for D { fn name(&self) -> &str { "n" } fn title(&self) -> &str { "t" } }
impl RVersioner for D { fn rversion(&self) -> i16 { 1 } }
impl Marshaler for D { fn marshal(&self, w: &mut WBuffer) -> crate::rbytes::Result<i64> { w.write_array_u8(&self.body)?; Ok(self.body.len() as i64) } }
fn framed(v: i16, body: Vec<u8>) -> Vec<u8> { cat(&[rbe((body.len() as u64 + 2) | 0x4000_0000, 4), rbe(v as u64, 2), body]) }
fn any(g: &mut Gen) -> D {
    match g.below(4) {
        0 => { let s = if g.chance(1, 10) { g.text(300) } else { let n = g.below(20) as usize; g.text(n) };
               D { class: "TObjString", body: framed(1, cat(&[vec![0, 1, 0, 0, 0, 0, 3, 0, 0, 0], rstr(s.as_bytes())])), text: s } }
        1 => D { class: "TAttLine", body: framed(2, g.bytes(6)), text: String::new() },
        2 => D { class: "TAttFill", body: framed(2, g.bytes(4)), text: String::new() },
        _ => D { class: "TAttMarker", body: framed(2, g.bytes(8)), text: String::new() },
    }
}
fn same(d: &D, o: &Box<dyn FactoryItemRead>) -> Result<(), String> {
    eq("class", o.class(), d.class)?;
    if d.class == "TObjString" { let s = o.downcast_ref::<crate::rbase::TObjString>().map_err(|_| "not a TObjString".to_string())?; eq("text", s.to_string(), d.text.clone())?; }
    if d.class == "TAttLine" { let s = o.downcast_ref::<crate::rbase::AttLine>().map_err(|_| "not a TAttLine".to_string())?; let mut w = WBuffer::new(0); ok("again", s.marshal(&mut w))?; eqb("body", &w.p()[8..], &d.body[8..])?; }
    Ok(())
}
/// the reference layout of a run of objects, from the protocol: a counted block holding a class tag and the body;
/// a class is named once and referred to afterwards by the position of its tag; an object met again is referred to by its own position
fn layout(ds: &[(usize, D)], off: usize, start: usize) -> Vec<u8> {
    let mut o = vec![]; let mut cls: Vec<(&str, usize)> = vec![]; let mut seen: Vec<(usize, usize)> = vec![];
    for (addr, d) in ds {
        let beg = off + start + o.len(); let tag = beg + 4;
        let body = if let Some((_, p)) = seen.iter().find(|x| x.0 == *addr) { rbe(*p as u64, 4) }
            else if let Some((_, p)) = cls.iter().find(|x| x.0 == d.class) { seen.push((*addr, beg + 2)); cat(&[rbe(*p as u64 | 0x8000_0000, 4), d.body.clone()]) }
            else { cls.push((d.class, tag + 2)); seen.push((*addr, beg + 2)); cat(&[rbe(0xFFFF_FFFF, 4), d.class.as_bytes().to_vec(), vec![0], d.body.clone()]) };
        o.extend(rbe(body.len() as u64 | 0x4000_0000, 4)); o.extend(body);
    }
    o
}
/// any class name, objects inside objects
pub struct N { class: &'static str, body: Vec<u8>, kids: Vec<(usize, N)> }
impl Object for N { fn class(&self) -> &str { self.class } }
impl Named for N {}
impl RVersioner for N { fn rversion(&self) -> i16 { 1 } }
impl Marshaler for N { fn marshal(&self, w: &mut WBuffer) -> crate::rbytes::Result<i64> { let b = w.pos(); w.write_array_u8(&self.body)?; for (a, k) in &self.kids { w.write_object_any(k, *a)?; } Ok(w.pos() - b) } }
#[derive(Default)]
struct L { out: Vec<u8>, base: usize, cls: Vec<(&'static str, usize)>, seen: Vec<(usize, usize)> }
impl L {
    fn at(&self) -> usize { self.base + self.out.len() }
    fn one(&mut self, addr: usize, d: &N) {
        let beg = self.at(); let i = self.out.len(); self.out.extend(rbe(0, 4));
        if let Some((_, p)) = self.seen.iter().find(|x| x.0 == addr) { let p = *p; self.out.extend(rbe(p as u64, 4)); }
        else if let Some((_, p)) = self.cls.iter().find(|x| x.0 == d.class) { let p = *p; self.out.extend(rbe(p as u64 | 0x8000_0000, 4)); self.body(d); self.seen.push((addr, beg + 2)); }
        else { self.cls.push((d.class, beg + 4 + 2)); self.seen.push((addr, beg + 2)); self.out.extend(rbe(0xFFFF_FFFF, 4)); self.out.extend(d.class.as_bytes()); self.out.push(0); self.body(d); }
        let n = (self.out.len() - i - 4) as u64 | 0x4000_0000; self.out[i..i + 4].copy_from_slice(&rbe(n, 4));
    }
    fn body(&mut self, d: &N) { self.out.extend(&d.body); for (a, k) in &d.kids { self.one(*a, k); } }
}
fn tree(g: &mut Gen, names: &[&'static str], depth: u32, next: &mut usize) -> (usize, N) {
    let n = if depth == 0 { 0 } else { g.below(4) };
    let me = *next; *next += 8;
    let body = { let n = g.size(20); g.bytes(n) };
    let kids = (0..n).map(|_| tree(g, names, depth - 1, next)).collect();
    (me, N { class: *g.pick(names), body, kids })
}
