use crate::rbytes::verif::{hlen, hpos};
use crate::rbytes::rbuffer::RBuffer;
use crate::rbytes::wbuffer::WBuffer;
/// a tree of framed blocks: version, loose bytes and nested blocks
#[derive(Debug, Clone)]
pub enum Item { Loose(Vec<u8>), Block(i16, Vec<Item>) }
fn any(g: &mut Gen, d: usize) -> Vec<Item> {
    let n = g.below(if d == 0 { 5 } else { 4 }) as usize;
    (0..n).map(|_| if d < 4 && g.chance(1, 2) { Item::Block(g.bits() as i16, any(g, d + 1)) } else { let n = g.size(20); Item::Loose(g.bytes(n)) }).collect()
}
fn bytes(v: &[Item]) -> Vec<u8> {
    let mut o = vec![];
    for i in v { match i {
        Item::Loose(b) => o.extend_from_slice(b),
        Item::Block(ver, c) => { let body = bytes(c); o.extend(rbe((body.len() as u64 + 2) | 0x4000_0000, 4)); o.extend(rbe(*ver as u16 as u64, 2)); o.extend(body); }
    } }
    o
}
fn write(w: &mut WBuffer, v: &[Item]) -> Result<(), String> {
    for i in v { match i {
        Item::Loose(b) => ok("loose", w.write_array_u8(b))?,
        Item::Block(ver, c) => {
            let at = w.len();
            let h = ok("write_header", w.write_header("X", *ver))?;
            eq("six bytes", w.len(), at + 6)?;
            write(w, c)?;
            let end = w.len();
            let n = ok("set_header", w.set_header(h))?;
            eq("set_header result", n, (end - at) as i64)?;
            eq("length after closing", w.len(), end)?;
        }
    } }
    Ok(())
}
fn read(r: &mut RBuffer, v: &[Item]) -> Result<(), String> {
    for i in v { match i {
        Item::Loose(b) => { let x = ok("loose", r.read_array_u8(b.len()))?; eqb("loose", x, b)?; }
        Item::Block(ver, c) => {
            let at = r.pos();
            let h = ok("read_header", r.read_header("X"))?;
            eq("version", h.vers, *ver)?;
            read(r, c)?;
            eq("counted bytes", hlen(&h) as i64 + 4, r.pos() - at)?;
            eq("header position", hpos(&h), at)?;
        }
    } }
    Ok(())
}
pub fn run(x: &mut Ctx) {
    x.case("framed blocks nest", 4000, |g, _| {
        let v = any(g, 0); let off = if g.chance(1, 2) { 0 } else { g.below(5000) as u32 };
        let pre = { let n = g.size(9); g.bytes(n) };
        g.note(format!("offset {off}, {}", clip(&format!("{v:?}"), 140)));
        let mut w = WBuffer::new(off); ok("pre", w.write_array_u8(&pre))?;
        write(&mut w, &v)?;
        let e = cat(&[pre.clone(), bytes(&v)]);
        eqb("buffer", w.p(), &e)?;
        let all = cat(&[e, vec![1, 2, 3]]);
        let mut r = RBuffer::new(&all, off); ok("pre", r.skip(pre.len() as i64))?;
        read(&mut r, &v)?; eq("left", r.len(), 3)
    });
    x.case("large framed block", 6, |g, k| {
        let n = [1usize, 255, 65533, 65534, 65535, 300000][k as usize % 6];
        g.note(format!("body of {n} bytes"));
        let mut w = WBuffer::new(77); let h = ok("h", w.write_header("X", 9))?; let body = vec![0xABu8; n]; ok("b", w.write_array_u8(&body))?; ok("s", w.set_header(h))?;
        let e = cat(&[rbe((n as u64 + 2) | 0x4000_0000, 4), vec![0, 9], body]);
        eqb("buffer", w.p(), &e)?;
        let h = ok("read", RBuffer::new(&e, 77).read_header("X"))?; eq("len", hlen(&h) as usize, n + 2)?; eq("vers", h.vers, 9)
    });
    x.case("header without a count", 1000, |g, _| {
        let ver = (g.bits() as i16) & !0x4000; let rest = { let n = g.size(9); g.bytes(n + 2) };
        let all = cat(&[rbe(ver as u16 as u64, 2), rest.clone()]);
        g.note(format!("version {ver}"));
        let mut r = RBuffer::new(&all, 0);
        let h = ok("read_header", r.read_header("X"))?;
        eq("version", h.vers, ver)?; eq("left", r.len(), rest.len() as i64)?; eq("len", hlen(&h), 0)
    });
    x.case("bytes written in place", 1500, |g, _| {
        let n = g.size(60) + 1; let d = g.bytes(n); let m = g.below(n as u64 + 1) as usize; let p = g.below((n - m) as u64 + 1) as usize; let q = g.bytes(m); let off = g.below(300) as u32;
        g.note(format!("{m} bytes over {n} at {p}, offset {off}"));
        let mut w = WBuffer::new(off); ok("w", w.write_array_u8(&d))?;
        ok("write_in_place", w.write_in_place(&q, p + off as usize))?;
        let mut e = d.clone(); e[p..p + m].copy_from_slice(&q);
        eqb("buffer", w.p(), &e)?; eq("pos", w.pos(), off as i64 + n as i64)
    });
}
