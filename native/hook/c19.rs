use crate::rbase::{self, verif as vb};
use crate::rbytes::rbuffer::RBuffer;
use crate::rbytes::wbuffer::WBuffer;
use crate::rtree::tree::tio_features::TioFeatures;
use crate::{Marshaler, Unmarshaler};
fn framed(vers: i16, body: &[u8]) -> Vec<u8> { cat(&[rbe((body.len() as u64 + 2) | 0x4000_0000, 4), rbe(vers as u16 as u64, 2), body.to_vec()]) }
/// the same block without a byte count
fn bare(vers: i16, body: &[u8]) -> Vec<u8> { cat(&[rbe(vers as u16 as u64, 2), body.to_vec()]) }
fn object(id: u32, bits: u32) -> Vec<u8> {
    if bits & 16 != 0 { cat(&[rbe(1, 2), rbe(id as u64 & 0xff_ffff, 4), rbe(bits as u64, 4), vec![0, 0]]) } else { cat(&[rbe(1, 2), rbe(id as u64, 4), rbe(bits as u64, 4)]) }
}
fn back(id: u32, bits: u32) -> (u32, u32) { (if bits & 16 != 0 { id & 0xff_ffff } else { id }, bits | 0x0100_0000) }
/// marshal into a buffer with something in front, compare the bytes, read them back with something behind
fn both<T: Marshaler + Unmarshaler + Default>(g: &mut Gen, v: &T, want: &[u8], say: impl Fn(&T) -> Result<(), String>) -> Result<(), String> {
    let n = 1 + g.size(20); let pre = g.bytes(n); let mut w = WBuffer::new(g.below(1000) as u32); ok("pre", w.write_array_u8(&pre))?;
    let n = ok("marshal", w.write_object(v))?; eq("count returned", n, want.len() as i64)?;
    eqb("buffer", w.p(), &cat(&[pre.clone(), want.to_vec()]))?;
    read(g, want, say)
}
fn read<T: Unmarshaler + Default>(g: &mut Gen, b: &[u8], say: impl Fn(&T) -> Result<(), String>) -> Result<(), String> {
    let n = g.size(12); let tail = g.bytes(n); let all = cat(&[b.to_vec(), tail]); let mut r = RBuffer::new(&all, g.below(1000) as u32); let mut o = T::default();
    ok("unmarshal", o.unmarshal(&mut r))?; eq("left", r.len(), n as i64)?; say(&o)
}
fn bits(g: &mut Gen) -> u32 { let b = g.bits() as u32; if g.chance(1, 3) { b | 16 } else { b } }
pub fn run(x: &mut Ctx) {
    x.case("TObject", 6000, |g, _| {
        let (id, b) = (g.bits() as u32, bits(g)); g.note(format!("id {id:#x} bits {b:#x}"));
        both(g, &vb::object::mk(id, b), &object(id, b), |o: &rbase::Object| eq("read back", vb::object::parts(o), back(id, b)))
    });
    x.case("TNamed", 4000, |g, _| {
        let (id, b, name, title) = (g.bits() as u32, bits(g), g.string(), g.string()); g.note(format!("id {id:#x} bits {b:#x} name {name:?} title {title:?}"));
        let v = rbase::Named { obj: vb::object::mk(id, b), name: name.clone(), title: title.clone() };
        let body = cat(&[object(id, b), rstr(name.as_bytes()), rstr(title.as_bytes())]);
        let say = |o: &rbase::Named| { eq("object", vb::object::parts(&o.obj), back(id, b))?; eq("name", &o.name, &name)?; eq("title", &o.title, &title) };
        both(g, &v, &framed(1, &body), say)?; read(g, &bare(g.clone().range(0, 1) as i16, &body), say)
    });
    x.case("TObjString", 2000, |g, _| {
        let (id, b, s) = (g.bits() as u32, bits(g), g.string()); g.note(format!("id {id:#x} bits {b:#x} {s:?}"));
        let body = cat(&[object(id, b), rstr(s.as_bytes())]); let v = g.range(-3, 1) as i16; let all = if g.chance(1, 2) { framed(v, &body) } else { bare(v & 1, &body) };
        read(g, &all, |o: &rbase::TObjString| { eq("object", vb::object::parts(vb::ostring::obj(o)), back(id, b))?; eq("text", &o.to_string(), &s) })
    });
    x.case("drawing attributes", 6000, |g, k| {
        let (c, s, w, f) = (if k % 3 == 0 { *g.pick(&[0, 1, 400, 416, 432, 600, 616, 632, 800, 820, 840, 860, 880, 900, 920, -1, i16::MIN, i16::MAX]) } else { g.bits() as i16 }, g.bits() as i16, g.bits() as i16, f32::from_bits(g.bits() as u32));
        g.note(format!("color {c} style {s} width {w} / {f:?}"));
        let (fb, lb, mb) = (cat(&[rbe(c as u16 as u64, 2), rbe(s as u16 as u64, 2)]), cat(&[rbe(c as u16 as u64, 2), rbe(s as u16 as u64, 2), rbe(w as u16 as u64, 2)]), cat(&[rbe(c as u16 as u64, 2), rbe(s as u16 as u64, 2), rbe(f.to_bits() as u64, 4)]));
        let v = g.range(0, 2) as i16;
        let sf = |o: &rbase::AttFill| eq("fill", vb::fill::parts(o), (c, s)); both(g, &vb::fill::mk(c, s), &framed(2, &fb), sf)?; read(g, &bare(v, &fb), sf)?;
        let sl = |o: &rbase::AttLine| eq("line", vb::line::parts(o), (c, s, w)); both(g, &vb::line::mk(c, s, w), &framed(2, &lb), sl)?; read(g, &bare(v, &lb), sl)?;
        let sm = |o: &rbase::AttMarker| { let p = vb::marker::parts(o); eq("marker", (p.0, p.1, p.2.to_bits()), (c, s, f.to_bits())) }; both(g, &vb::marker::mk(c, s, f), &framed(2, &mb), sm)?; read(g, &bare(v, &mb), sm)
    });
    x.case("TIOFeatures", 256, |g, k| {
        let n = k as u8; g.note(format!("features {n}"));
        let body = if n == 0 { vec![0] } else { vec![0x1a, 0xa1, 0x2f, 0x10, n] };
        let say = |o: &TioFeatures| eq("features", o.0, n);
        both(g, &TioFeatures(n), &framed(1, &body), say)?; read(g, &bare(1, &body), say)
    });
}
