use crate::rbytes::rbuffer::RBuffer;
use crate::rbytes::wbuffer::WBuffer;
use crate::root::traits::Object;
use crate::rtree::leaf::verif::{self as vl, T};
use crate::rtree::leaf::{Leaf, TLeaf, LeafC, LeafElement, LeafI, LeafB, LeafS, LeafL, LeafF, LeafD, LeafO};
use crate::{Marshaler, Unmarshaler};
fn framed(vers: i16, body: &[u8]) -> Vec<u8> { cat(&[rbe((body.len() as u64 + 2) | 0x4000_0000, 4), rbe(vers as u16 as u64, 2), body.to_vec()]) }
fn any(g: &mut Gen) -> T {
    let bits = { let b = g.bits() as u32; if g.chance(1, 4) { b | 16 } else { b } };
    T { id: g.bits() as u32, bits, name: g.string(), title: g.string(), len: if g.chance(1, 4) { 0 } else { g.bits() as i32 }, etype: g.bits() as i32, offset: g.bits() as i32, hasrange: g.chance(1, 2), unsigned: g.chance(1, 2) }
}
fn enc(t: &T) -> Vec<u8> {
    let obj = if t.bits & 16 != 0 { cat(&[rbe(1, 2), rbe(t.id as u64 & 0xff_ffff, 4), rbe(t.bits as u64, 4), vec![0, 0]]) } else { cat(&[rbe(1, 2), rbe(t.id as u64, 4), rbe(t.bits as u64, 4)]) };
    let named = framed(1, &cat(&[obj, rstr(t.name.as_bytes()), rstr(t.title.as_bytes())]));
    framed(2, &cat(&[named, rbe(t.len as u32 as u64, 4), rbe(t.etype as u32 as u64, 4), rbe(t.offset as u32 as u64, 4), vec![t.hasrange as u8, t.unsigned as u8], rbe(0, 4)]))
}
/// what a reader makes of it
fn back(t: &T) -> T { T { id: if t.bits & 16 != 0 { t.id & 0xff_ffff } else { t.id }, bits: t.bits | 0x0100_0000, len: if t.len == 0 { 1 } else { t.len }, ..t.clone() } }
fn written<M: Marshaler>(g: &mut Gen, v: &M, want: &[u8]) -> Result<(), String> {
    let n = 1 + g.size(20); let pre = g.bytes(n); let mut w = WBuffer::new(g.below(1000) as u32); ok("pre", w.write_array_u8(&pre))?;
    let n = ok("marshal", w.write_object(v))?; eq("count returned", n, want.len() as i64)?; eqb("buffer", w.p(), &cat(&[pre, want.to_vec()]))
}
fn both<M: Marshaler + Unmarshaler + Default>(g: &mut Gen, v: &M, want: &[u8], say: impl Fn(&M) -> Result<(), String>) -> Result<(), String> {
    written(g, v, want)?;
    let n = g.size(12); let tail = g.bytes(n); let all = cat(&[want.to_vec(), tail]); let mut r = RBuffer::new(&all, g.below(1000) as u32); let mut o = M::default();
    ok("unmarshal", o.unmarshal(&mut r))?; eq("left", r.len(), n as i64)?; say(&o)
}
macro_rules! variant { ($x:expr, $t:ident, $cls:literal, $mk:ident, $p:ident, $ty:ty, $w:expr, $bits:expr, $any:expr, $leaf:ident) => {
    $x.case($cls, 800, |g, _| {
        let t = any(g); let (a, b): ($ty, $ty) = ($any(g), $any(g)); g.note(format!("{t:?} {a:?} {b:?}"));
        let f = |v: $ty| rbe($bits(v), $w); let e = framed(1, &cat(&[enc(&t), f(a), f(b)]));
        let v = vl::$mk(1, &t, a, b); eq("class", v.class(), $cls)?;
        both(g, &v, &e, |o: &$t| { let q = vl::$p(o); eq("version", q.0, 1)?; eq("leaf", q.1, back(&t))?; eqb("limits", &cat(&[f(q.2), f(q.3)]), &cat(&[f(a), f(b)])) })?;
        let l = Leaf::$leaf(v); eq("class of the leaf", l.class(), $cls)?; eq("inner", vl::parts(vl::tleaf(&l)), t.clone())?; written(g, &l, &e)?;
        eq("etype", l.etype(), t.etype)?; eq("title", l.title(), t.title.as_str())?; eq("unsigned", l.unsigned(), if $cls == "TLeafElement" { None } else { Some(t.unsigned) })?;
        eq("new", { let n = $t::new(vl::mk(&t)); vl::$p(&n).1 }, t)
    });
} }
pub fn run(x: &mut Ctx) {
    x.case("TLeaf", 2000, |g, _| { let t = any(g); g.note(format!("{t:?}")); let v = vl::mk(&t); eq("class", v.class(), "TLeaf")?; both(g, &v, &enc(&t), |o: &TLeaf| eq("read back", vl::parts(o), back(&t))) });
    variant!(x, LeafI, "TLeafI", mk_i, p_i, i32, 4, |v| v as u32 as u64, |g: &mut Gen| g.bits() as i32, I);
    variant!(x, LeafB, "TLeafB", mk_b, p_b, i8, 1, |v| v as u8 as u64, |g: &mut Gen| g.bits() as i8, B);
    variant!(x, LeafS, "TLeafS", mk_s, p_s, i16, 2, |v| v as u16 as u64, |g: &mut Gen| g.bits() as i16, S);
    variant!(x, LeafL, "TLeafL", mk_l, p_l, i64, 8, |v| v as u64, |g: &mut Gen| g.bits() as i64, L);
    variant!(x, LeafF, "TLeafF", mk_f, p_f, f32, 4, |v: f32| v.to_bits() as u64, |g: &mut Gen| f32::from_bits(g.bits() as u32), F);
    variant!(x, LeafD, "TLeafD", mk_d, p_d, f64, 8, |v: f64| v.to_bits(), |g: &mut Gen| f64::from_bits(g.bits()), D);
    variant!(x, LeafO, "TLeafO", mk_o, p_o, bool, 1, |v| v as u64, |g: &mut Gen| g.chance(1, 2), O);
    variant!(x, LeafC, "TLeafC", mk_c, p_c, i32, 4, |v| v as u32 as u64, |g: &mut Gen| g.bits() as i32, C);
    variant!(x, LeafElement, "TLeafElement", mk_e, p_e, i32, 4, |v| v as u32 as u64, |g: &mut Gen| g.bits() as i32, Element);
    x.case("values written through a leaf", 1500, |g, k| {
        let mut t = any(g); let s = g.string(); let v = g.bits(); g.note(format!("kind {} {t:?} value {v:#x} / {s:?}", k % 5)); let n = 1 + g.size(9);
        let pre = g.bytes(n); let mut w = WBuffer::new(g.below(1000) as u32); ok("pre", w.write_array_u8(&pre))?;
        let all = |b: Vec<u8>| cat(&[pre.clone(), b]);
        match k % 5 {
            0 => { let mut l = Leaf::I(vl::mk_i(1, &t, 0, 0)); ok("write", l.write_to_buffer(&mut w, &(v as i32)))?; eqb("buffer", w.p(), &all(rbe(v as u32 as u64, 4)))?; eq("leaf", vl::parts(vl::tleaf(&l)), t) }
            1 => { let mut l = Leaf::D(vl::mk_d(1, &t, 0., 0.)); ok("write", l.write_to_buffer(&mut w, &f64::from_bits(v)))?; eqb("buffer", w.p(), &all(rbe(v, 8)))?; eq("leaf", vl::parts(vl::tleaf(&l)), t) }
            2 => { let a = [v as u16, 1, (v >> 16) as u16]; let mut l = Leaf::S(vl::mk_s(1, &t, 0, 0)); ok("write", l.write_to_buffer(&mut w, &a))?; eqb("buffer", w.p(), &all(cat(&[rbe(a[0] as u64, 2), rbe(1, 2), rbe(a[2] as u64, 2)])))?; eq("leaf", vl::parts(vl::tleaf(&l)), t) }
            3 => { let a = vec![v as i32, 7]; let mut l = Leaf::Element(vl::mk_e(1, &t, -1, -1)); ok("write", l.write_to_buffer(&mut w, &a))?; let e = w.p()[pre.len()..].to_vec(); eqb("before", &w.p()[..pre.len()], &pre)?;
                eqb("frame", &e[..6], &cat(&[rbe((e.len() as u64 - 4) | 0x4000_0000, 4), rbe(9, 2)]))?; eqb("value", &e[6..], &cat(&[rbe(2, 4), rbe(v as u32 as u64, 4), rbe(7, 4)]))?; eq("leaf", vl::parts(vl::tleaf(&l)), t) }
            _ => { t.len = g.range(-1, 300) as i32; let m = g.range(-1, 300) as i32; let mut l = Leaf::C(vl::mk_c(1, &t, 5, m)); ok("write", l.write_to_buffer(&mut w, &s))?; eqb("buffer", w.p(), &all(rstr(s.as_bytes())))?;
                let n = rstr(s.as_bytes()).len() as i32; if let Leaf::C(c) = &l { let q = vl::p_c(c); eq("longest", q.3, m.max(n))?; eq("shortest", q.2, 5)?; eq("leaf", q.1, T { len: t.len.max(n), ..t }) } else { Err("kind changed".into()) } }
        }
    });
}
