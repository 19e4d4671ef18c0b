use crate::rbytes::rbuffer::RBuffer;
use crate::rbytes::wbuffer::WBuffer;
use crate::{Marshaler, Unmarshaler, UnmarshalerInto};
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
/// values that can be made at random, with their reference bytes
pub trait Ref: Marshaler + Unmarshaler + Default + Clone + PartialEq + Debug { fn any(g: &mut Gen, d: usize) -> Self; fn bytes(&self) -> Vec<u8>; }
macro_rules! refnum { ($($t:ty, $w:expr);*) => { $( impl Ref for $t { fn any(g: &mut Gen, _: usize) -> Self { g.bits() as $t } fn bytes(&self) -> Vec<u8> { rbe(*self as u64, $w) } } )* } }
refnum!(i8, 1; u8, 1; i16, 2; u16, 2; i32, 4; u32, 4; i64, 8; u64, 8);
impl Ref for f32 { fn any(g: &mut Gen, _: usize) -> Self { let f = f32::from_bits(g.bits() as u32); if f.is_nan() { 1.5 } else { f } } fn bytes(&self) -> Vec<u8> { rbe(self.to_bits() as u64, 4) } }
impl Ref for f64 { fn any(g: &mut Gen, _: usize) -> Self { let f = f64::from_bits(g.bits()); if f.is_nan() { -0.25 } else { f } } fn bytes(&self) -> Vec<u8> { rbe(self.to_bits(), 8) } }
impl Ref for bool { fn any(g: &mut Gen, _: usize) -> Self { g.chance(1, 2) } fn bytes(&self) -> Vec<u8> { vec![*self as u8] } }
impl Ref for String { fn any(g: &mut Gen, d: usize) -> Self { if d == 0 { g.string() } else { let n = if g.chance(1, 12) { g.strlen().min(600) } else { g.below(12) as usize }; g.text(n) } } fn bytes(&self) -> Vec<u8> { rstr(self.as_bytes()) } }
impl<T: Ref> Ref for Vec<T> {
    fn any(g: &mut Gen, d: usize) -> Self { let n = if d == 0 { g.size(300) } else { g.size(6) }; (0..n).map(|_| T::any(g, d + 1)).collect() }
    fn bytes(&self) -> Vec<u8> { let mut v = rbe(self.len() as u64, 4); for x in self { v.extend(x.bytes()) } v }
}
fn long(x: &mut Ctx) {
    macro_rules! arr { ($t:ty, $n:literal, $w:expr) => {
        x.case(concat!("long array of ", stringify!($n), " ", stringify!($t)), 6, |g, k| {
            let s = g.bits(); let mut a: Box<[$t; $n]> = vec![0 as $t; $n].into_boxed_slice().try_into().unwrap();
            for i in 0..$n { a[i] = (s.wrapping_mul(i as u64 * 2 + 1) >> 7) as $t | 1; }
            g.note(format!("seed {s:x}"));
            let e: Vec<u8> = a.iter().flat_map(|x| rbe(*x as u64, $w)).collect();
            let mut b = WBuffer::new(0); ok("marshal", a.marshal(&mut b))?; eqb("marshal", b.p(), &e)?;
            let all = cat(&[e, vec![5; 3]]); let mut r = RBuffer::new(&all, 0);
            let mut got: Box<[$t; $n]> = vec![0 as $t; $n].into_boxed_slice().try_into().unwrap();
            ok("read", got.unmarshal(&mut r))?; hold("elements differ", got[..] == a[..])?; eq("left", r.len(), 3)
        });
    } }
    arr!(u8, 257, 1); arr!(i16, 300, 2); arr!(i32, 1030, 4); arr!(u8, 70000, 1); arr!(i64, 4097, 8);
    x.case("long vectors", 12, |g, k| {
        let n = [255usize, 256, 257, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 100000][k as usize % 12]; let s = g.bits();
        g.note(format!("{n} elements, seed {s:x}"));
        let v: Vec<i32> = (0..n).map(|i| s.wrapping_mul(i as u64 * 2 + 1) as i32).collect();
        let e = v.bytes(); let mut b = WBuffer::new(0); ok("marshal", v.marshal(&mut b))?; eqb("marshal", b.p(), &e)?;
        let mut got: Vec<i32> = vec![]; let mut r = RBuffer::new(&e, 0); ok("read", got.unmarshal(&mut r))?; hold("elements differ", got == v)?; eq("left", r.len(), 0)?;
        let t: Vec<Vec<u8>> = v.chunks(7).map(|c| c.iter().map(|x| *x as u8).collect()).collect();
        let e = t.bytes(); let mut got: Vec<Vec<u8>> = vec![]; let mut r = RBuffer::new(&e, 0); ok("read", got.unmarshal(&mut r))?; hold("nested elements differ", got == t)?; eq("left", r.len(), 0)
    });
}
macro_rules! refarr { ($($n:literal),*) => { $( impl<T: Ref + Copy> Ref for [T; $n] where [T; $n]: Default {
    fn any(g: &mut Gen, d: usize) -> Self { let mut a = <[T; $n]>::default(); for x in a.iter_mut() { *x = T::any(g, d + 1) } a }
    fn bytes(&self) -> Vec<u8> { self.iter().flat_map(|x| x.bytes()).collect() }
} )* } }
refarr!(1, 3, 7);
fn round<T: Ref>(x: &mut Ctx, name: &str, n: u64) {
    x.case(&format!("{name} round trip"), n, |g, _| {
        let v = T::any(g, 0);
        let pre = { let n = g.size(9); g.bytes(n) }; let post = { let n = g.size(20); g.bytes(n) };
        let off = if g.chance(1, 2) { 0 } else { g.below(1000) as u32 };
        g.note(clip(&format!("{v:?}"), 120));
        let e = v.bytes();
        let mut b = WBuffer::new(off);
        ok("pre", b.write_array_u8(&pre))?;
        eq("marshal count", ok("marshal", v.marshal(&mut b))?, e.len() as i64)?;
        eqb("marshal", b.p(), &cat(&[pre.clone(), e.clone()]))?;
        let all = cat(&[pre.clone(), e.clone(), post.clone()]);
        for skip in [None, Some(0)] {
            let mut r = RBuffer::new(&all, off);
            r.set_skip_header(skip);
            ok("pre", r.skip(pre.len() as i64))?;
            let got: T = ok("read", T::unmarshal_into_checked(&mut r))?;
            eq("value", got, v.clone())?;
            eq("left", r.len(), post.len() as i64)?;
        }
        Ok(())
    });
}
trait Into2: Sized { fn unmarshal_into_checked(r: &mut RBuffer) -> crate::rbytes::Result<Self>; }
impl<T: Default + Unmarshaler> Into2 for T { fn unmarshal_into_checked(r: &mut RBuffer) -> crate::rbytes::Result<T> { r.read_object_into::<T>() } }
/// how many bytes an announced header takes at the start of these bytes
fn skipn(s: &[u8], n: usize) -> usize { if s.len() < n { 0 } else if s.len() > 1 && n > 1 && s[0] != 64 { 0 } else { n } }
fn headered<T: Ref>(x: &mut Ctx, name: &str) {
    x.case(&format!("{name} after a header"), 600, |g, _| {
        let v = T::any(g, 0); let n = *g.pick(&[1usize, 6, 10]);
        let mut h = g.bytes(n); if g.chance(5, 6) { h[0] = 64 }
        let post = { let n = g.size(20); g.bytes(n) };
        let all = cat(&[h.clone(), v.bytes(), post.clone()]);
        if skipn(&all, n) != n { return Ok(()) }
        g.note(format!("header {} then {}", hex(&h), clip(&format!("{v:?}"), 100)));
        let mut r = RBuffer::new(&all, 0); r.set_skip_header(Some(n as i32));
        eq("value", ok("read", r.read_object_into::<T>())?, v.clone())?;
        eq("left", r.len(), post.len() as i64)
    });
}
fn maps<K: Ref + Eq + std::hash::Hash, V: Ref>(x: &mut Ctx, name: &str, hk: bool, hv: bool) {
    x.case(&format!("map {name}"), 500, |g, k| {
        let n = if k < 4 { k as usize } else { g.size(40) };
        let ks: Vec<K> = (0..n).map(|_| K::any(g, 1)).collect(); let vs: Vec<V> = (0..n).map(|_| V::any(g, 1)).collect();
        // keys in one run, values in the next; a run of strings or vectors begins with a six-byte header
        let hd = |g: &mut Gen| { let mut h = vec![0x40]; h.extend(g.bytes(5)); h };
        let mut e = rbe(n as u64, 4);
        if hk && n > 0 { e.extend(hd(g)) }
        for k in &ks { e.extend(k.bytes()) }
        if hv && n > 0 { e.extend(hd(g)) }
        for v in &vs { e.extend(v.bytes()) }
        let pre = if g.chance(1, 2) { let mut h = vec![0x40]; h.extend(g.bytes(9)); h } else { vec![] };
        let post = { let n = g.size(20); g.bytes(n) };
        g.note(format!("{n} pairs, keys {}", clip(&format!("{ks:?}"), 90)));
        let all = cat(&[pre.clone(), e, post.clone()]);
        let mut r = RBuffer::new(&all, 0);
        if !pre.is_empty() { r.set_skip_header(Some(10)); }
        let m: HashMap<K, V> = ok("read", r.read_object_into())?;
        let mut want = HashMap::new(); for (k, v) in ks.iter().zip(&vs) { want.insert(k.clone(), v.clone()); }
        hold(&format!("map differs: {} pairs read, {} expected", m.len(), want.len()), m == want)?;
        eq("left", r.len(), post.len() as i64)
    });
}
fn sets<K: Ref + Eq + std::hash::Hash>(x: &mut Ctx, name: &str) {
    x.case(&format!("set {name}"), 500, |g, k| {
        let n = if k < 4 { k as usize } else { g.size(60) };
        let ks: Vec<K> = (0..n).map(|_| K::any(g, 1)).collect();
        let mut e = rbe(n as u64, 4); for k in &ks { e.extend(k.bytes()) }
        let pre = if g.chance(1, 2) { let mut h = vec![0x40]; h.extend(g.bytes(9)); h } else { vec![] };
        let post = { let n = g.size(20); g.bytes(n) };
        g.note(format!("{n} elements {}", clip(&format!("{ks:?}"), 90)));
        let all = cat(&[pre.clone(), e, post.clone()]);
        let mut r = RBuffer::new(&all, 0);
        if !pre.is_empty() { r.set_skip_header(Some(10)); }
        let m: HashSet<K> = ok("read", r.read_object_into())?;
        hold("set differs", m == ks.iter().cloned().collect::<HashSet<K>>())?;
        eq("left", r.len(), post.len() as i64)
    });
}
pub fn run(x: &mut Ctx) {
    long(x);
    round::<Vec<i8>>(x, "Vec<i8>", 300); round::<Vec<u8>>(x, "Vec<u8>", 300); round::<Vec<i16>>(x, "Vec<i16>", 300); round::<Vec<u16>>(x, "Vec<u16>", 300);
    round::<Vec<i32>>(x, "Vec<i32>", 300); round::<Vec<u32>>(x, "Vec<u32>", 300); round::<Vec<i64>>(x, "Vec<i64>", 300); round::<Vec<u64>>(x, "Vec<u64>", 300);
    round::<Vec<f32>>(x, "Vec<f32>", 300); round::<Vec<f64>>(x, "Vec<f64>", 300); round::<Vec<bool>>(x, "Vec<bool>", 300); round::<Vec<String>>(x, "Vec<String>", 300);
    round::<Vec<Vec<i32>>>(x, "Vec<Vec<i32>>", 300); round::<Vec<Vec<String>>>(x, "Vec<Vec<String>>", 150); round::<Vec<Vec<Vec<u16>>>>(x, "Vec<Vec<Vec<u16>>>", 150);
    round::<[i32; 3]>(x, "[i32; 3]", 300); round::<[f64; 7]>(x, "[f64; 7]", 300); round::<[u8; 1]>(x, "[u8; 1]", 300); round::<[[i16; 3]; 7]>(x, "[[i16; 3]; 7]", 300);
    round::<Vec<[i32; 3]>>(x, "Vec<[i32; 3]>", 300); round::<[bool; 7]>(x, "[bool; 7]", 100);
    headered::<Vec<i32>>(x, "Vec<i32>"); headered::<Vec<Vec<f64>>>(x, "Vec<Vec<f64>>"); headered::<String>(x, "String"); headered::<Vec<String>>(x, "Vec<String>");
    maps::<i32, i32>(x, "i32 to i32", false, false); maps::<u8, f64>(x, "u8 to f64", false, false); maps::<i32, String>(x, "i32 to String", false, true); maps::<i64, Vec<i16>>(x, "i64 to Vec<i16>", false, true);
    maps::<String, i32>(x, "String to i32", true, false); maps::<String, String>(x, "String to String", true, true); maps::<String, Vec<String>>(x, "String to Vec<String>", true, true);
    sets::<i32>(x, "i32"); sets::<u8>(x, "u8"); sets::<String>(x, "String"); sets::<i64>(x, "i64");
}
