use crate::rbytes::rbuffer::RBuffer;
use crate::rbytes::wbuffer::WBuffer;
use crate::{Marshaler, Unmarshaler};
fn prim<T: Marshaler + Unmarshaler + Default + std::fmt::Debug + Copy>(x: &mut Ctx, name: &str, w: usize, from: impl Fn(u64) -> T, bits: impl Fn(T) -> u64,
    wr: impl Fn(&mut WBuffer, T) -> crate::rbytes::Result<()>, rd: impl Fn(&mut RBuffer) -> crate::rbytes::Result<T>) {
    let mask = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
    x.case(&format!("{name} round trip"), 20000, |g, k| {
        let v = from(if k < 256 { k } else if k < 65536 / 16 { k * 16 + (k >> 8) } else { g.bits() });
        let pre = { let n = g.size(9); g.bytes(n) }; let post = { let n = g.size(9); g.bytes(n) };
        let off = if g.chance(1, 2) { 0 } else { g.below(1000) as u32 };
        g.note(format!("{v:?} bits {:x} after {} bytes at offset {off}", bits(v), pre.len()));
        let enc = rbe(bits(v) & mask, w);
        // written: exactly the big-endian bytes, whatever was there before
        let mut b = WBuffer::new(off);
        for p in &pre { ok("write_u8", b.write_u8(*p))?; }
        let n = ok("marshal", v.marshal(&mut b))?;
        eq("marshal count", n, w as i64)?;
        eqb("marshal bytes", b.p(), &cat(&[pre.clone(), enc.clone()]))?;
        ok("write", wr(&mut b, v))?;
        eqb("write bytes", b.p(), &cat(&[pre.clone(), enc.clone(), enc.clone()]))?;
        eq("position", b.pos(), off as i64 + (pre.len() + 2 * w) as i64)?;
        // read: the same value, the cursor exactly past it
        let all = cat(&[pre.clone(), enc.clone(), enc.clone(), post.clone()]);
        let mut r = RBuffer::new(&all, off);
        for p in &pre { eq("preceding byte", ok("read_u8", r.read_u8())?, *p)?; }
        let a = ok("read", rd(&mut r))?;
        eq("value read", bits(a) & mask, bits(v) & mask)?;
        eq("cursor", r.pos(), off as i64 + (pre.len() + w) as i64)?;
        let c: T = ok("read_object_into", r.read_object_into::<T>())?;
        eq("value unmarshalled", bits(c) & mask, bits(v) & mask)?;
        eq("cursor", r.pos(), off as i64 + (pre.len() + 2 * w) as i64)?;
        eq("left", r.len(), post.len() as i64)
    });
}
fn arrays(x: &mut Ctx) {
    x.case("array writers", 1500, |g, _| {
        let n = g.size(200);
        let v: Vec<u64> = (0..n).map(|_| g.bits()).collect();
        g.note(format!("{n} elements {:x?}", &v[..n.min(8)]));
        macro_rules! w { ($f:ident, $t:ty, $w:expr) => {{
            let a: Vec<$t> = v.iter().map(|x| *x as $t).collect();
            let mut b = WBuffer::new(0); ok("write_u8", b.write_u8(7))?; ok(stringify!($f), b.$f(&a))?; ok("write_u8", b.write_u8(9))?;
            let e: Vec<u8> = std::iter::once(7u8).chain(v.iter().flat_map(|x| rbe(*x, $w))).chain(std::iter::once(9u8)).collect();
            eqb(stringify!($f), b.p(), &e)?;
        }} }
        w!(write_array_i64, i64, 8); w!(write_array_u64, u64, 8); w!(write_array_i32, i32, 4); w!(write_array_u32, u32, 4);
        w!(write_array_i16, i16, 2); w!(write_array_u16, u16, 2); w!(write_array_i8, i8, 1); w!(write_array_u8, u8, 1);
        Ok(())
    });
    x.case("array readers", 1500, |g, _| {
        let n = g.size(200);
        let v: Vec<u64> = (0..n).map(|_| g.bits()).collect();
        g.note(format!("{n} elements {:x?}", &v[..n.min(8)]));
        macro_rules! r { ($f:ident, $t:ty, $w:expr) => {{
            let e: Vec<u8> = std::iter::once(7u8).chain(v.iter().flat_map(|x| rbe(*x, $w))).chain(std::iter::once(9u8)).collect();
            let mut b = RBuffer::new(&e, 0); ok("read_u8", b.read_u8())?;
            let mut a: Vec<$t> = vec![0x55; n]; ok(stringify!($f), b.$f(&mut a))?;
            eq(stringify!($f), a, v.iter().map(|x| *x as $t).collect::<Vec<$t>>())?;
            eq(concat!(stringify!($f), " cursor"), b.len(), 1)?;
        }} }
        r!(read_array_i64, i64, 8); r!(read_array_i32, i32, 4); r!(read_array_i16_into, i16, 2); r!(read_array_u8_into, u8, 1);
        let e: Vec<u8> = v.iter().map(|x| *x as u8).collect();
        let mut b = RBuffer::new(&e, 3); let m = g.below(n as u64 + 1) as usize;
        eqb("read_array_u8", ok("read_array_u8", b.read_array_u8(m))?, &e[..m])?;
        eq("read_array_u8 cursor", b.pos(), 3 + m as i64)
    });
    x.case("cursor moves", 1500, |g, _| {
        let n = g.size(100); let d = g.bytes(n); let off = g.below(500) as u32;
        let mut r = RBuffer::new(&d, off); let mut c = 0usize; let mut log = String::new();
        for _ in 0..12 {
            match g.below(3) {
                0 => { let k = g.below((n - c) as u64 + 1) as usize; log.push_str(&format!("skip {k};")); ok("skip", r.skip(k as i64))?; c += k; }
                1 => { let k = g.below(c as u64 + 1) as usize; log.push_str(&format!("rewind {k};")); ok("rewind", r.rewind(k as i64))?; c -= k; }
                _ => if c < n { log.push_str("u8;"); let p = ok("read", r.read_u8())?; eq("byte", p, d[c])?; c += 1; },
            }
            g.note(log.clone());
            eq("pos", r.pos(), off as i64 + c as i64)?; eq("len", r.len(), (n - c) as i64)?; eq("empty", r.is_empty(), c == n)?;
        }
        Ok(())
    });
}
pub fn run(x: &mut Ctx) {
    prim(x, "i8", 1, |b| b as i8, |v| v as u64, |w, v| w.write_i8(v), |r| r.read_i8());
    prim(x, "u8", 1, |b| b as u8, |v| v as u64, |w, v| w.write_u8(v), |r| r.read_u8());
    prim(x, "i16", 2, |b| b as i16, |v| v as u64, |w, v| w.write_i16(v), |r| r.read_i16());
    prim(x, "u16", 2, |b| b as u16, |v| v as u64, |w, v| w.write_u16(v), |r| r.read_u16());
    prim(x, "i32", 4, |b| b as i32, |v| v as u64, |w, v| w.write_i32(v), |r| r.read_i32());
    prim(x, "u32", 4, |b| b as u32, |v| v as u64, |w, v| w.write_u32(v), |r| r.read_u32());
    prim(x, "i64", 8, |b| b as i64, |v| v as u64, |w, v| w.write_i64(v), |r| r.read_i64());
    prim(x, "u64", 8, |b| b, |v| v, |w, v| w.write_u64(v), |r| r.read_u64());
    prim(x, "f32", 4, |b| f32::from_bits(b as u32), |v| v.to_bits() as u64, |w, v| w.write_f32(v), |r| r.read_f32());
    prim(x, "f64", 8, |b| f64::from_bits(b), |v| v.to_bits(), |w, v| w.write_f64(v), |r| r.read_f64());
    prim(x, "bool", 1, |b| b & 1 == 1, |v| v as u64, |w, v| w.write_bool(v), |r| r.read_bool());
    x.case("bool reads any non-zero byte as true", 256, |g, k| { let b = [k as u8]; g.note(format!("byte {k}")); eq("read_bool", ok("read_bool", RBuffer::new(&b, 0).read_bool())?, k as u8 != 0) });
    arrays(x);
}
