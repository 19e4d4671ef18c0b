use crate::rbytes::rbuffer::RBuffer;
use crate::rbytes::wbuffer::WBuffer;
use crate::{Marshaler, Unmarshaler};
use crate::root::traits::tstring_sizeof;
pub fn run(x: &mut Ctx) {
    x.case("counted string round trip", 4000, |g, k| {
        let s = if k < 600 { g.text(k as usize) } else { g.string() };
        let pre = { let n = g.size(9); g.bytes(n) }; let post = { let n = g.size(9); g.bytes(n) };
        g.note(format!("string of {} bytes {:?}", s.len(), clip(&s, 40)));
        let mut b = WBuffer::new(5);
        ok("pre", b.write_array_u8(&pre))?; ok("write_string", b.write_string(&s))?;
        let e = rstr(s.as_bytes());
        eqb("write_string", b.p(), &cat(&[pre.clone(), e.clone()]))?;
        eq("announced size", tstring_sizeof(&s) as usize, e.len())?;
        let n = ok("marshal", s.clone().marshal(&mut b))?;
        eq("marshal count", n, e.len() as i64)?;
        eqb("marshal", b.p(), &cat(&[pre.clone(), e.clone(), e.clone()]))?;
        let all = cat(&[pre.clone(), e.clone(), e.clone(), post.clone()]);
        let mut r = RBuffer::new(&all, 5);
        ok("pre", r.skip(pre.len() as i64))?;
        eq("read_string", ok("read_string", r.read_string())?.to_string(), s.clone())?;
        eq("cursor", r.len(), (e.len() + post.len()) as i64)?;
        eq("read_object_into", ok("String", r.read_object_into::<String>())?, s.clone())?;
        eq("cursor", r.len(), post.len() as i64)
    });
    x.case("long count form of a short string", 500, |g, k| {
        let s = g.text((k % 300) as usize);
        g.note(format!("{} bytes written with the long count", s.len()));
        let e = cat(&[vec![255], rbe(s.len() as u64, 4), s.as_bytes().to_vec(), vec![1, 2, 3]]);
        let mut r = RBuffer::new(&e, 0);
        eq("read_string", ok("read_string", r.read_string())?.to_string(), s)?;
        eq("cursor", r.len(), 3)
    });
    x.case("zero-terminated string round trip", 2000, |g, k| {
        let n = if k < 79 { k as usize } else { g.below(79) as usize };
        let s: String = g.text(n).replace('\0', "x");
        let post = { let n = g.size(90); g.bytes(n) };
        g.note(format!("C string of {} bytes {:?}", s.len(), s));
        let mut b = WBuffer::new(0);
        ok("write_cstring", b.write_cstring(&s))?;
        let e = cat(&[s.as_bytes().to_vec(), vec![0]]);
        eqb("write_cstring", b.p(), &e)?;
        let all = cat(&[e, post.clone()]);
        let mut r = RBuffer::new(&all, 0);
        eq("read_cstring", ok("read_cstring", r.read_cstring(80))?.to_string(), s)?;
        eq("cursor", r.len(), post.len() as i64)
    });
}
