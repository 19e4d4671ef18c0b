// ---- files on disk: a scratch place, an object of any name and size, and a reader of the format
// written from the format's description and independent of the code under test
use crate::riofs::verif as vr;
use crate::rbytes::wbuffer::WBuffer;
pub fn scratch(g: &mut Gen, ext: usize) -> String {
    let d = std::env::var("VX_SCRATCH").ok().filter(|s| !s.is_empty()).unwrap_or_else(|| std::env::temp_dir().to_string_lossy().into_owned());
    let mut s = format!("{d}/f{:x}", g.u64()); for _ in 0..ext { s.push('x'); } s.push_str(".root"); s
}
pub struct Gone(pub String);
impl Drop for Gone { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }
/// an object that is just bytes
pub struct Blob { pub bytes: Vec<u8>, pub class: String, pub name: String, pub title: String }
impl crate::root::traits::Object for Blob { fn class(&self) -> &'_ str { &self.class } }
impl crate::root::traits::Named for Blob { fn name(&self) -> &'_ str { &self.name } fn title(&self) -> &'_ str { &self.title } }
impl crate::rbytes::RVersioner for Blob { fn rversion(&self) -> i16 { 1 } }
impl crate::Marshaler for Blob { fn marshal(&self, w: &mut WBuffer) -> crate::rbytes::Result<i64> { let b = w.pos(); w.write_array_u8(&self.bytes)?; Ok(w.pos() - b) } }
#[derive(Clone, Debug, PartialEq)]
pub struct RKey { pub at: usize, pub n_bytes: i64, pub vers: i64, pub obj_len: i64, pub date: u64, pub key_len: i64, pub cycle: i64, pub seek: i64, pub pdir: i64, pub class: String, pub name: String, pub title: String, pub len: usize }
pub fn num(b: &[u8], at: usize, n: usize) -> Result<i64, String> {
    if at + n > b.len() { return Err(format!("the file ends at {} inside a number at {at}", b.len())) }
    let mut x: u64 = 0; for i in 0..n { x = x << 8 | b[at + i] as u64; }
    Ok(match n { 1 => x as i64, 2 => x as u16 as i16 as i64, 4 => x as u32 as i32 as i64, _ => x as i64 })
}
pub fn rstring(b: &[u8], at: usize) -> Result<(String, usize), String> {
    let n = *b.get(at).ok_or("string past the end")? as usize;
    let (h, n) = if n == 255 { (5, num(b, at + 1, 4)? as usize) } else { (1, n) };
    let s = b.get(at + h..at + h + n).ok_or("string past the end")?;
    Ok((String::from_utf8_lossy(s).into_owned(), at + h + n))
}
pub fn rkey(b: &[u8], at: usize) -> Result<RKey, String> {
    let vers = num(b, at + 4, 2)?; let w = if vers > 1000 { 8 } else { 4 };
    let (class, p) = rstring(b, at + 18 + 2 * w)?; let (name, p) = rstring(b, p)?; let (title, p) = rstring(b, p)?;
    Ok(RKey { at, n_bytes: num(b, at, 4)?, vers, obj_len: num(b, at + 6, 4)?, date: num(b, at + 10, 4)? as u32 as u64, key_len: num(b, at + 14, 2)?, cycle: num(b, at + 16, 2)?,
        seek: num(b, at + 18, w)?, pdir: num(b, at + 18 + w, w)?, class, name, title, len: p - at })
}
#[derive(Clone, Debug, PartialEq)]
pub struct RHead { pub version: i64, pub begin: i64, pub end: i64, pub seek_free: i64, pub n_free_b: i64, pub n_free: i64, pub n_name: i64, pub units: i64, pub compr: i64, pub seek_info: i64, pub n_info: i64 }
pub fn rhead(b: &[u8]) -> Result<RHead, String> {
    if b.get(0..4) != Some(b"root") { return Err("the file does not start with the magic word".into()) }
    let v = num(b, 4, 4)?; let w = if v >= 1000000 { 8 } else { 4 };
    let p = 12 + 2 * w;
    Ok(RHead { version: v % 1000000, begin: num(b, 8, 4)?, end: num(b, 12, w)?, seek_free: num(b, 12 + w, w)?, n_free_b: num(b, p, 4)?, n_free: num(b, p + 4, 4)?, n_name: num(b, p + 8, 4)?,
        units: num(b, p + 12, 1)?, compr: num(b, p + 13, 4)?, seek_info: num(b, p + 17, w)?, n_info: num(b, p + 17 + w, 4)? })
}
/// the records one after another from the first to the end; each owns exactly the bytes it says
pub fn walk(b: &[u8]) -> Result<Vec<RKey>, String> {
    let h = rhead(b)?; let mut at = h.begin as usize; let mut v = vec![];
    while (at as i64) < h.end {
        let k = rkey(b, at).map_err(|e| format!("record at {at}: {e}"))?;
        if k.n_bytes <= 0 { return Err(format!("record at {at} says it has {} bytes", k.n_bytes)) }
        if k.seek != at as i64 && k.class != "TBasket" { return Err(format!("record at {at} says it is at {}", k.seek)) }
        if k.class != "TBasket" && k.key_len != k.len as i64 { return Err(format!("key at {at} ({}) is {} bytes long and says {}", k.class, k.len, k.key_len)) }
        if k.n_bytes < k.key_len { return Err(format!("record at {at}: {} bytes with a key of {}", k.n_bytes, k.key_len)) }
        at += k.n_bytes as usize; v.push(k);
    }
    if at as i64 != h.end { return Err(format!("the records end at {at}, the header says {}", h.end)) }
    Ok(v)
}
/// the directory record: (version, n keys bytes, n name bytes, seek dir, seek parent, seek keys)
pub fn rdir(b: &[u8], at: usize) -> Result<(i64, i64, i64, i64, i64, i64), String> {
    let v = num(b, at, 2)?; let w = if v > 1000 { 8 } else { 4 };
    Ok((v, num(b, at + 10, 4)?, num(b, at + 14, 4)?, num(b, at + 18, w)?, num(b, at + 18 + w, w)?, num(b, at + 18 + 2 * w, w)?))
}
pub fn rkeys(b: &[u8]) -> Result<Vec<RKey>, String> {
    let h = rhead(b)?; let d = rdir(b, (h.begin + h.n_name) as usize)?;
    let l = rkey(b, d.5 as usize).map_err(|e| format!("key list at {}: {e}", d.5))?;
    if l.n_bytes != d.1 { return Err(format!("the directory says its key list takes {} bytes, the list says {}", d.1, l.n_bytes)) }
    let mut at = d.5 as usize + l.key_len as usize; let n = num(b, at, 4)?; at += 4;
    let mut v = vec![];
    for i in 0..n { let k = rkey(b, at).map_err(|e| format!("key {i} of {n} at {at}: {e}"))?; at += k.len; v.push(k); }
    if at > (d.5 + l.n_bytes) as usize { return Err("the key list is longer than its record".into()) }
    Ok(v)
}
/// a tree with a few branches; what was put into it
pub struct Put { pub name: String, pub n: usize, pub a: Vec<i32>, pub s: Vec<String>, pub v: Vec<Vec<i64>> }
pub fn put_tree(g: &mut Gen, f: &mut crate::RootFile, name: &str, nmax: usize) -> Result<Put, String> {
    let n = g.size(nmax);
    let a: Vec<i32> = (0..n).map(|_| g.bits() as i32).collect(); let s: Vec<String> = (0..n).map(|_| { let l = g.size(300); g.text(l) }).collect();
    let v: Vec<Vec<i64>> = (0..n).map(|_| { let l = g.size(12); (0..l).map(|_| g.bits() as i64).collect() }).collect();
    let mut t = crate::WriterTree::new(name.to_string());
    t.new_branch("a", a.clone().into_iter()); t.new_branch("s", s.clone().into_iter()); t.new_branch("v", v.clone().into_iter());
    ok("WriterTree::write", t.write(f))?;
    Ok(Put { name: name.to_string(), n, a, s, v })
}
pub fn check_tree(f: &mut crate::RootFile, p: &Put) -> Result<(), String> {
    let t = ok("get_tree", f.get_tree(&p.name))?;
    eq("entries", t.entries(), p.n as i64)?;
    if p.n == 0 { return Ok(()) }
    let a: Vec<i32> = ok("a", t.branch("a").ok_or("no branch a")?.as_iter::<i32>())?.collect(); eq("branch a", a, p.a.clone())?;
    let s: Vec<String> = ok("s", t.branch("s").ok_or("no branch s")?.as_iter::<String>())?.collect(); eq("branch s", s, p.s.clone())?;
    let v: Vec<Vec<i64>> = ok("v", t.branch("v").ok_or("no branch v")?.as_iter::<Vec<i64>>())?.collect(); eq("branch v", v, p.v.clone())
}
/// a date the packed form can hold
pub fn date(g: &mut Gen) -> u32 {
    let y = g.below(64) as u32; let m = 1 + g.below(12) as u32; let leap = (1995 + y) % 4 == 0;
    let n = match m { 2 => if leap { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 };
    let d = if g.chance(1, 4) { n } else { 1 + g.below(n as u64) as u32 };
    y << 26 | m << 22 | d << 17 | (g.below(24) as u32) << 12 | (g.below(60) as u32) << 6 | g.below(60) as u32
}
/// an end of file: small, around the switch to 64-bit addresses, far
pub fn end_pos(g: &mut Gen, i: u64) -> i64 {
    const B: i64 = 2_000_000_000;
    match i % 5 { 0 => 300 + g.below(100_000) as i64, 1 => B - g.below(900) as i64, 2 => B + g.below(3) as i64, 3 => B + 1 + g.below(1 << 31) as i64, _ => B + (g.bits() as i64 & 0xFF_FFFF_FFFF) }
}
