// ---- trees on disk, read by the format alone; and trees made of any values
use crate::rtree::tree::writer::verif as vt;
pub struct Cur<'a> { pub b: &'a [u8], pub p: usize, pub base: usize, pub classes: Vec<(usize, String)>, pub seen: Vec<usize> }
impl<'a> Cur<'a> {
    pub fn i(&mut self, n: usize) -> Result<i64, String> { let v = num(self.b, self.p, n)?; self.p += n; Ok(v) }
    pub fn s(&mut self) -> Result<String, String> { let (s, p) = rstring(self.b, self.p)?; self.p = p; Ok(s) }
    /// byte count and version: (end, version)
    pub fn head(&mut self) -> Result<(usize, i64), String> {
        let n = self.i(4)?; if n & 0x4000_0000 == 0 { return Err(format!("no byte count at {}", self.p - 4)) }
        let e = self.p + (n & 0x3fff_ffff) as usize; if e > self.b.len() { return Err(format!("byte count at {} leads past the end", self.p - 4)) } Ok((e, self.i(2)?))
    }
    pub fn end(&self, what: &str, e: usize) -> Result<(), String> { if self.p == e { Ok(()) } else { Err(format!("{what} ends at {}, its byte count says {e}", self.p)) } }
    pub fn skip(&mut self) -> Result<(), String> { let (e, _) = self.head()?; self.p = e; Ok(()) }
    pub fn tobject(&mut self) -> Result<(), String> { self.i(2)?; self.i(4)?; let b = self.i(4)?; if b & 16 != 0 { self.i(2)?; } Ok(()) }
    pub fn named(&mut self) -> Result<(String, String), String> { let (e, _) = self.head()?; self.tobject()?; let r = (self.s()?, self.s()?); self.end("TNamed", e)?; Ok(r) }
    /// one polymorphic record: None for nil, Ok((class, start of the object, end)) or the place of an earlier one
    pub fn any(&mut self) -> Result<Option<(String, usize, usize)>, String> {
        let at = self.p; let n = self.i(4)?;
        if n == 0 { return Ok(None) }
        if n & 0x4000_0000 == 0 { return Err(format!("no byte count at {at}")) }
        let e = self.p + (n & 0x3fff_ffff) as usize; let tagat = self.p; let t = self.i(4)? as u32;
        let c = if t == 0xffff_ffff { let z = self.b[self.p..].iter().position(|x| *x == 0).ok_or("class name without end")?; let s = String::from_utf8_lossy(&self.b[self.p..self.p + z]).into_owned(); self.p += z + 1; self.classes.push((tagat + self.base + 2, s.clone())); s }
            else if t & 0x8000_0000 != 0 { let r = (t & 0x7fff_ffff) as usize; self.classes.iter().find(|c| c.0 == r).map(|c| c.1.clone()).ok_or(format!("class reference at {tagat} to {r}, where no class is"))? }
            else { if !self.seen.contains(&(t as usize)) { return Err(format!("reference at {tagat} to {t}, where no object is")) } return Ok(Some((String::new(), t as usize, e))) };
        self.seen.push(at + self.base + 2);
        Ok(Some((c, self.p, e)))
    }
    pub fn arr<T>(&mut self, mut f: impl FnMut(&mut Self, Option<(String, usize, usize)>) -> Result<T, String>) -> Result<Vec<T>, String> {
        let (e, v) = self.head()?; if v != 3 { return Err(format!("array of version {v}")) } self.tobject()?; self.s()?; let n = self.i(4)?; let low = self.i(4)?; if low != 0 { return Err("lower bound".into()) }
        let mut o = vec![]; for _ in 0..n { let a = self.any()?; let end = a.as_ref().map(|a| a.2); o.push(f(self, a)?); if let Some(end) = end { self.end("object of an array", end)?; } } self.end("array", e)?; Ok(o)
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct RBranch { pub class: String, pub name: String, pub title: String, pub basket_size: i64, pub offlen: i64, pub write_basket: i64, pub number: i64, pub max: i64, pub entries: i64, pub tot: i64, pub zip: i64, pub leaves: Vec<String>,
    pub bytes: Vec<i64>, pub entry: Vec<i64>, pub seek: Vec<i64> }
#[derive(Clone, Debug, PartialEq)]
pub struct RTree { pub name: String, pub entries: i64, pub tot: i64, pub branches: Vec<RBranch>, pub nleaves: usize }
fn rbranch(c: &mut Cur, class: &str) -> Result<RBranch, String> {
    let el = class == "TBranchElement"; if !el && class != "TBranch" { return Err(format!("branch of class {class}")) }
    let outer = if el { let h = c.head()?; if h.1 != 10 { return Err("TBranchElement version".into()) } Some(h.0) } else { None };
    let (e, v) = c.head()?; if v != 13 { return Err(format!("TBranch version {v}")) }
    let (name, title) = c.named()?; c.skip()?; c.i(4)?; let basket_size = c.i(4)?; let offlen = c.i(4)?; let write_basket = c.i(4)?; let number = c.i(8)?; c.skip()?; c.i(4)?; let max = c.i(4)?; c.i(4)?;
    let entries = c.i(8)?; let first = c.i(8)?; let tot = c.i(8)?; let zip = c.i(8)?; if first != 0 { return Err("first entry".into()) }
    let n = c.arr(|_, _| Ok(()))?.len(); if n != 0 { return Err("sub-branches".into()) }
    let leaves = c.arr(|c, a| { let a = a.ok_or("nil leaf")?; c.p = a.2; Ok(a.0) })?;
    let n = c.arr(|_, _| Ok(()))?.len(); if n != 0 { return Err("embedded baskets".into()) }
    let mut ts: Vec<Vec<i64>> = vec![];
    for w in [4, 8, 8] { c.i(1)?; let mut v = vec![]; for _ in 0..max { v.push(c.i(w)?); } ts.push(v); }
    c.s()?; c.end("TBranch", e)?;
    if let Some(o) = outer { c.s()?; c.s()?; c.s()?; c.i(4)?; c.i(2)?; c.i(4)?; c.i(4)?; c.i(4)?; c.i(4)?; for _ in 0..2 { if c.any()?.is_some() { return Err("count branch".into()) } } c.end("TBranchElement", o)?; }
    let seek = ts.pop().unwrap(); let entry = ts.pop().unwrap(); let bytes = ts.pop().unwrap();
    Ok(RBranch { class: class.into(), name, title, basket_size, offlen, write_basket, number, max, entries, tot, zip, leaves, bytes, entry, seek })
}
pub fn rtree(b: &[u8], k: &RKey) -> Result<RTree, String> {
    let at = k.at + k.key_len as usize; let body = b.get(at..at + k.obj_len as usize).ok_or("the tree leads past the end")?;
    let mut c = Cur { b: body, p: 0, base: k.key_len as usize, classes: vec![], seen: vec![] };
    let (e, v) = c.head()?; if v != 20 { return Err(format!("TTree version {v}")) }
    let (name, _) = c.named()?; for _ in 0..3 { c.skip()?; }
    let entries = c.i(8)?; let tot = c.i(8)?; for _ in 0..4 { c.i(8)?; } for _ in 0..4 { c.i(4)?; } let nc = c.i(4)?; for _ in 0..6 { c.i(8)?; }
    for _ in 0..2 { c.i(1)?; for _ in 0..nc { c.i(8)?; } } c.skip()?;
    let branches = c.arr(|c, a| { let a = a.ok_or("nil branch")?; let r = rbranch(c, &a.0)?; c.end("branch", a.2)?; Ok(r) })?;
    let nleaves = c.arr(|c, a| { if let Some(a) = a { c.p = a.2; } Ok(()) })?.len();
    for _ in 0..7 { if c.any()?.is_some() { return Err("something where nil is expected".into()) } }
    c.end("TTree", e)?; c.end("the tree's record", body.len())?;
    Ok(RTree { name, entries, tot, branches, nleaves })
}
#[derive(Clone, Debug, PartialEq)]
pub struct RBasket { pub key: RKey, pub vers: i64, pub buf_size: i64, pub nev_size: i64, pub nev_buf: i64, pub last: i64, pub flag: i64, pub data: Vec<u8>, pub table: Vec<i64> }
pub fn rbasket(b: &[u8], at: usize) -> Result<RBasket, String> {
    let key = rkey(b, at)?; let mut p = at + key.len; let mut i = |n: usize| { let v = num(b, p, n); p += n; v };
    let (vers, buf_size, nev_size, nev_buf, last, flag) = (i(2)?, i(4)?, i(4)?, i(4)?, i(4)?, i(1)?);
    if key.key_len != (p - at) as i64 { return Err(format!("basket at {at}: key of {} bytes says {}", p - at, key.key_len)) }
    if key.n_bytes != key.key_len + key.obj_len { return Err(format!("basket at {at}: {} bytes, key {} + payload {}", key.n_bytes, key.key_len, key.obj_len)) }
    if key.seek != at as i64 || key.class != "TBasket" { return Err(format!("basket at {at} says it is a {} at {}", key.class, key.seek)) }
    let body = b.get(p..p + key.obj_len as usize).ok_or("basket past the end")?; let n = last - key.key_len; if n < 0 || n > key.obj_len { return Err(format!("basket at {at}: border {n} of {}", key.obj_len)) }
    let (d, t) = body.split_at(n as usize); if t.len() % 4 != 0 { return Err(format!("basket at {at}: table of {} bytes", t.len())) }
    Ok(RBasket { key, vers, buf_size, nev_size, nev_buf, last, flag, data: d.to_vec(), table: t.chunks(4).map(|x| num(x, 0, 4).unwrap()).collect() })
}
/// a basket's data and where each of its entries starts
pub fn basket_is(k: &RBasket, items: &[Vec<u8>], table: bool) -> Result<(), String> {
    eqb("data of the basket", &k.data, &items.concat())?; eq("entries in the basket", k.nev_buf, items.len() as i64)?; eq("version and flag", (k.vers, k.flag), (3, 0))?;
    if !table { return eq("table of starts", k.table.len(), 0) }
    let mut want = vec![items.len() as i64 + 1]; let mut a = k.key.key_len; for x in items { want.push(a); a += x.len() as i64; } want.push(0); eq("table of starts", k.table.clone(), want)
}
/// everything a branch notes, against the baskets in the file and the entries it was given
pub fn branch_is(b: &[u8], r: &RBranch, tree: &str, items: &[Vec<u8>], table: bool) -> Result<(), String> {
    let m = r.write_basket as usize; let at = |s: &str| format!("branch {}: {s}", r.name);
    eq(&at("entries"), (r.entries, r.number), (items.len() as i64, items.len() as i64))?; eq(&at("room in the tables"), r.max, 10.max(r.write_basket + 1))?;
    eq(&at("first entries"), (r.entry[0], r.entry[m]), (0, items.len() as i64))?;
    hold(&at("tables beyond the baskets"), r.bytes[m..].iter().chain(&r.seek[m..]).chain(&r.entry[m + 1..]).all(|x| *x == 0))?;
    let mut tot = 0;
    for j in 0..m {
        let k = rbasket(b, r.seek[j] as usize).map_err(|e| at(&e))?; eq(&at("bytes of a basket"), r.bytes[j], k.key.n_bytes)?; tot += k.key.n_bytes;
        hold(&at("first entries out of order"), r.entry[j] <= r.entry[j + 1])?;
        basket_is(&k, &items[r.entry[j] as usize..r.entry[j + 1] as usize], table).map_err(|e| at(&format!("basket {j}: {e}")))?;
        eq(&at("names of a basket"), (k.key.name.as_str(), k.key.title.as_str(), k.key.cycle), (r.name.as_str(), tree, (j + 1) as i64))?;
    }
    eq(&at("total bytes"), (r.tot, r.zip), (tot, tot))
}
