use std::collections::HashSet as VxSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

/// splitmix64 with a bias to boundaries
#[derive(Clone)]
pub struct Gen { s: u64, pub note: String }
impl Gen {
    pub fn new(seed: u64) -> Self { Gen { s: seed, note: String::new() } }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u64() % n } }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    /// any 64-bit pattern; often a power of two, its neighbours, or their complements
    pub fn bits(&mut self) -> u64 {
        match self.below(6) {
            0 => { let k = self.below(64); let d = self.below(3); (1u64 << k).wrapping_add(d).wrapping_sub(1) }
            1 => { let k = self.below(64); let d = self.below(3); !((1u64 << k).wrapping_add(d).wrapping_sub(1)) }
            2 => self.below(300),
            3 => { let b = self.below(256); b * 0x0101_0101_0101_0101 }
            _ => self.u64(),
        }
    }
    pub fn size(&mut self, max: usize) -> usize {
        let m = match self.below(5) { 0 => 2, 1 => 8, 2 => 40, 3 => { let k = self.below(18); let n = (1usize << k) + self.below(3) as usize - 1; if n <= max { return n } max } _ => max };
        self.below(m.min(max) as u64 + 1) as usize
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.bits() as u8).collect() }
    pub fn char(&mut self) -> char {
        const C: [char; 14] = ['a', 'Z', '0', ' ', '\0', '@', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '€', '\u{ffff}', '😀'];
        if self.chance(1, 3) { C[self.below(14) as usize] } else { (b'a' + self.below(26) as u8) as char }
    }
    /// a string of about n bytes
    pub fn text(&mut self, n: usize) -> String {
        let mut s = String::new();
        let ascii = self.chance(1, 2);
        while s.len() < n {
            let c = if ascii { (b'a' + self.below(26) as u8) as char } else { self.char() };
            if s.len() + c.len_utf8() <= n { s.push(c) } else { s.push('x') }
        }
        s
    }
    /// lengths around the places where the encoding changes
    pub fn strlen(&mut self) -> usize {
        const L: [usize; 16] = [0, 1, 2, 63, 64, 79, 80, 126, 127, 128, 253, 254, 255, 256, 257, 511];
        match self.below(8) { 0 => self.below(3000) as usize, 1 => 65534 + self.below(4) as usize, 2 | 3 | 4 => L[self.below(16) as usize], _ => self.below(40) as usize }
    }
    pub fn string(&mut self) -> String { let n = self.strlen(); self.text(n) }
    pub fn ident(&mut self, max: usize) -> String {
        let n = 1 + self.below(max as u64) as usize;
        (0..n).map(|i| { const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"; A[self.below(if i == 0 { 53 } else { 63 }) as usize] as char }).collect()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn note(&mut self, s: impl Into<String>) { self.note = s.into(); }
}

pub struct Fail { pub case: String, pub k: u64, pub msg: String, pub input: String }
pub struct Ctx {
    pub seed: u64, pub scale: f64, only: Option<(String, u64)>,
    pub cases: u64, distinct: VxSet<u64>, pub samples: Vec<String>, pub fails: Vec<Fail>, pub per: Vec<(String, u64)>,
}
fn vxhash(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } h }
fn clip(s: &str, n: usize) -> String { if s.chars().count() <= n { s.to_string() } else { let t: String = s.chars().take(n).collect(); format!("{t}... ({} chars)", s.chars().count()) } }
impl Ctx {
    /// run f on n inputs (scaled by the tier); each gets its own generator, so that case k alone can be replayed
    pub fn case(&mut self, name: &str, n: u64, mut f: impl FnMut(&mut Gen, u64) -> Result<(), String>) {
        let n = if n <= 1 { n } else { ((n as f64) * self.scale).ceil() as u64 };
        let (lo, hi) = match &self.only { Some((c, k)) => { if c != name { return } (*k, *k + 1) } None => (0, n) };
        let mut bad = 0;
        for k in lo..hi {
            let mut g = Gen::new(self.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ vxhash(name) ^ k.wrapping_mul(0xD1342543DE82EF95));
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut g, k)));
            self.cases += 1;
            self.distinct.insert(vxhash(&format!("{name}:{}", if g.note.is_empty() { k.to_string() } else { g.note.clone() })));
            if self.samples.len() < 8 && (k == lo || k == lo + 3) && !g.note.is_empty() { self.samples.push(format!("{name}: {}", clip(&g.note, 160))); }
            let m = match r {
                Ok(Ok(())) => None,
                Ok(Err(m)) => Some(m),
                Err(p) => Some(format!("panicked: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
            };
            if let Some(m) = m {
                bad += 1;
                if bad <= 2 { self.fails.push(Fail { case: name.to_string(), k, msg: clip(&m, 600), input: clip(&g.note, 600) }); }
                if bad >= 20 { break; }
            }
        }
        self.per.push((name.to_string(), hi - lo));
    }
}
pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {} want {}", clip(&format!("{got:?}"), 220), clip(&format!("{want:?}"), 220))) }
}
pub fn ok<T, E: std::fmt::Debug>(what: &str, r: Result<T, E>) -> Result<T, String> { r.map_err(|e| format!("{what}: error {}", clip(&format!("{e:?}"), 200))) }
pub fn hold(what: &str, b: bool) -> Result<(), String> { if b { Ok(()) } else { Err(what.to_string()) } }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
/// vxnative PROP SEED SCALE [CASE K]
pub fn main(a: Vec<String>) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let mut x = Ctx { seed: a[1].parse().unwrap_or(1), scale: a[2].parse().unwrap_or(1.0), only: if a.len() > 4 { Some((a[3].clone(), a[4].parse().unwrap_or(0))) } else { None },
        cases: 0, distinct: VxSet::new(), samples: vec![], fails: vec![], per: vec![] };
    if !dispatch(&a[0], &mut x) { return 3 }
    let f: Vec<String> = x.fails.iter().map(|f| format!("{{\"case\":{},\"k\":{},\"msg\":{},\"input\":{}}}", js(&f.case), f.k, js(&f.msg), js(&f.input))).collect();
    let p: Vec<String> = x.per.iter().map(|(n, c)| format!("{}:{}", js(n), c)).collect();
    let s: Vec<String> = x.samples.iter().map(|s| js(s)).collect();
    println!("VXRESULT {{\"evaluations\":{},\"distinct\":{},\"fails\":[{}],\"per_case\":{{{}}},\"samples\":[{}]}}", x.cases, x.distinct.len(), f.join(","), p.join(","), s.join(","));
    0
}

// ---- reference byte layouts, written from the format and independent of the code under test
pub fn rbe(x: u64, n: usize) -> Vec<u8> { (0..n).rev().map(|i| (x >> (8 * i)) as u8).collect() }
pub fn rstr(s: &[u8]) -> Vec<u8> {
    let mut v = if s.len() < 255 { vec![s.len() as u8] } else { let mut v = vec![255u8]; v.extend(rbe(s.len() as u64, 4)); v };
    v.extend_from_slice(s); v
}
pub fn cat(parts: &[Vec<u8>]) -> Vec<u8> { parts.concat() }
pub fn hex(b: &[u8]) -> String { let mut s: String = b.iter().take(96).map(|x| format!("{x:02x}")).collect(); if b.len() > 96 { s.push_str(&format!("..({})", b.len())); } s }
pub fn eqb(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want { return Ok(()) }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!("{what}: {} bytes, expected {}; first difference at {i}; got {} want {}", got.len(), want.len(), hex(&got[i.saturating_sub(4).min(got.len())..]), hex(&want[i.saturating_sub(4).min(want.len())..])))
}
