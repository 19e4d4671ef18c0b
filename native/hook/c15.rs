include!("files.rs");
include!("trees.rs");
use std::cell::RefCell; use std::rc::Rc;
/// a branch of some type: how it is filled, and a check of what is read back
type Check = Box<dyn Fn(&crate::ReaderTree, usize) -> Result<(), String>>;
macro_rules! col { ($g:ident, $t:ident, $name:ident, $n:ident, $ty:ty, $mk:expr, $same:expr) => { {
    let v: Vec<$ty> = (0..$n).map(|_| $mk($g)).collect(); let u = v.clone(); let name = $name.to_string(); let nm = name.clone();
    let feed = Rc::new(RefCell::new(v.into_iter())); let f = feed.clone(); $t.new_branch(name, std::iter::from_fn(move || f.borrow_mut().next()));
    let c: Check = Box::new(move |t, i| {
        let b = t.branches().nth(i).ok_or(format!("branch {i} is not there"))?; eq("name", b.name(), nm.as_str())?; eq("entries of the branch", b.entries(), u.len() as i64)?; hold("provider not used up", feed.borrow_mut().next().is_none())?;
        if t.branch(&nm).map(|x| x as *const _ as usize) != Some(b as *const _ as usize) && t.branches().take(i).all(|x| x.name() != nm) { return Err(format!("branch {nm:?} is not found by name")) }
        let got: Vec<$ty> = ok(&nm, b.as_iter::<$ty>())?.collect(); eq(&format!("number of values of {nm:?} ({})", stringify!($ty)), got.len(), u.len())?;
        for (k, (a, b)) in got.iter().zip(&u).enumerate() { let same: fn(&$ty, &$ty) -> bool = $same; if !same(a, b) { return Err(format!("value {k} of {} of {nm:?} ({}): {} want {}", u.len(), stringify!($ty), clip(&format!("{a:?}"), 100), clip(&format!("{b:?}"), 100))) } }
        Ok(())
    });
    (c, stringify!($ty)) } } }
fn b32(g: &mut Gen) -> f32 { f32::from_bits(g.bits() as u32) }
fn b64(g: &mut Gen) -> f64 { f64::from_bits(g.bits()) }
fn vec<T>(g: &mut Gen, mut f: impl FnMut(&mut Gen) -> T) -> Vec<T> { let n = if g.chance(1, 60) { 3000 } else { g.size(40) }; (0..n).map(|_| f(g)).collect() }
const KINDS: u64 = 40;
fn column(g: &mut Gen, t: &mut crate::WriterTree, name: &str, n: usize, kind: u64) -> (Check, &'static str) {
    macro_rules! plain { ($ty:ty) => { col!(g, t, name, n, $ty, |g: &mut Gen| g.bits() as $ty, |a, b| a == b) } }
    macro_rules! vecs { ($ty:ty) => { col!(g, t, name, n, Vec<$ty>, |g: &mut Gen| vec(g, |g| g.bits() as $ty), |a, b| a == b) } }
    macro_rules! arr { ($ty:ty, $k:literal) => { col!(g, t, name, n, [$ty; $k], |g: &mut Gen| { let mut a = [0 as $ty; $k]; for x in a.iter_mut() { *x = g.bits() as $ty } a }, |a, b| a == b) } }
    match kind {
        0 => plain!(i8), 1 => plain!(u8), 2 => plain!(i16), 3 => plain!(u16), 4 => plain!(i32), 5 => plain!(u32), 6 => plain!(i64), 7 => plain!(u64),
        8 => col!(g, t, name, n, f32, b32, |a, b| a.to_bits() == b.to_bits()), 9 => col!(g, t, name, n, f64, b64, |a, b| a.to_bits() == b.to_bits()), 10 => col!(g, t, name, n, bool, |g: &mut Gen| g.chance(1, 2), |a, b| a == b),
        11 | 12 => col!(g, t, name, n, String, |g: &mut Gen| { let l = g.strlen().min(3000); g.text(l) }, |a, b| a == b),
        13 => vecs!(i8), 14 => vecs!(u8), 15 => vecs!(i16), 16 => vecs!(u16), 17 => vecs!(i32), 18 => vecs!(u32), 19 => vecs!(i64), 20 => vecs!(u64),
        21 => col!(g, t, name, n, Vec<f32>, |g: &mut Gen| vec(g, b32), |a, b| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.to_bits() == b.to_bits())),
        22 => col!(g, t, name, n, Vec<f64>, |g: &mut Gen| vec(g, b64), |a, b| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.to_bits() == b.to_bits())),
        23 => arr!(i8, 1), 24 => arr!(i8, 3), 25 => arr!(u8, 2), 26 => arr!(i16, 5), 27 => arr!(u16, 32), 28 => arr!(i32, 2), 29 => arr!(u32, 7), 30 => arr!(i64, 1), 31 => arr!(i64, 4), 32 => arr!(u64, 3),
        33 => col!(g, t, name, n, [f32; 3], |g: &mut Gen| [b32(g), b32(g), b32(g)], |a, b| a.iter().zip(b).all(|(a, b)| a.to_bits() == b.to_bits())),
        34 => col!(g, t, name, n, [f64; 2], |g: &mut Gen| [b64(g), b64(g)], |a, b| a.iter().zip(b).all(|(a, b)| a.to_bits() == b.to_bits())),
        35 => col!(g, t, name, n, [bool; 6], |g: &mut Gen| { let x = g.bits(); [x & 1 != 0, x & 2 != 0, x & 4 != 0, x & 8 != 0, x & 16 != 0, x & 32 != 0] }, |a, b| a == b),
        36 => col!(g, t, name, n, String, |_: &mut Gen| String::new(), |a, b| a == b), 37 => vecs!(i32), 38 => plain!(i32), _ => plain!(f64),
    }
}
fn trees(g: &mut Gen, nt: u64, maxb: usize, mut len: impl FnMut(&mut Gen) -> usize, size: Option<i32>, kind: Option<u64>, at: Option<i64>) -> Result<(), String> {
    let path = scratch(g, 0); let _gone = Gone(path.clone()); let mut f = ok("create", crate::RootFile::create(&path))?; if let Some(a) = at { ok("set_end", f.set_end(a))?; }
    let mut all = vec![]; let mut note = String::new();
    for k in 0..nt {
        let tn = format!("t{k}"); let mut t = crate::WriterTree::new(tn.clone()); let nb = if kind.is_some() { 1 } else { g.size(maxb) }; let mut cs = vec![]; let mut longest = 0; let mut lens = vec![];
        for j in 0..nb { let n = len(g); longest = longest.max(n); lens.push(n); let q = kind.unwrap_or_else(|| g.below(KINDS)); let name = if g.chance(1, 12) { format!("b{j}{}", g.ident(20)) } else { format!("b{j}") }; let c = column(g, &mut t, &name, n, q); note.push_str(&format!(" {name}:{}*{n}", c.1)); cs.push(c.0); }
        if let Some(s) = size { vt::small(&mut t, s); } g.note(format!("size {size:?} at {at:?}{note}"));
        // the monitor sees every turn
        let seen: Rc<RefCell<(u64, Vec<u64>)>> = Rc::new(RefCell::new((0, vec![]))); let s2 = seen.clone(); let names = nb as u64;
        t.add_callback(Box::new(move |s| { let mut c = s2.borrow_mut(); match s { crate::rtree::StateCallBack::Before => { c.0 += 1; c.1.push(0) } crate::rtree::StateCallBack::Branch(_) => { *c.1.last_mut().unwrap() += 1 } _ => {} } }));
        ok("write", t.write(&mut f))?; eq("entries counted", vt::entries(&t), longest as i64)?;
        let c = seen.borrow(); eq("turns", (c.0, c.1.iter().all(|x| *x == names)), (longest as u64 + 1, true))?;
        all.push((tn, longest, cs));
    }
    ok("close", f.close())?; drop(f); let mut f = ok("open", crate::RootFile::open(&path))?;
    for (tn, longest, cs) in &all {
        let t = ok("get_tree", f.get_tree(tn))?; eq("entries of the tree", t.entries(), *longest as i64)?; eq("branches", t.branches().count(), cs.len())?;
        for (i, c) in cs.iter().enumerate() { c(&t, i)?; }
    }
    Ok(())
}
pub fn run(x: &mut Ctx) {
    x.case("every type of branch, many small baskets", 4 * KINDS, |g, i| { let s = g.range(30, 900) as i32; trees(g, 1, 1, |g| g.size(250), Some(s), Some(i % KINDS), None) });
    x.case("every type of branch, baskets of the usual size", 3 * KINDS, |g, i| trees(g, 1, 1, |g| if g.chance(1, 3) { 9000 } else { g.size(3000) }, None, Some(i % KINDS), None));
    x.case("trees of several branches", 120, |g, _| { let s = if g.chance(1, 2) { None } else { Some(g.range(20, 3000) as i32) }; let m = g.size(600); let nt = 1 + g.below(3); trees(g, nt, 7, |g| if g.chance(1, 2) { m } else { g.size(m + 20) }, s, None, None) });
    x.case("trees far out in the file", 30, |g, i| { let at = 2_000_000_000 + match i % 3 { 0 => -(g.size(40_000) as i64), 1 => g.below(9) as i64, _ => 150_000_000 + g.below(99) as i64 }; let s = Some(g.range(40, 900) as i32); trees(g, 2, 4, |g| g.size(300), s, None, Some(at)) });
    x.case("trees with the first branch empty, none, or one value", 60, |g, i| trees(g, 1, 4, |_| (i % 3) as usize, None, None, None));
}
