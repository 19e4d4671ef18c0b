// branches of a file made here from the description of the format: baskets in records of their own
// or kept in the branch, compressed or not, with and without a table of starts
include!("files.rs");
include!("packs.rs");
use crate::rtree::branch::verif as vb;
use crate::rtree::branch::Branch;
use crate::rtree::leaf::{verif as vl, Leaf};
use crate::Slice;
fn tleaf(title: &str, etype: i32) -> vl::T { vl::T { id: 0, bits: 0, name: "b".into(), title: title.into(), len: 1, etype, offset: 0, hasrange: false, unsigned: false } }
/// the record of a basket: what is written of its key and head, then its payload
fn basket(g: &mut Gen, at: usize, entries: &[Vec<u8>], table: bool, nev_size: i32, packed: bool) -> Vec<u8> {
    let name = g.text(12); let title = g.text(12); let big = g.chance(1, 6);
    let mut k = vr::key::K { n_bytes: 0, rvers: if big { 1004 } else { 4 }, obj_len: 0, date: date(g), key_len: 0, cycle: 1, seek_key: at as i64, seek_pdir: 100, class: "TBasket".into(), name, title };
    let len = |k: &vr::key::K| { let mut w = WBuffer::new(0); w.write_object(&vr::key::mk(k)).unwrap(); w.p().to_vec() };
    let klen = len(&k).len() + 19; let total: usize = entries.iter().map(|e| e.len()).sum();
    let mut pay = entries.concat();
    if table { pay.extend(rbe(entries.len() as u64 + 1, 4)); let mut p = klen; for e in entries { pay.extend(rbe(p as u64, 4)); p += e.len(); } pay.extend(rbe(0, 4)); }
    let mut body = pay.clone();
    if packed && !pay.is_empty() { let (b, _) = stored(g, &pay, 3); if b.len() != pay.len() { body = b } }
    k.key_len = klen as i32; k.obj_len = pay.len() as i32; k.n_bytes = (klen + body.len()) as i32;
    cat(&[len(&k), rbe(3, 2), rbe(32000, 4), rbe(nev_size as u64, 4), rbe(entries.len() as u64, 4), rbe((klen + total) as u64, 4), vec![0], body])
}
/// a branch over a file of baskets that hold these entries, the last of them perhaps kept in the branch
struct Made { entries: Vec<Vec<u8>>, say: String, seek: Vec<i64>, bytes: Vec<i32>, kept: Vec<crate::rtree::basket::Basket> }
fn make(g: &mut Gen, path: &str, table: bool, keep: bool, nev_size: i32, one: &mut dyn FnMut(&mut Gen) -> Vec<u8>) -> Result<Made, String> {
    let mut file = g.bytes(60); let mut m = Made { entries: vec![], say: String::new(), seek: vec![], bytes: vec![], kept: vec![] };
    let n = g.below(5) as usize; let packed = g.chance(1, 2);
    for _ in 0..n { // records lie in any order, with others between them
        let k = 1 + g.size(20); let v: Vec<Vec<u8>> = (0..k).map(|_| one(g)).collect();
        let b = basket(g, file.len(), &v, table, nev_size, packed); m.seek.push(file.len() as i64); m.bytes.push(b.len() as i32); file.extend(b); let j = g.size(30); file.extend(g.bytes(j));
        m.say.push_str(&format!(" {k}")); m.entries.extend(v);
    }
    if keep || n == 0 { // as ROOT leaves it: the whole buffer, its key's place first, starts counted from there
        let k = 1 + g.size(10); let v: Vec<Vec<u8>> = (0..k).map(|_| one(g)).collect(); let klen = 50 + g.below(60) as usize; let buf = cat(&[g.bytes(klen), v.concat()]);
        let mut key = vr::key::mk(&vr::key::K { n_bytes: klen as i32, rvers: 4, obj_len: 0, date: date(g), key_len: klen as i32, cycle: 2, seek_key: 0, seek_pdir: 100, class: "TBasket".into(), name: "b".into(), title: "t".into() });
        let last = buf.len() as i32; key.set_buffer(buf, true);
        let mut starts = vec![]; let mut p = klen; for e in &v { starts.push(p as i32); p += e.len(); }
        m.kept.push(vb::tbranch::embedded(key, k as i32, last, if table { starts } else { vec![] })); m.say.push_str(&format!(" and {k} kept in the branch")); m.entries.extend(v);
    }
    for _ in 0..g.below(4) + (n == 0) as u64 { m.seek.push(0); m.bytes.push(0); } // places of tables not used yet
    std::fs::write(path, &file).map_err(|e| e.to_string())?; Ok(m)
}
fn branch(m: &mut Made, leaf: Leaf, path: &str) -> Result<crate::rtree::branch::TBranch, String> {
    Ok(vb::tbranch::mk(leaf, m.seek.clone(), m.bytes.clone(), m.entries.len() as i64, std::mem::take(&mut m.kept), Some(ok("open", vr::file::reader(path))?)))
}
pub fn run(x: &mut Ctx) {
    x.case("entries of one size", 500, |g, i| {
        let path = scratch(g, 0); let _gone = Gone(path.clone()); let w = [1, 2, 4, 8, 4, 8, 1][i as usize % 7]; let table = g.chance(1, 3); let keep = g.chance(1, 3);
        let mut m = make(g, &path, table, keep, 4, &mut |g| g.bytes(w))?; g.note(format!("baskets of{}, entries of {w} bytes, with starts: {table}", m.say));
        let t = tleaf("b", w as i32);
        let leaf = match i % 7 { 0 => Leaf::B(vl::mk_b(1, &t, 0, 0)), 1 => Leaf::S(vl::mk_s(1, &t, 0, 0)), 2 => Leaf::I(vl::mk_i(1, &t, 0, 0)), 3 => Leaf::L(vl::mk_l(1, &t, 0, 0)), 4 => Leaf::F(vl::mk_f(1, &t, 0.0, 0.0)), 5 => Leaf::D(vl::mk_d(1, &t, 0.0, 0.0)), _ => Leaf::O(vl::mk_o(1, &t, false, false)) };
        let b = Branch::Base(branch(&mut m, leaf, &path)?); let want = &m.entries;
        let got: Vec<Vec<u8>> = b.get_basket(|r| r.read_array_u8(w as usize).unwrap().to_vec()).collect(); eq("entries", got.len(), want.len())?; hold("the entries are other ones", &got == want)?;
        macro_rules! typed { ($($k:literal $t:ty),*) => { match i % 7 { $($k => { let v: Vec<$t> = ok("iterate", b.as_iter::<$t>())?.collect(); hold("the values are other ones", v.iter().map(|x| x.to_be_bytes().to_vec()).collect::<Vec<_>>() == *want)? })* _ => () } } }
        typed!(0 i8, 1 i16, 2 i32, 3 i64, 4 f32, 5 f64); Ok(())
    });
    x.case("entries of varying size", 700, |g, i| {
        let path = scratch(g, 0); let _gone = Gone(path.clone()); let keep = g.chance(1, 3); let most = 1 + g.below(3);
        let mut m = make(g, &path, true, keep, 4, &mut |g| { let k = match i % 3 { 0 => 1, _ => g.below(2 * most + 1) as usize }; g.bytes(4 * k) })?;
        g.note(format!("baskets of{}, {} values in {} entries", m.say, m.entries.concat().len() / 4, m.entries.len()));
        let title = ["b[n]", "b[nMuon]", "b[n]/F", "b[n][3]"][g.below(4) as usize]; let title = if title.ends_with("[3]") { "b[n]" } else { title };
        let b = Branch::Base(branch(&mut m, Leaf::F(vl::mk_f(1, &tleaf(title, 4), 0.0, 0.0)), &path)?); let want: Vec<Vec<u32>> = m.entries.iter().map(|e| e.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect()).collect();
        let got: Vec<Vec<u32>> = ok("iterate", b.as_iter::<Slice<f32>>())?.map(|s| s.into_vec().iter().map(|x: &f32| x.to_bits()).collect()).collect();
        eq("entries", got.len(), want.len())?; hold("the values are other ones", got == want)
    });
    x.case("texts", 400, |g, _| {
        let path = scratch(g, 0); let _gone = Gone(path.clone()); let keep = g.chance(1, 3); let mut texts = vec![];
        let mut m = make(g, &path, true, keep, 1000, &mut |g| { let s = if g.chance(1, 12) { g.text(300) } else { let n = g.below(9) as usize; g.text(n) }; texts.push(s.clone()); rstr(s.as_bytes()) })?; g.note(format!("baskets of{}", m.say));
        let b = Branch::Base(branch(&mut m, Leaf::C(vl::mk_c(1, &tleaf("b", 1), 0, 0)), &path)?);
        let got: Vec<String> = b.as_iter_unchecked::<String>().collect(); eq("entries", got.len(), texts.len())?; hold("the texts are other ones", got == texts)
    });
    x.case("vectors of an element branch", 400, |g, _| {
        let path = scratch(g, 0); let _gone = Gone(path.clone()); let keep = g.chance(1, 3); let mut vs: Vec<Vec<i32>> = vec![];
        let mut m = make(g, &path, true, keep, 1000, &mut |g| { let n = g.below(6) as usize; let v: Vec<i32> = (0..n).map(|_| g.bits() as i32).collect(); vs.push(v.clone());
            let body = cat(&[rbe(9, 2), rbe(n as u64, 4), v.iter().flat_map(|x| x.to_be_bytes()).collect()]); cat(&[rbe(body.len() as u64 | 0x4000_0000, 4), body]) })?; g.note(format!("baskets of{}", m.say));
        let b = Branch::Element(vb::element::mk("vector<int>", branch(&mut m, Leaf::Element(vl::mk_e(1, &tleaf("b", 0), -1, -1)), &path)?));
        let got: Vec<Vec<i32>> = b.as_iter_unchecked::<Vec<i32>>().collect(); eq("entries", got.len(), vs.len())?; hold("the vectors are other ones", got == vs)
    });
}
