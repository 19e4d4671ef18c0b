// payloads in blocks
use std::io::Write;
fn le3(n: usize) -> [u8; 3] { [n as u8, (n >> 8) as u8, (n >> 16) as u8] }
fn pack(kind: usize, level: u32, part: &[u8]) -> Vec<u8> {
    let (tag, body): (&[u8], Vec<u8>) = match kind {
        0 => { let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(level)); e.write_all(part).unwrap(); (b"ZL\x08", e.finish().unwrap()) }
        1 => { let mut e = xz2::write::XzEncoder::new(vec![], level.min(3)); e.write_all(part).unwrap(); (b"XZ\x00", e.finish().unwrap()) }
        _ => { let z = lz4::block::compress(part, None, false).unwrap(); (b"L4\x01", cat(&[vec![0x5a; 8], z])) }
    };
    cat(&[tag.to_vec(), le3(body.len()).to_vec(), le3(part.len()).to_vec(), body])
}
fn cut(g: &mut Gen, n: usize, k: usize) -> Vec<usize> { let mut v: Vec<usize> = (1..k).map(|_| g.below(n as u64 + 1) as usize).collect(); v.push(0); v.push(n); v.sort(); v.dedup(); v }
/// what to store: often repetitive, so that blocks get shorter
fn plain(g: &mut Gen, max: usize) -> Vec<u8> { let n = g.size(max); if g.chance(1, 2) { g.bytes(n) } else { let p = 1 + g.below(9) as usize; let s = g.bytes(p); (0..n).map(|i| s[i % p]).collect() } }
fn stored(g: &mut Gen, data: &[u8], kmax: u64) -> (Vec<u8>, String) {
    let k = 1 + g.below(kmax) as usize; let at = cut(g, data.len(), k); let mut all = vec![]; let mut say = String::new(); let mixed = g.chance(1, 3); let kind = g.below(3) as usize;
    for w in at.windows(2) { let kd = if mixed { g.below(3) as usize } else { kind }; let l = g.below(10) as u32; let b = pack(kd, l, &data[w[0]..w[1]]); say.push_str(&format!(" {}:{}->{}", ["ZL", "XZ", "L4"][kd], w[1] - w[0], b.len() - 9)); all.extend(b); }
    (all, say)
}
