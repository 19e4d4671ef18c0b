use super::*;
/// a basket of that key; number of entries, data and offsets as the readers of branches get them
pub(crate) fn raw(key: crate::riofs::Key, nev: i32, last: i32, f: &mut RootFileReader) -> (u32, Vec<u8>, Option<Vec<i32>>) {
    let b = Basket { key, nev_buf: nev, last, ..Default::default() };
    match b.raw_data(f) { BasketData::TrustNEntries((n, d)) => (n as u32, d, None), BasketData::UnTrustNEntries((n, d, o)) => (n as u32, d, Some(o)) }
}
