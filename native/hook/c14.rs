use crate::rbytes::rbuffer::RBuffer;
use crate::rbytes::{ensure_maximum_supported_version, ensure_minimum_supported_version, Error};
use crate::{rvers, Unmarshaler};
fn guards(x: &mut Ctx) {
    x.case("version guards", 8000, |g, _| {
        let (r, m) = if g.chance(1, 2) { let m = g.bits() as i16; (m.wrapping_add(g.range(-2, 2) as i16), m) } else { (g.bits() as i16, g.bits() as i16) };
        g.note(format!("read {r} limit {m}"));
        match ensure_maximum_supported_version(r, m, "C") { Ok(()) => hold("accepted a version above the limit", r <= m)?,
            Err(Error::VersionTooHigh { class, version_read, max_expected }) => { hold("rejected a supported version", r > m)?; eq("error", (class.as_str(), version_read, max_expected), ("C", r, m))? } Err(e) => return Err(format!("{e:?}")) }
        match ensure_minimum_supported_version(r, m, "C") { Ok(()) => hold("accepted a version at or below the limit", r > m)?,
            Err(Error::VersionTooLow { class, version_read, min_expected }) => { hold("rejected a supported version", r <= m)?; eq("error", (class.as_str(), version_read, min_expected), ("C", r, m))? } Err(e) => return Err(format!("{e:?}")) }
        Ok(())
    });
}
/// every class whose reader states a limit: a higher (or too low) version is refused whatever follows it
fn refuse(x: &mut Ctx, class: &'static str, max: i16, min: Option<i16>) {
    x.case(&format!("{class} refuses unsupported versions"), 60, |g, k| {
        let low = min.map_or(false, |_| k % 3 == 2);
        let v = if low { g.range(-3, min.unwrap() as i64) as i16 } else if k < 4 { max + 1 + k as i16 } else { g.range(max as i64 + 1, i16::MAX as i64) as i16 };
        g.note(format!("{class} version {v}"));
        let body = if low { lead(class, g) } else { g.bytes(4000).into_iter().map(|b| b & 1).collect::<Vec<u8>>() };
        let all = cat(&[rbe((body.len() as u64 + 2) | 0x4000_0000, 4), rbe(v as u64, 2), body]);
        let mut t = match crate::rtypes::FACTORY.get_as_box(class) { Some(t) => t, None => return Err("class not registered".into()) };
        match t.unmarshal(&mut RBuffer::new(&all, 0)) {
            Err(Error::VersionTooHigh { version_read, max_expected, .. }) if !low => eq("error", (version_read, max_expected), (v, max)),
            Err(Error::VersionTooLow { version_read, min_expected, .. }) if low => eq("error", (version_read, min_expected), (v, min.unwrap())),
            Ok(()) => Err("accepted".into()), Err(e) => Err(format!("other error {e:?}")) }
    });
}
/// what precedes a minimum-version check in the reader of that class
fn lead(class: &str, g: &mut Gen) -> Vec<u8> {
    let tobject = || cat(&[rbe(1, 2), rbe(0, 4), rbe(0x0300_0000, 4)]);
    let named = |a: &[u8], b: &[u8]| { let body = cat(&[rbe(1, 2), tobject(), rstr(a), rstr(b)]); cat(&[rbe(body.len() as u64 | 0x4000_0000, 4), body]) };
    let att = |n: usize| cat(&[rbe((2 + n as u64) | 0x4000_0000, 4), rbe(2, 2), vec![0; n]]);
    let mut v = match class { "TTree" => cat(&[named(b"t", b"title"), att(6), att(4), att(8)]), _ => vec![] };
    v.extend(g.bytes(4000).into_iter().map(|b| b & 1)); v
}
/// the same for readers whose version follows other fields
fn tio(x: &mut Ctx) {
    x.case("TIOFeatures refuses newer versions", 60, |g, _| {
        let v = g.range(2, i16::MAX as i64) as i16; g.note(format!("version {v}"));
        let all = cat(&[rbe(3 | 0x4000_0000, 4), rbe(v as u64, 2), vec![0; 40]]);
        match crate::rtree::tree::tio_features::TioFeatures::default().unmarshal(&mut RBuffer::new(&all, 0)) { Err(Error::VersionTooHigh { version_read, max_expected, .. }) => eq("error", (version_read, max_expected), (v, 1)), Ok(()) => Err("accepted".into()), Err(e) => Err(format!("{e:?}")) }
    });
    x.case("TBasket refuses newer versions", 60, |g, _| {
        let v = g.range(4, i16::MAX as i64) as i16; g.note(format!("version {v}"));
        let key = cat(&[rbe(100, 4), rbe(4, 2), rbe(10, 4), rbe(0, 4), rbe(60, 2), rbe(0, 2), rbe(100, 4), rbe(100, 4), rstr(b"TBasket"), rstr(b"b"), rstr(b"t")]);
        let all = cat(&[key, rbe(v as u64, 2), vec![0; 400]]);
        let mut t = match crate::rtypes::FACTORY.get_as_box("TBasket") { Some(t) => t, None => return Err("class not registered".into()) };
        match t.unmarshal(&mut RBuffer::new(&all, 0)) { Err(Error::VersionTooHigh { version_read, max_expected, .. }) => eq("error", (version_read, max_expected), (v, 3)), Ok(()) => Err("accepted".into()), Err(e) => Err(format!("{e:?}")) }
    });
}
pub fn run(x: &mut Ctx) {
    guards(x);
    for (c, m) in [("TAttLine", 2), ("TAttFill", 2), ("TAttMarker", 2), ("TObjString", 1), ("TObjArray", 3), ("TBranchElement", 10), ("TBranch", 13), ("TLeaf", 2), ("TLeafC", 1), ("TLeafO", 1), ("TLeafB", 1),
        ("TLeafS", 1), ("TLeafI", 1), ("TLeafL", 1), ("TLeafF", 1), ("TLeafD", 1), ("TLeafElement", 1), ("TStreamerBase", 3), ("TStreamerString", 2), ("TStreamerBasicType", 2), ("TStreamerObject", 2),
        ("TStreamerObjectPointer", 2), ("TStreamerObjectAny", 2), ("TStreamerBasicPointer", 2), ("TStreamerSTL", 3), ("TStreamerSTLstring", 2), ("TStreamerInfo", 9)] { refuse(x, c, m, None); }
    refuse(x, "TList", 5, Some(3)); refuse(x, "TTree", 20, Some(4));
    tio(x);
}
