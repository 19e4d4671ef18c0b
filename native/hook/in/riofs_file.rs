use super::*;
#[derive(Clone, Debug, PartialEq)]
pub(crate) struct H { pub version: i32, pub begin: i64, pub end: i64, pub seek_free: i64, pub n_bytes_free: i32, pub n_free: i32, pub n_bytes_name: i32, pub units: u8, pub compression: i32, pub seek_info: i64, pub n_bytes_info: i32, pub uuid: [u8; 16] }
pub(crate) fn header(f: &RootFile) -> H {
    let h = &f.header;
    H { version: h.version, begin: h.begin, end: h.end, seek_free: h.seek_free, n_bytes_free: h.n_bytes_free, n_free: h.n_free, n_bytes_name: h.n_bytes_name, units: h.units, compression: h.compression, seek_info: h.seek_info, n_bytes_info: h.n_bytes_info, uuid: *h.uuid.as_bytes() }
}
pub(crate) fn set_header(f: &mut RootFile, h: &H) {
    f.header = RootFileHeader { version: h.version, begin: h.begin, end: h.end, seek_free: h.seek_free, n_bytes_free: h.n_bytes_free, n_free: h.n_free, n_bytes_name: h.n_bytes_name, units: h.units, compression: h.compression, seek_info: h.seek_info, n_bytes_info: h.n_bytes_info, uuid: Uuid::from_bytes(h.uuid) };
}
pub(crate) fn write_header(f: &mut RootFile) -> Result<()> { f.write_header() }
pub(crate) fn flush(f: &mut RootFile) { if let RootFileInner::Writer(w) = &mut f.inner { w.writer.as_mut().unwrap().flush().unwrap() } }
pub(crate) fn spans(f: &mut RootFile) -> Vec<(i64, i64)> { f.spans.vec().iter().map(|s| (s.first, s.last)).collect() }
pub(crate) fn write_free(f: &mut RootFile) -> Result<()> { f.write_free_segments() }
pub(crate) fn get_object(f: &mut RootFile, name: &str) -> Result<Box<dyn FactoryItemRead>> { f.get_object(name) }
pub(crate) fn key_bytes(f: &mut RootFile, k: &Key) -> Result<Vec<u8>> { let mut r = f.reader()?.clone(); k.bytes(&mut r, None) }
pub(crate) fn reader(path: &str) -> Result<RootFileReader> { RootFileReader::new(path) }
