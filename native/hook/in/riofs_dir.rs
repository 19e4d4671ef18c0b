use super::*;
#[derive(Clone, Debug, PartialEq)]
pub(crate) struct D { pub rvers: i16, pub ctime: u32, pub mtime: u32, pub n_keys: i32, pub n_name: i32, pub seek_dir: i64, pub seek_parent: i64, pub seek_keys: i64, pub uuid: [u8; 16] }
pub(crate) fn mk(d: &D) -> TDirectoryFile {
    let mut t = TDirectoryFile::new("x".to_string());
    t.dir.rvers = d.rvers; t.dir._uuid = Uuid::from_bytes(d.uuid);
    t.ctime = crate::riofs::utils::u32_to_datetime(d.ctime); t.mtime = crate::riofs::utils::u32_to_datetime(d.mtime);
    t.n_bytes_keys = d.n_keys; t.n_bytes_name = d.n_name; t.seek_dir = d.seek_dir; t.seek_parent = d.seek_parent; t.seek_keys = d.seek_keys;
    t
}
pub(crate) fn parts(t: &TDirectoryFile) -> D {
    D { rvers: t.dir.rvers, ctime: crate::riofs::utils::datetime_to_u32(t.ctime), mtime: crate::riofs::utils::datetime_to_u32(t.mtime), n_keys: t.n_bytes_keys, n_name: t.n_bytes_name,
        seek_dir: t.seek_dir, seek_parent: t.seek_parent, seek_keys: t.seek_keys, uuid: *t.dir._uuid.as_bytes() }
}
pub(crate) fn named(t: &TDirectoryFile) -> (String, String, String) { (t.class_name.clone(), t.dir.named.name.clone(), t.dir.named.title.clone()) }
