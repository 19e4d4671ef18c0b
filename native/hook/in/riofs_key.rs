use super::*;
#[derive(Clone, Debug, PartialEq)]
pub(crate) struct K { pub n_bytes: i32, pub rvers: i16, pub obj_len: i32, pub date: u32, pub key_len: i32, pub cycle: i16, pub seek_key: i64, pub seek_pdir: i64, pub class: String, pub name: String, pub title: String }
pub(crate) fn mk(k: &K) -> Key {
    Key { rvers: k.rvers, n_bytes: k.n_bytes, obj_len: k.obj_len, datetime: utils::u32_to_datetime(k.date), key_len: k.key_len, cycle: k.cycle, seek_key: k.seek_key, seek_pdir: k.seek_pdir,
        class: k.class.clone(), name: k.name.clone(), title: k.title.clone(), left: 0, buffer: vec![] }
}
pub(crate) fn parts(k: &Key) -> K {
    K { n_bytes: k.n_bytes, rvers: k.rvers, obj_len: k.obj_len, date: utils::datetime_to_u32(k.datetime), key_len: k.key_len, cycle: k.cycle, seek_key: k.seek_key, seek_pdir: k.seek_pdir,
        class: k.class.clone(), name: k.name.clone(), title: k.title.clone() }
}
