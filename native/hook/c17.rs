include!("files.rs");
use crate::riofs::utils::{datetime_to_u32, u32_to_datetime};
use chrono::{Datelike, Timelike, DateTime, TimeZone, Utc};
fn pack(t: &DateTime<Utc>) -> u32 { (t.year() as u32 - 1995) << 26 | t.month() << 22 | t.day() << 17 | t.hour() << 12 | t.minute() << 6 | t.second() }
pub fn run(x: &mut Ctx) {
    x.case("every day the form can hold", 1, |g, _| {
        g.note("1995-01-01 to 2058-12-31, at the first, the last and some other second");
        let mut t = Utc.with_ymd_and_hms(1995, 1, 1, 0, 0, 0).unwrap(); let mut n = 0;
        while t.year() < 2059 {
            for s in [0, 86399, g.below(86400) as i64] {
                let u = DateTime::from_timestamp(t.timestamp() + s, 0).unwrap(); let p = datetime_to_u32(u);
                eq("packed", p, pack(&u))?; let b = u32_to_datetime(p); eq("back", b, u)?; n += 1;
            }
            t = DateTime::from_timestamp(t.timestamp() + 86400, 0).unwrap();
        }
        eq("days", n, 3 * 23376)
    });
    x.case("any date", 20000, |g, _| {
        let s = g.below(86400 * 23376) as i64 + 788918400; let u = DateTime::from_timestamp(s, 0).unwrap(); g.note(format!("{u}"));
        let p = datetime_to_u32(u); eq("packed", p, pack(&u))?; let b = u32_to_datetime(p); eq("back", (b, datetime_to_u32(b)), (u, p))
    });
    x.case("sub-seconds are dropped, nothing else", 200, |g, _| {
        let s = g.below(86400 * 23376) as i64 + 788918400; let u = DateTime::from_timestamp(s, g.below(1_000_000_000) as u32).unwrap(); g.note(format!("{u}"));
        eq("back", u32_to_datetime(datetime_to_u32(u)).timestamp(), s)
    });
    x.case("a year before 1995 is refused", 50, |g, _| {
        let s = 788918400 - 1 - g.below(1 << 32) as i64; let u = DateTime::from_timestamp(s, 0).unwrap(); g.note(format!("{u}"));
        hold("packed without complaint", catch_unwind(|| datetime_to_u32(u)).is_err())
    });
    x.case("any word can be read", 3000, |g, _| { let v = g.bits() as u32; g.note(format!("{v:#x}")); let b = catch_unwind(|| u32_to_datetime(v)).map_err(|_| "reading the word panics".to_string())?; if b.year() >= 1995 { eq("word", datetime_to_u32(b), v)?; } Ok(()) });
    x.case("key and directory dates survive", 300, |g, _| {
        let d = date(g); g.note(format!("{d:#x}"));
        let k = vr::key::K { n_bytes: 60, rvers: 4, obj_len: 1, date: d, key_len: 59, cycle: 1, seek_key: 100, seek_pdir: 100, class: "a".into(), name: "b".into(), title: "c".into() };
        let mut w = WBuffer::new(0); ok("marshal", crate::Marshaler::marshal(&vr::key::mk(&k), &mut w))?; eq("date on file", num(w.p(), 10, 4)? as u32, d)?;
        let mut o = crate::riofs::Key::default(); ok("unmarshal", crate::Unmarshaler::unmarshal(&mut o, &mut crate::rbytes::rbuffer::RBuffer::new(w.p(), 0)))?; eq("date", vr::key::parts(&o).date, d)
    });
}
