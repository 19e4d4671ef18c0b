pub open spec fn pack(c: Civil) -> u32 {
    (((c.y - 1995) as u32) << 26) | ((c.mo as u32) << 22) | ((c.d as u32) << 17) | ((c.h as u32) << 12) | ((c.mi as u32) << 6) | (c.s as u32)
}
pub open spec fn unpack(v: u32) -> Civil {
    Civil { y: (v >> 26) + 1995, mo: ((v >> 22) & 0xf) as int, d: ((v >> 17) & 0x1f) as int, h: ((v >> 12) & 0x1f) as int, mi: ((v >> 6) & 0x3f) as int, s: (v & 0x3f) as int }
}
/// the years the format can hold
pub open spec fn storable(t: DateTime<Utc>) -> bool { 1995 <= t.civil().y <= 2058 }
pub proof fn lemma_pack(t: DateTime<Utc>)
    requires storable(t)
    ensures unpack(pack(t.civil())) == t.civil()
{
    broadcast use axiom_civil;
    let c = t.civil();
    let (y, mo, d, h, mi, s) = ((c.y - 1995) as u32, c.mo as u32, c.d as u32, c.h as u32, c.mi as u32, c.s as u32);
    assert(y < 64 && mo < 16 && d < 32 && h < 32 && mi < 64 && s < 64);
    assert({ let v = (y << 26) | (mo << 22) | (d << 17) | (h << 12) | (mi << 6) | s;
        v >> 26 == y && (v >> 22) & 0xf == mo && (v >> 17) & 0x1f == d && (v >> 12) & 0x1f == h && (v >> 6) & 0x3f == mi && v & 0x3f == s }) by (bit_vector)
        requires y < 64, mo < 16, d < 32, h < 32, mi < 64, s < 64;
}
//@freefn oxyroot/src/riofs/utils.rs now
ensures storable(ret)
//@end
//@freefn oxyroot/src/riofs/utils.rs datetime_to_u32
requires storable(datetime)
ensures ret == pack(datetime.civil())
//@start
broadcast use axiom_civil;
//@end
//@freefn oxyroot/src/riofs/utils.rs u32_to_datetime
ensures exists_civil(unpack(v)) ==> ret.civil() == unpack(v)
//@start
proof { assert(v >> 26 < 64) by (bit_vector); }
//@end
/// a stored date reads back as the date that was stored, to the second
pub proof fn lemma_datetime_round(t: DateTime<Utc>, back: DateTime<Utc>)
    requires storable(t), exists_civil(unpack(pack(t.civil()))) ==> back.civil() == unpack(pack(t.civil()))
    ensures back.civil() == t.civil()
{ broadcast use axiom_civil; lemma_pack(t); }
