use crate::rcolors::{Color, ColorNamed};
use crate::rmeta::{EReadWrite, ESTLType, Enum, EnumNamed};
// the codes of ROOT's TStreamerInfo::EReadWrite, ESTLType and the colour table
const RW: &[(i32, &str)] = &[(0, "Base"), (1, "Char"), (2, "Short"), (3, "Int"), (4, "Long"), (5, "Float"), (6, "Counter"), (7, "CharStar"), (8, "Double"), (9, "Double32"), (11, "UChar"), (12, "UShort"), (13, "UInt"), (14, "ULong"), (15, "Bits"),
    (16, "Long64"), (17, "ULong64"), (18, "Bool"), (19, "Float16"), (20, "OffsetL"), (40, "OffsetP"), (61, "Object"), (62, "Any"), (63, "Objectp"), (64, "ObjectP"), (65, "TString"), (66, "TObject"), (67, "TNamed"), (68, "Anyp"), (69, "AnyP"), (70, "AnyPnoVT"),
    (71, "STLp"), (100, "Skip"), (120, "SkipL"), (140, "SkipP"), (200, "Conv"), (220, "ConvL"), (240, "ConvP"), (300, "Stl"), (365, "STLstring"), (500, "Streamer"), (501, "StreamLoop"), (600, "Cache"), (1000, "Artificial"), (1001, "CacheNew"), (1002, "CacheDelete"),
    (99997, "NeedObjectForVirtualBaseClass"), (99999, "Missing")];
const MORE: &[(i32, &str)] = &[(10, "LegacyChar"), (56, "OffsetP16")];
const STL: &[(i32, &str)] = &[(0, "NotSTL"), (1, "STLvector"), (2, "STLlist"), (3, "STLdeque"), (4, "STLmap"), (5, "STLmultimap"), (6, "STLset"), (7, "STLmultiset"), (8, "STLbitset"), (9, "STLforwardlist"), (10, "STLunorderedset"), (11, "STLunorderedmultiset"),
    (12, "STLunorderedmap"), (13, "STLunorderedmultimap"), (14, "STLend"), (300, "STLany"), (365, "STLstdstring")];
const COL: &[(i16, &str)] = &[(0, "White"), (1, "Black"), (400, "Yellow"), (416, "Green"), (432, "Cyan"), (600, "Blue"), (616, "Magenta"), (632, "Red"), (800, "Orange"), (820, "Spring"), (840, "Teal"), (860, "Azure"), (880, "Violet"), (900, "Pink"), (920, "Gray")];
fn colour(i: i16) -> Result<(), String> {
    let c = Color::from_i16(i); eq("code", c.to_i16(), i)?;
    let want = COL.iter().find(|x| x.0 == i).map(|x| format!("Named({})", x.1)).unwrap_or(format!("Int({i})"));
    eq("colour", format!("{c:?}"), want)?; eq("named", ColorNamed::from_i16(i).is_ok(), COL.iter().any(|x| x.0 == i))
}
fn code(i: i32) -> Result<(), String> {
    let e = Enum::from_i32(i); if e.to_i32() != i { return eq("Enum code", e.to_i32(), i) }
    // beyond the tables only the code matters
    if !(-100..=100_100).contains(&i) {
        return if matches!(e, Enum::Int(_)) && ESTLType::from_i32(i).is_err() && EReadWrite::from_i32(i).is_err() { Ok(()) } else { Err(format!("{i} has a name: {e:?}")) }
    }
    let n = |t: &[(i32, &str)]| t.iter().find(|x| x.0 == i).map(|x| x.1.to_string());
    let name = n(RW).or(n(MORE));
    eq("Enum", format!("{e:?}"), name.clone().map(|s| format!("Named({s})")).unwrap_or(format!("Int({i})")))?;
    match EnumNamed::from_i32(i) { Ok(k) => { eq("EnumNamed", Some(format!("{k:?}")), name)?; eq("EnumNamed code", ok("to_i32", k.to_i32())?, i)?; eq("From", Enum::from(k).to_i32(), i)? } Err(_) => eq("EnumNamed", None, name)? }
    match ESTLType::from_i32(i) { Ok(k) => eq("ESTLType", Some(format!("{k:?}")), n(STL))?, Err(_) => eq("ESTLType", None, n(STL))? }
    match EReadWrite::from_i32(i) { Ok(k) => { eq("EReadWrite", Some(format!("{k:?}")), n(RW))?; eq("EReadWrite code", k.to_i32(), i)?; eq("into", i32::from(k), i)? } Err(_) => eq("EReadWrite", None, n(RW))? }
    Ok(())
}
pub fn run(x: &mut Ctx) {
    x.case("every colour code", 1, |g, _| { for i in i16::MIN..=i16::MAX { g.note(format!("{i}")); colour(i)?; } g.note("all 65536 codes"); Ok(()) });
    let wide = x.scale > 4.0;
    x.case("every type code", 1, |g, _| {
        let (a, b) = if wide { (-(1 << 27), 1 << 27) } else { (-1_100_000, 1_100_000) };
        let mut i = a; loop { if let Err(m) = code(i) { g.note(format!("{i}")); return Err(m) } if i == b { break } i += 1 }
        g.note(format!("all codes from {a} to {b}")); Ok(())
    });
    x.case("type codes", 20000, |g, _| { let i = g.bits() as i32; g.note(format!("{i}")); code(i) });
    x.case("comparisons of codes", 20000, |g, _| {
        let (c, _) = *g.pick(RW); let i = if g.chance(1, 2) { g.range(c as i64 - 2, c as i64 + 2) as i32 } else { g.bits() as i32 }; g.note(format!("{i} and {c}"));
        let e = ok("from", EReadWrite::from_i32(c).map_err(|_| "no name"))?;
        eq("i == e", i == e, i == c)?; eq("e == i", e == i, i == c)?; eq("i < e", i < e, i < c)?; eq("i > e", i > e, i > c)?; eq("i <= e", i <= e, i <= c)?; eq("i >= e", i >= e, i >= c)?;
        eq("e < i", e < i, c < i)?; eq("e > i", e > i, c > i)?; eq("e <= i", e <= i, c <= i)?; eq("e >= i", e >= i, c >= i)
    });
    x.case("type names", 1, |_, _| {
        for (s, e) in [("int", 3), ("Int_t", 3), ("int32_t", 3), ("uint32_t", 13), ("unsigned int", 13), ("UInt_t", 13), ("int8_t", 1), ("uint8_t", 11), ("short", 2), ("Short_t", 2), ("int16_t", 2), ("unsigned short", 12), ("UShort_t", 12), ("uint16_t", 12),
            ("int64_t", 16), ("uint64_t", 17), ("float", 5), ("double", 8)] { eq(s, ok(s, EnumNamed::from_string(s))?.to_i32().map_err(|_| ()), Ok(e))?; }
        Ok(())
    });
}
