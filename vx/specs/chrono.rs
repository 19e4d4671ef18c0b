// ------------------------------------------------------------------ chrono (opaque; contracts assumed)
pub mod chrono {
use vstd::prelude::*;
use super::base::*;
#[derive(Clone, Copy)]
pub struct Utc;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DateTime<T> { t: core::marker::PhantomData<T> }
impl Copy for DateTime<Utc> {}
impl Clone for DateTime<Utc> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct LocalResult { x: u8 }
/// year, month, day, hour, minute, second of the date (fractions of a second are not stored)
pub struct Civil { pub y: int, pub mo: int, pub d: int, pub h: int, pub mi: int, pub s: int }
/// the civil time exists
pub uninterp spec fn exists_civil(c: Civil) -> bool;
impl DateTime<Utc> {
    pub uninterp spec fn civil(&self) -> Civil;
    #[verifier::external_body]
    pub fn year(&self) -> (r: i32) ensures r == self.civil().y { unimplemented!() }
    #[verifier::external_body]
    pub fn month(&self) -> (r: u32) ensures r == self.civil().mo { unimplemented!() }
    #[verifier::external_body]
    pub fn day(&self) -> (r: u32) ensures r == self.civil().d { unimplemented!() }
    #[verifier::external_body]
    pub fn hour(&self) -> (r: u32) ensures r == self.civil().h { unimplemented!() }
    #[verifier::external_body]
    pub fn minute(&self) -> (r: u32) ensures r == self.civil().mi { unimplemented!() }
    #[verifier::external_body]
    pub fn second(&self) -> (r: u32) ensures r == self.civil().s { unimplemented!() }
    #[verifier::external_body]
    pub fn from_timestamp(t: i64, n: u32) -> (r: Option<DateTime<Utc>>)
        ensures 0 <= t <= 0xFFFF_FFFF && n == 0 ==> r is Some, 800_000_000 <= t <= 2_800_000_000 && n == 0 ==> 1995 <= r->0.civil().y <= 2058
    { unimplemented!() }
}
pub broadcast axiom fn axiom_civil(t: DateTime<Utc>)
    ensures ({ let c = #[trigger] t.civil(); exists_civil(c) && 1 <= c.mo <= 12 && 1 <= c.d <= 31 && 0 <= c.h < 24 && 0 <= c.mi < 60 && 0 <= c.s < 60 });
impl LocalResult {
    pub uninterp spec fn of(&self) -> Civil;
    #[verifier::external_body]
    pub fn single(self) -> (r: Option<DateTime<Utc>>)
        ensures r is Some <==> exists_civil(self.of()), r is Some ==> r->0.civil() == self.of()
    { unimplemented!() }
}
impl Utc {
    #[verifier::external_body]
    pub fn with_ymd_and_hms(&self, year: i32, month: u32, day: u32, hour: u32, min: u32, sec: u32) -> (r: LocalResult)
        ensures r.of() == (Civil { y: year as int, mo: month as int, d: day as int, h: hour as int, mi: min as int, s: sec as int })
    { unimplemented!() }
}
} // mod chrono
// ------------------------------------------------------------------ uuid (opaque)
pub mod uuid {
use vstd::prelude::*;
#[verifier::external_body]
pub struct Uuid { b: [u8; 16] }
impl Copy for Uuid {}
impl Clone for Uuid { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Uuid {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes(), r@.len() == 16 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bytes(b: [u8; 16]) -> (r: Uuid) ensures r.bytes() == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Uuid) ensures r.bytes().len() == 16 { unimplemented!() }
}
pub broadcast axiom fn axiom_uuid(u: Uuid) ensures (#[trigger] u.bytes()).len() == 16;
} // mod uuid
