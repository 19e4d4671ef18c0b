pub mod root {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use super::base::*;
pub mod traits {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use super::super::base::*;
pub trait Object {
    spec fn class_of(&self) -> Seq<char>;
    fn class(&self) -> (ret: &str) ensures ret@ == self.class_of();
}
pub open spec fn str_size(s: Seq<char>) -> int { let n = encode_utf8(s).len() as int; if n > 254 { n + 5 } else { n + 1 } }
//@freefn oxyroot/src/root.rs tstring_sizeof
requires encode_utf8(v@).len() < 0x4000_0000
ensures ret == str_size(v@)
//@start
broadcast use axiom_str_len;
//@end
//@freefn oxyroot/src/root.rs datime_sizeof
ensures ret == 4
//@end
//@impl oxyroot/src/root.rs | trait Named
spec fn name_of(&self) -> Seq<char>;
spec fn title_of(&self) -> Seq<char>;
// the default bodies (unimplemented!()) are left to the implementors
fn name(&self) -> (ret: &str) ensures ret@ == self.name_of();
fn title(&self) -> (ret: &str) ensures ret@ == self.title_of();
//@fn size_of
requires encode_utf8(self.name_of()).len() < 0x2000_0000, encode_utf8(self.title_of()).len() < 0x2000_0000
ensures ret == str_size(self.name_of()) + str_size(self.title_of())
//@end
//@endimpl
} // mod traits
pub use traits::*;
} // mod root
