// ------------------------------------------------------------------ files (std::io, opaque; contracts assumed)
pub mod io {
use vstd::prelude::*;
#[verifier::external_body]
pub struct IoError { x: u8 }
#[verifier::external_body]
pub fn vx_eof() -> IoError { unimplemented!() }
#[verifier::external_body]
pub struct File { x: u8 }
#[verifier::external_body]
pub struct PathBuf { x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BufWriter<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BufReader<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body]
pub struct Path { x: u8 }
/// AsRef<Path>: something that names a file
pub trait VxPath { spec fn text(&self) -> Seq<char>; fn as_ref(&self) -> (r: &Path) ensures r.text() == self.text(); }
impl Path {
    pub uninterp spec fn text(&self) -> Seq<char>;
    /// the path is text (a path that is not makes the callers stop with a panic; they are given text here)
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some, r->0@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> PathBuf { unimplemented!() }
}
/// what a file holds
pub uninterp spec fn on_disk(p: Seq<char>) -> Seq<u8>;
impl File {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn create(p: &Path) -> (r: core::result::Result<File, IoError>) ensures r is Ok ==> r->Ok_0.bytes() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn open(p: &Path) -> (r: core::result::Result<File, IoError>) ensures r is Ok ==> r->Ok_0.bytes() == on_disk(p.text()) { unimplemented!() }
}
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
/// the file s with the bytes b put at a (a gap before a is filled with zeros)
pub open spec fn laid(s: Seq<u8>, a: int, b: Seq<u8>) -> Seq<u8> {
    if b.len() == 0 { s } else {
        Seq::new((if s.len() > a + b.len() { s.len() } else { (a + b.len()) as nat }), |i: int| if a <= i < a + b.len() { b[i - a] } else if i < s.len() { s[i] } else { 0u8 })
    }
}
impl BufWriter<File> {
    #[verifier::external_body]
    pub fn new(f: File) -> (r: Self) ensures r.content() == f.bytes() { unimplemented!() }
    /// what the file will hold
    pub uninterp spec fn content(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    /// what the file itself holds so far
    pub uninterp spec fn disk(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: core::result::Result<(), IoError>)
        ensures final(self).content() == old(self).content(), final(self).pos() == old(self).pos(), r is Ok ==> final(self).disk() == final(self).content()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, p: SeekFrom) -> (r: core::result::Result<u64, IoError>)
        requires p is Start
        ensures final(self).content() == old(self).content(), r is Ok ==> final(self).pos() == p->Start_0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: core::result::Result<(), IoError>)
        ensures r is Ok ==> final(self).content() == laid(old(self).content(), old(self).pos(), b@) && final(self).pos() == old(self).pos() + b@.len()
    { unimplemented!() }
}
impl BufReader<File> {
    #[verifier::external_body]
    pub fn new(f: File) -> (r: Self) ensures r.content() == f.bytes() { unimplemented!() }
    pub uninterp spec fn content(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn seek(&mut self, p: SeekFrom) -> (r: core::result::Result<u64, IoError>)
        requires p is Start
        ensures final(self).content() == old(self).content(), r is Ok ==> final(self).pos() == p->Start_0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, b: &mut [u8]) -> (r: core::result::Result<(), IoError>)
        ensures final(self).content() == old(self).content(), final(b)@.len() == old(b)@.len(),
            r is Ok ==> old(self).pos() + old(b)@.len() <= old(self).content().len()
                && final(b)@ == old(self).content().subrange(old(self).pos(), old(self).pos() + old(b)@.len())
    { unimplemented!() }
}
} // mod io
