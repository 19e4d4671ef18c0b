// ------------------------------------------------------------------ the file and its allocation
//@enum oxyroot/src/riofs/error.rs Error std::io::Error => IoError ;; crate::rbytes::Error => super::rbytes::Error ;; crate::rcompress::Error => super::rcompress::Error ;; RTypes\([^)]*\) => RTypes(u8) ;; Rdict\([^)]*\) => Rdict(u8)
pub type Result<T> = core::result::Result<T, Error>;
impl vstd::std_specs::convert::FromSpecImpl<IoError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: IoError) -> Self { Error::Io(v) } }
impl From<IoError> for Error { fn from(e: IoError) -> Self { Error::Io(e) } }
impl vstd::std_specs::convert::FromSpecImpl<super::rbytes::Error> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: super::rbytes::Error) -> Self { Error::Rbytes(v) } }
impl From<super::rbytes::Error> for Error { fn from(e: super::rbytes::Error) -> Self { Error::Rbytes(e) } }
impl vstd::std_specs::convert::FromSpecImpl<super::rcompress::Error> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: super::rcompress::Error) -> Self { Error::RCompress(v) } }
impl From<super::rcompress::Error> for Error { fn from(e: super::rcompress::Error) -> Self { Error::RCompress(e) } }

//@struct oxyroot/src/riofs/file.rs RootFileHeader
//@struct oxyroot/src/riofs/file.rs RootFileReader
//@struct oxyroot/src/riofs/file.rs RootFileWriter
//@enum oxyroot/src/riofs/file.rs RootFileInner
/// TNamed, as far as directories use it
pub struct ObjNamed { pub name: String, pub title: String }
impl traits::Object for ObjNamed { open spec fn class_of(&self) -> Seq<char> { "TNamed"@ } fn class(&self) -> &str { "TNamed" } }
//@impl oxyroot/src/rbase/named.rs | root::traits::Named for Named => impl traits::Named for ObjNamed
open spec fn name_of(&self) -> Seq<char> { self.name@ }
open spec fn title_of(&self) -> Seq<char> { self.title@ }
//@fn name
//@end
//@fn title
//@end
//@endimpl
//@struct oxyroot/src/riofs/dir.rs TDirectory
//@struct oxyroot/src/riofs/dir.rs TDirectoryFile
pub struct RootFileStreamerInfoContext { pub list: VxRc }
//@struct oxyroot/src/riofs/file.rs RootFile
//@impl oxyroot/src/riofs/dir.rs | TDirectory
//@fn named
ensures *ret == self.named
//@end
//@endimpl
//@impl oxyroot/src/riofs/dir.rs | TDirectoryFile
//@fn dir
ensures *ret == self.dir
//@end
//@fn keys
ensures *ret == self.keys
//@end
//@fn is_big_file
ensures ret == (self.dir.rvers > 1000)
//@end
//@fn record_size
ensures ret == (if version >= 40000 { 60int } else { 48int })
//@end
//@endimpl
//@impl oxyroot/src/riofs/file.rs | RootFileHeader
//@fn compression
ensures ret == self.compression
//@end
//@endimpl
impl RootFileWriter {
    pub open spec fn content(&self) -> Seq<u8> { self.writer->0.content() }
    pub open spec fn disk(&self) -> Seq<u8> { self.writer->0.disk() }
}
impl RootFileReader {
    pub open spec fn content(&self) -> Seq<u8> { self.reader->0.content() }
}
impl RootFile {
    pub open spec fn content(&self) -> Seq<u8> { self.inner->Writer_0.content() }
    /// a file being written
    pub open spec fn wr(&self) -> bool {
        &&& self.inner is Writer && self.inner->Writer_0.writer is Some
        &&& self.spans.0@.len() == 1 && self.spans.0@[0].last == kStartBigFile
        &&& self.header.compression == 1
        &&& 0 <= self.header.end < 0x1000_0000_0000_0000
        &&& self.dir.dir.rvers <= 1000
    }
    pub open spec fn big(&self) -> bool { self.header.end > kStartBigFile }
}
/// only the end of the allocated space moved
pub open spec fn moved(pre: RootFile, post: RootFile, e: int) -> bool {
    &&& post.inner == pre.inner && post.sinfos == pre.sinfos && post.dir == pre.dir && post.id == pre.id
    &&& post.header == (RootFileHeader { end: e as i64, ..pre.header })
    &&& post.spans.0@ == pre.spans.0@.update(pre.spans.0@.len() - 1, FreeSegments { first: e as i64, last: pre.spans.0@.last().last })
}
//@impl oxyroot/src/riofs/file.rs | RootFileWriter
//@fn write_at
requires old(self).writer is Some
ensures final(self).path == old(self).path, final(self).writer is Some,
  ret is Ok ==> final(self).content() == laid(old(self).content(), start as int, buf@)
//@end
//@fn flush
requires old(self).writer is Some
ensures final(self).path == old(self).path, final(self).writer is Some, final(self).content() == old(self).content(),
  ret is Ok ==> final(self).disk() == final(self).content()
//@end
//@endimpl
//@impl oxyroot/src/riofs/file.rs | RootFileReader
//@fn read_at
requires old(self).reader is Some
ensures final(self).path == old(self).path, final(self).reader is Some, final(self).content() == old(self).content(),
  ret is Ok ==> start + len <= old(self).content().len() && ret->Ok_0@ == old(self).content().subrange(start as int, start + len)
//@end
//@endimpl
//@impl oxyroot/src/riofs/file.rs | RootFile
//@fn n_bytes_name
ensures ret == self.header.n_bytes_name
//@end
//@fn version
ensures ret == self.header.version
//@end
//@fn begin
ensures ret == self.header.begin
//@end
//@fn end
ensures ret == self.header.end
//@end
//@fn dir
ensures *ret == self.dir
//@end
//@fn is_big_file
ensures ret == self.big()
//@end
//@fn compression
ensures ret == self.header.compression
//@end
//@fn writer
ensures match ret {
    Ok(w) => old(self).inner is Writer && *w == old(self).inner->Writer_0 && *final(self) == (RootFile { inner: RootFileInner::Writer(*final(w)), ..*old(self) }),
    Err(_) => !(old(self).inner is Writer) && *final(self) == *old(self),
  }
//@end
//@fn write_at
requires old(self).inner is Writer, old(self).inner->Writer_0.writer is Some
ensures final(self).inner is Writer, final(self).inner->Writer_0.writer is Some, *final(self) == (RootFile { inner: final(self).inner, ..*old(self) }),
  ret is Ok ==> final(self).content() == laid(old(self).content(), start as int, buf@)
//@end
//@fn set_end
requires old(self).spans.0@.len() > 0, old(self).spans.0@.last().last == kStartBigFile
ensures ret is Ok, moved(*old(self), *final(self), pos as int)
//@end
//@endimpl
