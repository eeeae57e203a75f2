//@deps offset hier
// Devices that are files and streams, and copies between them.
use crate::{bincode, layout, util};
use crate::blockdev::*;
use crate::btree::*;
use crate::hier::*;
use alloc::{boxed::Box, string::String, vec::Vec};
use crate::stream::io::{Seek, Read, Write};

/// `new` is `old` with `b` stored at `off`; a gap before it is filled somehow
pub open spec fn stored_at(old: Seq<u8>, new: Seq<u8>, off: int, b: Seq<u8>) -> bool {
    if b.len() == 0 { new == old } else {
        &&& new.len() == grown(old.len() as int, off + b.len())
        &&& forall|i: int| 0 <= i < b.len() ==> new[off + i] == #[trigger] b[i]
        &&& forall|i: int| 0 <= i < old.len() && !(off <= i < off + b.len()) ==> #[trigger] new[i] == old[i]
    }
}
/// stands for `std::io`: assumed contracts
pub mod io {
    use super::*;
    #[verifier::external_body]
    pub struct Error { e: u8 }
    pub enum ErrorKind { UnexpectedEof, WriteZero, Unsupported, InvalidInput, InvalidData, Other }
    pub type Result<T> = core::result::Result<T, Error>;
    impl Error {
        #[verifier::external_body]
        pub fn from(k: ErrorKind) -> (r: Error)
        { unimplemented!() }
    }
    pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
    pub trait Seek {
        /// all bytes of the stream
        spec fn data(&self) -> Seq<u8>;
        /// the position
        spec fn pos(&self) -> int;
        /// positions up to this one may be asked for
        spec fn limit(&self) -> int;
        fn seek(&mut self, p: SeekFrom) -> (r: Result<u64>)
            requires
                p is Start ==> p->Start_0 <= old(self).limit(),
            ensures
                final(self).limit() == old(self).limit(),
                final(self).data() == old(self).data(),
                r is Ok && p is Start ==> final(self).pos() == p->Start_0 && r->Ok_0 == p->Start_0;
    }
    pub trait Read: Seek {
        fn read_exact(&mut self, b: &mut [u8]) -> (r: Result<()>)
            ensures
                final(self).limit() == old(self).limit(),
                final(self).data() == old(self).data(),
                final(b)@.len() == old(b)@.len(),
                r is Ok ==> {
                    &&& final(self).pos() == old(self).pos() + old(b)@.len()
                    &&& old(b)@.len() > 0 ==> final(self).pos() <= old(self).data().len()
                    &&& old(b)@.len() > 0 ==> final(b)@ == old(self).data().subrange(old(self).pos(), old(self).pos() + old(b)@.len())
                };
    }
    pub trait Write: Seek {
        fn write_all(&mut self, b: &[u8]) -> (r: Result<()>)
            ensures
                final(self).limit() == old(self).limit(),
                r is Ok ==> stored_at(old(self).data(), final(self).data(), old(self).pos(), b@);
    }
}

// ---- copying (assumed contracts of `std::io::copy`, `Read::take`, `BufReader`)
pub mod copying {
    use super::*;
    /// what a reader has yet to give
    pub trait Rest { spec fn rest(&self) -> Seq<u8>; }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(R)]
    pub struct Take<R> { r: R }
    impl<R> Take<R> { pub uninterp spec fn left(&self) -> Seq<u8>; }
    impl<R> Rest for Take<R> { open spec fn rest(&self) -> Seq<u8> { self.left() } }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(R)]
    pub struct BufReader<R> { r: R }
    impl<R: Rest> BufReader<R> {
        pub uninterp spec fn left(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn with_capacity(n: usize, r: R) -> (b: Self)
            ensures b.left() == r.rest(),
        { unimplemented!() }
    }
    impl<R: Rest> Rest for BufReader<R> { open spec fn rest(&self) -> Seq<u8> { self.left() } }
    /// at most `n` bytes from position `p`
    pub open spec fn limited(b: Seq<u8>, p: int, n: int) -> Seq<u8> { b.subrange(from(b, p), from(b, p) + part(b.len() as int, n, p)) }
    pub open spec fn from(b: Seq<u8>, p: int) -> int { if p > b.len() { b.len() as int } else { p } }
    #[verifier::external_body]
    pub fn copy<S: Rest, W: io::Write + ?Sized>(s: &mut S, w: &mut W) -> (r: io::Result<u64>)
        ensures final(w).limit() == old(w).limit(), r is Ok ==> r->Ok_0 == old(s).rest().len() && stored_at(old(w).data(), final(w).data(), old(w).pos(), old(s).rest()),
    { unimplemented!() }
    /// stands for `std::io::copy(&mut src.by_ref().take(size), dest)`
    #[verifier::external_body]
    pub fn copy_some<R: io::Read, W: io::Write + ?Sized>(s: &mut R, n: u64, w: &mut W) -> (r: io::Result<u64>)
        ensures
            final(s).data() == old(s).data(), final(s).limit() == old(s).limit(), final(w).limit() == old(w).limit(),
            r is Ok ==> r->Ok_0 == limited(old(s).data(), old(s).pos(), n as int).len() && stored_at(old(w).data(), final(w).data(), old(w).pos(), limited(old(s).data(), old(s).pos(), n as int)),
    { unimplemented!() }
}
use crate::stream::copying::*;

// ---- reading from a stream
//@file xdvdfs-core/src/blockdev.rs
impl<R> BlockDeviceRead for R where R: io::Read + io::Seek {
    type ReadError = io::Error;

    open spec fn contents(&self) -> Seq<u8> { self.data() }
    open spec fn dev_ok(&self) -> bool { true }
    open spec fn max_offset(&self) -> int { self.limit() }
    open spec fn reliable(&self) -> bool { false }
    open spec fn view_of(&self) -> (Seq<u8>, int, int) { (self.data(), 0, 0) }

//@fn read in impl<R> BlockDeviceRead for R
//@ret r
//@sub std::io:: ==> io::
//@end
}

// ---- files
/// stands for `std::fs::File`, `Metadata`: assumed contracts
#[verifier::external_body]
pub struct Metadata { e: u8 }
impl Metadata {
    pub uninterp spec fn size(&self) -> int;
    #[verifier::external_body]
    pub fn len(&self) -> (r: u64)
        ensures r == self.size(),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct File { e: u8 }
impl File {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: io::Result<Metadata>)
        ensures r is Ok ==> r->Ok_0.size() == self.bytes().len(),
    { unimplemented!() }
}
impl io::Seek for File {
    open spec fn data(&self) -> Seq<u8> { self.bytes() }
    open spec fn pos(&self) -> int { self.at() }
    open spec fn limit(&self) -> int { u64::MAX as int }
    #[verifier::external_body]
    fn seek(&mut self, p: io::SeekFrom) -> (r: io::Result<u64>) { unimplemented!() }
}
impl io::Write for File {
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>) { unimplemented!() }
}
/// stands for `std::io::BufWriter<std::fs::File>`: a part of what was written may not have reached the file
#[verifier::external_body]
pub struct BufWriter { e: u8 }
impl BufWriter {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn at(&self) -> int;
    /// the length of the file
    pub uninterp spec fn flushed(&self) -> int;
    pub open spec fn buf_ok(&self) -> bool { 0 <= self.flushed() <= self.bytes().len() }
    #[verifier::external_body]
    pub fn get_ref(&self) -> (r: &File)
        ensures r.bytes().len() == self.flushed(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut File)
        ensures
            r.bytes().len() == old(self).flushed(),
            *final(r) == *r ==> *final(self) == *old(self),
    { unimplemented!() }
}
impl io::Seek for BufWriter {
    open spec fn data(&self) -> Seq<u8> { self.bytes() }
    open spec fn pos(&self) -> int { self.at() }
    open spec fn limit(&self) -> int { u64::MAX as int }
    /// what was buffered is written out first
    #[verifier::external_body]
    fn seek(&mut self, p: io::SeekFrom) -> (r: io::Result<u64>)
        ensures r is Ok ==> final(self).flushed() == final(self).bytes().len(),
    { unimplemented!() }
}
impl io::Write for BufWriter {
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>)
        ensures old(self).buf_ok() ==> old(self).flushed() <= final(self).flushed() && final(self).buf_ok(),
    { unimplemented!() }
}

impl BlockDeviceWrite for File {
    type WriteError = io::Error;

    open spec fn wcontents(&self) -> Seq<u8> { self.bytes() }
    open spec fn writable(&self, off: int, len: int) -> bool { true }
    open spec fn wdev_ok(&self) -> bool { true }
    open spec fn exact_len(&self) -> bool { true }

//@fn write in impl BlockDeviceWrite for std::fs::File
//@ret r
//@sub ?use std::io::Seek; ==>
//@sub std::io:: ==> io::
//@end
//@fn len in impl BlockDeviceWrite for std::fs::File
//@ret r
//@sub std::io:: ==> io::
//@end
}
impl BlockDeviceWrite for BufWriter {
    type WriteError = io::Error;

    open spec fn wcontents(&self) -> Seq<u8> { self.bytes() }
    open spec fn writable(&self, off: int, len: int) -> bool { true }
    open spec fn wdev_ok(&self) -> bool { self.buf_ok() }
    open spec fn exact_len(&self) -> bool { self.flushed() == self.bytes().len() }

//@fn write in impl BlockDeviceWrite for std::io::BufWriter<std::fs::File>
//@ret r
//@sub ?use std::io::Seek; ==>
//@sub std::io:: ==> io::
//@end
//@fn len in impl BlockDeviceWrite for std::io::BufWriter<std::fs::File>
//@ret r
//@sub std::io:: ==> io::
//@end
}

/// A device that is also a stream: both are views of the same bytes. Holds of the implementations above.
#[verifier::external_body]
pub proof fn device_is_stream<W: BlockDeviceWrite + io::Write + ?Sized>(w: &W)
    ensures
        w.wcontents() == w.data(), w.wdev_ok(), forall|o: int, n: int| #[trigger] w.writable(o, n),
{
}
#[verifier::external_body]
pub proof fn reader_is_stream<R: BlockDeviceRead + io::Read>(r: &R)
    ensures r.contents() == r.data(), r.dev_ok(),
{
}

impl<T> io::Seek for OffsetWrapper<T> where T: BlockDeviceRead + io::Seek {
    open spec fn data(&self) -> Seq<u8> { self.inner.data() }
    open spec fn pos(&self) -> int { self.inner.pos() - self.offset }
    open spec fn limit(&self) -> int { if self.inner.limit() <= u64::MAX { self.inner.limit() - self.offset } else { u64::MAX - self.offset } }
//@file xdvdfs-core/src/blockdev.rs
//@fn seek in impl<T> std::io::Seek for OffsetWrapper<T>
//@ret r
//@sub std::io:: ==> io::
//@sub ?use io::SeekFrom; ==> use crate::stream::io::SeekFrom;
//@spec
        ensures
            // the start of the image is at the offset
            r is Ok && pos is Start ==> final(self).inner.pos() == old(self).offset + pos->Start_0,
            final(self).offset == old(self).offset,
            final(self).inner.data() == old(self).inner.data(),
//@end
}
