//@deps util blockdev
use crate::util;
use crate::blockdev::*;
//@file xdvdfs-core/src/layout.rs
//@item const SECTOR_SIZE
//@item struct DiskRegion | #[derive(Copy, Clone)]
//@item struct DirectoryEntryTable | #[derive(Copy, Clone)]

/// bitfield!-generated type; its accessors carry assumed contracts here and are decided bit by bit by Kani
#[derive(Copy, Clone)]
pub struct DirentAttributes(pub u8);
impl DirentAttributes {
    pub open spec fn spec_directory(self) -> bool { self.0 & 0x10u8 != 0 }
    #[verifier::external_body]
    pub fn directory(&self) -> (r: bool)
        ensures r == self.spec_directory(),
    { unimplemented!() }
}

//@item struct DirectoryEntryDiskData | #[derive(Copy, Clone)]
//@item struct DirectoryEntryDiskNode | #[derive(Copy, Clone)]
//@item struct DirectoryEntryNode | #[derive(Copy, Clone)]

impl DiskRegion {
    /// byte position of the region in the image
    pub open spec fn start(self) -> int { self.sector as int * 2048 }
//@fn is_empty in impl DiskRegion
//@ret r
//@spec
        ensures r == (self.size == 0),
//@end
//@fn size in impl DiskRegion
//@ret r
//@spec
        ensures r == self.size,
//@end
//@fn offset in impl DiskRegion
//@ret r
//@spec
        ensures
            offset < self.size ==> r is Ok && r->Ok_0 == self.start() + offset && r->Ok_0 <= MAX_OFFSET - 0x1000,
            offset >= self.size ==> r is Err,
//@end
}

impl DirectoryEntryTable {
//@fn new in impl DirectoryEntryTable
//@ret r
//@spec
        ensures r.region.size == size, r.region.sector == sector,
//@end
//@fn is_empty in impl DirectoryEntryTable
//@ret r
//@spec
        ensures r == (self.region.size == 0),
//@end
//@fn offset in impl DirectoryEntryTable
//@ret r
//@spec
        ensures
            offset < self.region.size ==> r is Ok && r->Ok_0 == self.region.start() + offset && r->Ok_0 <= MAX_OFFSET - 0x1000,
            offset >= self.region.size ==> r is Err,
//@end
}

impl DirectoryEntryDiskData {
    /// the bytes of the file `self` describes, on a device holding `c`
    pub open spec fn bytes(self, c: Seq<u8>) -> Seq<u8> {
        c.subrange(self.data.start(), self.data.start() + self.data.size)
    }
    /// the whole data region lies on the device
    pub open spec fn in_device(self, c: Seq<u8>) -> bool {
        self.data.start() + self.data.size <= c.len()
    }
//@fn is_empty in impl DirectoryEntryDiskData
//@ret r
//@spec
        ensures r == (self.data.size == 0),
//@end
//@fn is_directory in impl DirectoryEntryDiskData
//@ret r
//@spec
        ensures r == self.attributes.spec_directory(),
//@end
//@fn dirent_table in impl DirectoryEntryDiskData
//@ret r
//@spec
        ensures
            self.attributes.spec_directory() ==> r == Some(DirectoryEntryTable { region: self.data }),
            !self.attributes.spec_directory() ==> r is None,
//@end
//@fn read_data in impl DirectoryEntryDiskData
//@ret r
//@spec
        requires
            old(dev).dev_ok(),
            old(dev).max_offset() >= MAX_OFFSET,
        ensures
            final(dev).dev_ok(),
            final(dev).max_offset() == old(dev).max_offset(),
            final(dev).contents() == old(dev).contents(),
            final(buf)@.len() == old(buf)@.len(),
            // whatever part of the file fits in the buffer is the file's data
            r is Ok && self.data.size > 0 && 0 < old(buf)@.len() <= self.data.size ==>
                final(buf)@ == old(dev).contents().subrange(self.data.start(), self.data.start() + old(buf)@.len()),
//@end
//@fn read_data_all in impl DirectoryEntryDiskData
//@ret r
//@spec
        requires
            old(dev).dev_ok(),
            old(dev).max_offset() >= MAX_OFFSET,
        ensures
            final(dev).dev_ok(),
            final(dev).max_offset() == old(dev).max_offset(),
            final(dev).contents() == old(dev).contents(),
            final(dev).reliable() == old(dev).reliable(),
            old(dev).reliable() && self.in_device(old(dev).contents()) ==> r is Ok,
            r is Ok ==> r->Ok_0@.len() == self.data.size,
            r is Ok && self.data.size > 0 ==> self.in_device(old(dev).contents()) && r->Ok_0@ == self.bytes(old(dev).contents()),
//@end
//@fn read_data_offset in impl DirectoryEntryDiskData
//@ret r
//@spec
        requires
            old(dev).dev_ok(),
            old(dev).max_offset() >= MAX_OFFSET,
        ensures
            final(dev).dev_ok(),
            final(dev).max_offset() == old(dev).max_offset(),
            final(dev).contents() == old(dev).contents(),
            final(dev).reliable() == old(dev).reliable(),
            old(dev).reliable() && self.in_device(old(dev).contents()) ==> r is Ok,
            // exactly the file's bytes [offset, offset + size), clipped at the end of the file
            r is Ok ==> r->Ok_0@.len() == clipped(self.data.size as int, size as int, offset as int),
            r is Ok && clipped(self.data.size as int, size as int, offset as int) > 0 ==> r->Ok_0@ == old(dev).contents().subrange(
                self.data.start() + offset,
                self.data.start() + offset + clipped(self.data.size as int, size as int, offset as int)),
            clipped(self.data.size as int, size as int, offset as int) == 0 ==> r is Ok,
//@end
}

/// how many of `size` bytes from `offset` lie in a file of `len` bytes
pub open spec fn clipped(len: int, size: int, offset: int) -> int {
    if offset >= len { 0 } else if size <= len - offset { size } else { len - offset }
}
