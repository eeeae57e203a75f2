//@deps layout
// The on-disk records. The byte layout of a record is stated here; that the compiled serializer
// (bincode, a dependency Verus cannot see into) has it is decided by Kani for every input (kani/).
use crate::{bincode, util};
use crate::layout::*;
//@file xdvdfs-core/src/layout.rs
//@item const VOLUME_HEADER_MAGIC
//@item struct VolumeDescriptor | #[derive(Copy, Clone)]

pub open spec fn le16(b: Seq<u8>, i: int) -> u16 {
    (b[i] as int + b[i + 1] as int * 0x100) as u16
}
pub open spec fn le32(b: Seq<u8>, i: int) -> u32 {
    (b[i] as int + b[i + 1] as int * 0x100 + b[i + 2] as int * 0x1_0000 + b[i + 3] as int * 0x100_0000) as u32
}
/// the 14 fixed bytes of a directory record
pub open spec fn dec_node(b: Seq<u8>) -> DirectoryEntryDiskNode {
    DirectoryEntryDiskNode {
        left_entry_offset: le16(b, 0),
        right_entry_offset: le16(b, 2),
        dirent: DirectoryEntryDiskData {
            data: DiskRegion { sector: le32(b, 4), size: le32(b, 8) },
            attributes: DirentAttributes(b[12]),
            filename_length: b[13],
        },
    }
}
pub open spec fn all_bytes(b: Seq<u8>, v: u8) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == v }
pub open spec fn magic() -> Seq<u8> {
    seq![0x4du8, 0x49, 0x43, 0x52, 0x4f, 0x53, 0x4f, 0x46, 0x54, 0x2a, 0x58, 0x42, 0x4f, 0x58, 0x2a, 0x4d, 0x45, 0x44, 0x49, 0x41]
}

impl DirectoryEntryDiskNode {
    #[verifier::external_body]
    pub fn deserialize(buf: &[u8; 0xe]) -> (r: Result<Self, bincode::Error>)
        ensures r is Ok, r->Ok_0 == dec_node(buf@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize(&self) -> (r: Result<Vec<u8>, bincode::Error>)
        ensures r is Ok, r->Ok_0@.len() == 0xe, dec_node(r->Ok_0@) == *self,
    { unimplemented!() }
}

impl VolumeDescriptor {
//@fn new in impl VolumeDescriptor
//@ret r
//@spec
        ensures
            r.valid(), r.root_table == root_table, r.filetime == 0, all_bytes(r.unused@, 0),
//@end
    pub open spec fn valid(self) -> bool { self.magic0@ == magic() && self.magic1@ == magic() }
//@fn is_valid in impl VolumeDescriptor
//@ret r
//@spec
        ensures r == self.valid(),
//@start
        proof { magic_bytes(); assert((self.magic0@ =~= VOLUME_HEADER_MAGIC@) <==> (self.magic0@ == magic())); assert((self.magic1@ =~= VOLUME_HEADER_MAGIC@) <==> (self.magic1@ == magic())); }
//@end
    /// the fields of the 2048 bytes of a volume descriptor
    pub open spec fn laid_out(self, b: Seq<u8>) -> bool {
        &&& b.len() == 0x800
        &&& self.magic0@ == b.subrange(0, 0x14)
        &&& self.root_table.region.sector == le32(b, 0x14)
        &&& self.root_table.region.size == le32(b, 0x18)
        &&& self.magic1@ == b.subrange(0x7ec, 0x800)
    }
    #[verifier::external_body]
    pub fn deserialize(buf: &[u8; 0x800]) -> (r: Result<Self, bincode::Error>)
        ensures r is Ok, r->Ok_0.laid_out(buf@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize(&self) -> (r: Result<Vec<u8>, bincode::Error>)
        ensures r is Ok, self.laid_out(r->Ok_0@),
    { unimplemented!() }
}
pub proof fn magic_bytes()
    ensures VOLUME_HEADER_MAGIC@ == magic(),
{
    assert(VOLUME_HEADER_MAGIC@ =~= magic());
}
