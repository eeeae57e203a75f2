//@deps codec names
// Directory records: what is read from the device is what is stored there.
use crate::{bincode, layout, util};
use crate::blockdev::*;
use crate::layout::*;
use crate::codec::*;
//@file xdvdfs-core/src/layout.rs

/// what the character encoding makes of the bytes of a name (encoding_rs, a dependency)
pub uninterp spec fn dec1252(b: Seq<u8>) -> Option<Seq<char>>;

/// stands for `Cow<str>` and for encoding_rs::WINDOWS_1252
pub struct VxStr { pub s: String }
impl VxStr {
    pub open spec fn view(&self) -> Seq<char> { self.s@ }
    pub fn as_str(&self) -> (r: &str)
        ensures r@ == self@,
    { self.s.as_str() }
}
pub struct Vx1252 { }
pub const WINDOWS_1252: Vx1252 = Vx1252 { };
impl Vx1252 {
    #[verifier::external_body]
    pub fn decode_without_bom_handling_and_without_replacement(&self, b: &[u8]) -> (r: Option<VxStr>)
        ensures
            r is Some <==> dec1252(b@) is Some,
            r is Some ==> r->Some_0@ == dec1252(b@)->Some_0,
    { unimplemented!() }
}

impl DirectoryEntryNode {
    /// the bytes of the name
    pub open spec fn nm(self) -> Seq<u8> { self.name@.subrange(0, self.node.dirent.filename_length as int) }
//@fn name_slice in impl DirectoryEntryNode
//@ret r
//@spec
        ensures r@ == self.nm(),
//@end
//@fn name_str in impl DirectoryEntryNode
//@ret r
//@sub alloc::borrow::Cow<str> ==> VxStr
//@spec
        ensures
            r is Ok <==> dec1252(self.nm()) is Some,
            r is Ok ==> r->Ok_0@ == dec1252(self.nm())->Some_0,
            r is Err ==> r->Err_0 is StringEncodingError,
//@end
}

// ---- a record on the device
/// the record at `p` is a filler, not an entry
pub open spec fn blank(c: Seq<u8>, p: int) -> bool {
    all_bytes(c.subrange(p, p + 14), 0xff) || all_bytes(c.subrange(p, p + 14), 0)
}
pub open spec fn node_at(c: Seq<u8>, p: int) -> DirectoryEntryDiskNode { dec_node(c.subrange(p, p + 14)) }
pub open spec fn name_at(c: Seq<u8>, p: int) -> Seq<u8> { c.subrange(p + 14, p + 14 + node_at(c, p).dirent.filename_length) }
/// `d` is the entry stored at `p`
pub open spec fn entry_at(d: DirectoryEntryNode, c: Seq<u8>, p: int) -> bool {
    &&& 0 <= p && p + 14 + d.node.dirent.filename_length <= c.len()
    &&& !blank(c, p)
    &&& d.offset == p
    &&& d.node == node_at(c, p)
    &&& d.nm() == name_at(c, p)
}

//@file xdvdfs-core/src/read.rs
//@fn deserialize_dirent_node
//@ret r
//@spec
    ensures
        r is Ok,
        r->Ok_0 is None <==> all_bytes(dirent_buf@, 0xff) || all_bytes(dirent_buf@, 0),
        r->Ok_0 is Some ==> r->Ok_0->Some_0.node == dec_node(dirent_buf@) && r->Ok_0->Some_0.offset == offset,
//@start
    proof {
        // the array literals the buffer is compared with have no name here
        assert forall|t: [u8; 0xe]| all_bytes(dirent_buf@, 0xff) && all_bytes(t@, 0xff) implies dirent_buf@ == #[trigger] t@ by { assert(dirent_buf@ =~= t@); }
        assert forall|t: [u8; 0xe]| all_bytes(dirent_buf@, 0) && all_bytes(t@, 0) implies dirent_buf@ == #[trigger] t@ by { assert(dirent_buf@ =~= t@); }
    }
//@end

//@fn read_dirent
//@ret r
//@spec
    requires
        old(dev).dev_ok(),
        old(dev).max_offset() >= MAX_OFFSET,
        offset <= MAX_OFFSET - 0x1000,
    ensures
        final(dev).dev_ok(),
        final(dev).max_offset() == old(dev).max_offset(),
        final(dev).contents() == old(dev).contents(),
        r is Ok ==> offset + 14 <= old(dev).contents().len(),
        r is Ok && r->Ok_0 is None ==> blank(old(dev).contents(), offset as int),
        r is Ok && r->Ok_0 is Some ==> entry_at(r->Ok_0->Some_0, old(dev).contents(), offset as int),
        r is Err ==> r->Err_0 is IOError,
//@start
    proof {
        // two empty names
        let c = dev.contents(); let p = offset as int;
        assert forall|d: DirectoryEntryNode| d.node == node_at(c, p) && d.node.dirent.filename_length == 0 && p + 14 <= c.len() implies #[trigger] d.nm() == name_at(c, p) by { assert(d.nm() =~= name_at(c, p)); }
    }
//@end

//@fn read_volume
//@ret r
//@sub ?-> (vx_m: util::Error<_>) ==> -> (vx_m: util::Error<BDR::ReadError>)
//@sub ?.map_err(|_vx_p| __1) ==> .map_err(|_vx_p: BDR::ReadError| -> (vx_m: util::Error<BDR::ReadError>) ensures vx_m == (__1) { __1 })
//@sub core::mem::size_of::<VolumeDescriptor>() ==> 0x800
//@spec
    requires
        old(dev).dev_ok(),
        old(dev).max_offset() >= MAX_OFFSET,
    ensures
        final(dev).dev_ok(),
        final(dev).max_offset() == old(dev).max_offset(),
        final(dev).contents() == old(dev).contents(),
        final(dev).reliable() == old(dev).reliable(),
        final(dev).view_of() == old(dev).view_of(),
        r is Err ==> r->Err_0 is InvalidVolume,
        old(dev).reliable() && old(dev).contents().len() >= 0x10800 && is_header(old(dev).contents().subrange(0x10000, 0x10800)) ==> r is Ok,
        // accepted exactly as it is on the disk, and only with both signatures
        r is Ok ==> old(dev).contents().len() >= 0x10800
            && r->Ok_0.laid_out(old(dev).contents().subrange(0x10000, 0x10800)) && r->Ok_0.valid(),
//@end

/// both signatures are there
pub open spec fn is_header(b: Seq<u8>) -> bool { b.subrange(0, 0x14) == magic() && b.subrange(0x7ec, 0x800) == magic() }
impl VolumeDescriptor {
//@fn root_dirent in impl VolumeDescriptor
//@ret r
//@spec
    requires
        old(dev).dev_ok(),
        old(dev).max_offset() >= MAX_OFFSET,
    ensures
        final(dev).dev_ok(),
        final(dev).max_offset() == old(dev).max_offset(),
        final(dev).contents() == old(dev).contents(),
        self.root_table.region.size == 0 ==> r is Err && r->Err_0 is DirectoryEmpty,
        r is Ok && r->Ok_0 is Some ==> entry_at(r->Ok_0->Some_0, old(dev).contents(), self.root_table.region.start()),
//@end
}
