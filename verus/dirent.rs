//@deps werr records names arrayvec encoding_rs
// Entries of a directory that is being built: their order and their size on the disk.
use crate::{arrayvec, encoding_rs, bincode, util};
use crate::layout::*;
use crate::codec::*;
use crate::records::*;
use crate::encoding_rs::*;
use crate::names::*;
use core::cmp::Ordering;
use vstd::std_specs::cmp::{OrdSpec, OrdSpecImpl, PartialEqSpecImpl, PartialOrdSpecImpl};
pub use crate::werr::*;
//@file xdvdfs-core/src/layout.rs
//@item struct DirectoryEntryData | #[derive(Copy, Clone)]

pub open spec fn round4(n: int) -> int { n + (4 - n % 4) % 4 }
impl DirectoryEntryData {
    pub open spec fn nm(self) -> Seq<char> { self.name@ }
    /// bytes of the name on the disk
    pub open spec fn enc(self) -> Seq<u8> { enc1252(self.name@)->Some_0 }
    /// the name can be stored
    pub open spec fn storable(self) -> bool { enc1252(self.name@) is Some && self.enc().len() <= 255 }
    pub open spec fn dlen(self) -> int { round4(14 + self.enc().len() as int) }
//@fn name_str in impl DirectoryEntryData
//@ret r
//@spec
        ensures r@ == self.nm(),
//@end
//@fn encode_name in impl DirectoryEntryData
//@ret r
//@sub ?use crate::write::FileStructureError; ==>
//@sub crate::write::FileStructureError> ==> FileStructureError>
//@sub ?|_vx_p| FileStructureError::StringEncodingError ==> |_vx_p| -> (vx_m: FileStructureError) ensures vx_m is StringEncodingError { FileStructureError::StringEncodingError }
//@spec
        ensures
            final(buffer)@.len() == old(buffer)@.len(),
            // the bytes of the whole name, or an error
            r is Ok ==> self.storable() && r->Ok_0 == self.enc().len() && r->Ok_0 <= final(buffer)@.len() && final(buffer)@.subrange(0, r->Ok_0 as int) == self.enc(),
            r is Err ==> r->Err_0 is StringEncodingError,
            r is Err ==> !self.storable() || old(buffer)@.len() < arrayvec::utf8_len(self.name@),
//@end
//@fn len_on_disk in impl DirectoryEntryData
//@ret r
//@sub crate::write::FileStructureError ==> FileStructureError
//@spec
        ensures
            r is Ok ==> self.storable() && r->Ok_0 == self.dlen() && r->Ok_0 <= 272,
            r is Err ==> r->Err_0 is StringEncodingError,
            r is Err ==> !self.storable() || 256 < arrayvec::utf8_len(self.name@),
//@end
}
// derived in the source, unused here
#[verifier::external]
impl PartialEq for DirectoryEntryData { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl Eq for DirectoryEntryData { }
impl PartialOrdSpecImpl for DirectoryEntryData {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(name_ord(self.nm(), other.nm())) }
}
impl OrdSpecImpl for DirectoryEntryData {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { name_ord(self.nm(), other.nm()) }
}
impl PartialOrd for DirectoryEntryData {
//@fn partial_cmp in impl PartialOrd for DirectoryEntryData
//@end
}
impl Ord for DirectoryEntryData {
//@fn cmp in impl Ord for DirectoryEntryData
//@sub util::cmp_ignore_case_utf8 ==> cmp_ignore_case_utf8
//@end
}
