//@deps werr layout
use crate::layout::SECTOR_SIZE;
use crate::werr::*;
//@file xdvdfs-core/src/write/sector.rs
//@item struct SectorAllocator

/// Sectors a region of `len` bytes occupies; an empty region still takes one.
pub open spec fn sectors_of(len: int) -> int {
    if len <= 0 { 1 } else { (len + 2047) / 2048 }
}

//@fn required_sectors
//@ret r
//@spec
    requires
        len <= 0x7ff_ffff_f800,
    ensures
        r as int == sectors_of(len as int),
        r >= 1,
        len <= r * 2048,
        r > 1 ==> (r - 1) * 2048 < len,
//@end

impl Default for SectorAllocator {
//@fn default in impl Default for SectorAllocator
//@ret r
//@spec
    ensures r.next_free >= 33, r.next_free <= 64
//@end
}

impl SectorAllocator {
//@fn allocate_contiguous in impl SectorAllocator
//@ret r
//@spec
    requires
        bytes <= 0x7ff_ffff_f800,
    ensures
        // an image that cannot be addressed is refused
        r is Ok <==> old(self).next_free + sectors_of(bytes as int) <= u32::MAX,
        r is Err ==> r->Err_0 is ImageTooLarge,
        final(self).next_free >= old(self).next_free,
        // the allocation is exactly the sectors [r, final.next_free): disjoint from everything handed
        // out before (all below old.next_free) and from everything handed out later
        r is Ok ==> r->Ok_0 == old(self).next_free,
        r is Ok ==> final(self).next_free == r->Ok_0 + sectors_of(bytes as int),
        r is Ok ==> bytes <= (final(self).next_free - r->Ok_0) * 2048,
        r is Ok ==> final(self).next_free > r->Ok_0,
//@end
}
