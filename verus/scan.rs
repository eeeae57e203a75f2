//@deps lookup
// Listing a directory sector by sector.
use crate::{bincode, layout, util};
use crate::blockdev::*;
use crate::layout::*;
use crate::codec::*;
use crate::records::*;
//@file xdvdfs-core/src/read.rs
//@item struct DirentScanIter
pub assume_specification [u32::div_ceil] (a: u32, b: u32) -> (r: u32)
    requires b > 0,
    ensures r == (a + b - 1) / b as int;

pub open spec fn aligned4(o: int) -> int { o + (4 - o % 4) % 4 }

/// where the next record is looked for after the one that ends at offset `o` of sector `s`
pub open spec fn advance(s: int, o: int) -> (int, int) {
    if aligned4(o) + 14 >= 2048 { (s + 1, 0) } else { (s, aligned4(o)) }
}
/// the first record at or after offset `o` of sector `s`, before sector `e`: a filler ends its sector
pub open spec fn first_at(c: Seq<u8>, s: int, o: int, e: int) -> Option<(int, int)>
    decreases e - s,
{
    if s >= e { None }
    else if !blank(c, s * 2048 + o) { Some((s, o)) }
    else if s + 1 < e { first_at(c, s + 1, 0, e) }
    else { None }
}

impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR> {
    /// the cursor is where a record can be
    pub open spec fn safe(self) -> bool {
        &&& self.dev.dev_ok()
        &&& self.dev.max_offset() >= MAX_OFFSET
        &&& self.end_sector <= 0x1_0020_0000
        &&& self.sector <= self.end_sector
        &&& self.sector < self.end_sector ==> self.offset + 14 < 2048
    }
    /// the buffer holds the current sector
    pub open spec fn synced(self) -> bool {
        self.sector < self.end_sector ==> {
            &&& self.sector * 2048 + 2048 <= self.dev.contents().len()
            &&& self.sector_buf@ == self.dev.contents().subrange(self.sector * 2048, self.sector * 2048 + 2048)
        }
    }
//@fn next_sector in impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR>
//@ret r
//@spec
    requires
        old(self).dev.dev_ok(), old(self).dev.max_offset() >= MAX_OFFSET, old(self).end_sector <= 0x1_0020_0000, old(self).sector < old(self).end_sector,
    ensures
        final(self).safe(),
        final(self).dev.contents() == old(self).dev.contents(),
        final(self).sector == old(self).sector + 1, final(self).offset == 0, final(self).end_sector == old(self).end_sector,
        r is Ok ==> final(self).synced(),
//@before self.dev
        assert(self.sector < self.end_sector);
        assert(self.end_sector <= 0x1_0020_0000);
        assert(self.sector * 2048 <= 0x1_0020_0000 * 2048);
//@end
//@fn next_entry in impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR>
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@spec
    requires
        old(self).safe(),
    ensures
        // no input makes a scan panic
        final(self).safe(),
        final(self).dev.contents() == old(self).dev.contents(),
        final(self).end_sector == old(self).end_sector,
        r is Ok && old(self).synced() ==> {
            let c = old(self).dev.contents();
            let at = first_at(c, old(self).sector as int, old(self).offset as int, old(self).end_sector as int);
            &&& final(self).synced()
            // the next record of the table, as it is stored
            &&& (at is Some <==> r->Ok_0 is Some)
            &&& at is Some ==> {
                let (s, o) = at->Some_0;
                let d = r->Ok_0->Some_0;
                &&& entry_at(d, c, s * 2048 + o)
                &&& o + 14 + d.node.dirent.filename_length <= 2048
                &&& (final(self).sector as int, final(self).offset as int) == advance(s, o + 14 + d.node.dirent.filename_length)
            }
        },
//@loop 0 loop
        invariant
            self.safe(),
            self.sector < self.end_sector,
            self.dev.contents() == old(self).dev.contents(),
            self.end_sector == old(self).end_sector,
            old(self).synced() ==> self.synced()
                && first_at(self.dev.contents(), self.sector as int, self.offset as int, self.end_sector as int)
                    == first_at(self.dev.contents(), old(self).sector as int, old(self).offset as int, self.end_sector as int),
//@loopstart 0
            let ghost c = self.dev.contents();
            let ghost p = self.sector * 2048 + self.offset;
            let ghost buf0 = self.sector_buf@;
            let ghost (s0, o0) = (self.sector as int, self.offset as int);
//@before let dirent = deserialize_dirent_node
            proof { if old(self).synced() { assert(buf@ =~= c.subrange(p, p + 14)); } }
//@before self.offset = name_offset + name_len
            proof {
                if old(self).synced() {
                    assert(!blank(c, p));
                    assert(first_at(c, s0, o0, self.end_sector as int) == Some((s0, o0)));
                    assert(dirent.nm() =~= name_at(c, p));
                }
            }
//@end
}

impl DirectoryEntryTable {
//@fn scan_dirent_tree in impl DirectoryEntryTable
//@ret r
//@spec
    requires
        old(dev).dev_ok(),
        old(dev).max_offset() >= MAX_OFFSET,
    ensures
        r is Ok ==> {
            let it = r->Ok_0;
            &&& it.safe()
            &&& it.synced()
            &&& it.dev.contents() == old(dev).contents()
            // all the sectors of the table, from its start
            &&& self.region.size == 0 ==> it.sector >= it.end_sector
            &&& self.region.size > 0 ==> it.sector == self.region.sector && it.offset == 0
                && self.region.sector * 2048 + self.region.size <= it.end_sector * 2048 < self.region.sector * 2048 + self.region.size + 2048
        },
//@end
}
