//@deps records
// Images inside of larger devices, and devices that are streams.
use crate::{bincode, layout, util};
use crate::blockdev::*;
use crate::layout::*;
use crate::codec::*;
use crate::records::*;

//@file xdvdfs-core/src/blockdev.rs
//@item const XDVD_OFFSETS | | &[u64] = &[ ==> [u64; 4] = [

/// where an image may start
pub open spec fn supported(o: int) -> bool { o == 0 || o == 405798912 || o == 265879552 || o == 34078720 }
/// a volume header is found on the disc at `o`
pub open spec fn header_at(c: Seq<u8>, o: int) -> bool {
    &&& o + 0x10800 <= c.len()
    &&& is_header(c.subrange(o + 0x10000, o + 0x10800))
}

proof fn header_of(c: Seq<u8>, o: int, v: VolumeDescriptor)
    requires 0 <= o, o + 0x10800 <= c.len(), v.laid_out(c.subrange(o, c.len() as int).subrange(0x10000, 0x10800)),
    ensures v.valid() <==> header_at(c, o),
{
    assert(c.subrange(o, c.len() as int).subrange(0x10000, 0x10800) =~= c.subrange(o + 0x10000, o + 0x10800));
}
proof fn offsets_are()
    ensures
        forall|i: int| 0 <= i < 4 ==> supported(#[trigger] XDVD_OFFSETS@[i] as int),
        forall|o: int| supported(o) ==> exists|i: int| 0 <= i < 4 && #[trigger] XDVD_OFFSETS@[i] == o,
{
    assert(XDVD_OFFSETS@[0] == 0);
}

impl<T> OffsetWrapper<T> where T: BlockDeviceRead + Sized {
//@fn new in impl<T> OffsetWrapper<T>
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@sub in XDVD_OFFSETS { ==> in vx_i: XDVD_OFFSETS.iter() {
//@sub crate::read::read_volume ==> read_volume
//@spec
        requires
            dev.dev_ok(),
            dev.max_offset() >= MAX_OFFSET + 0x1_0000_0000,
            dev.max_offset() <= u64::MAX,
        ensures
            r is Err ==> r->Err_0 is InvalidVolume,
            // an image is there
            r is Ok ==> {
                &&& r->Ok_0.dev_ok() && r->Ok_0.max_offset() >= MAX_OFFSET
                &&& supported(r->Ok_0.offset as int)
                &&& header_at(dev.contents(), r->Ok_0.offset as int)
                &&& r->Ok_0.contents() == dev.contents().subrange(r->Ok_0.offset as int, dev.contents().len() as int)
            },
            // and if there is one, it is found
            dev.reliable() && (exists|o: int| supported(o) && #[trigger] header_at(dev.contents(), o)) ==> r is Ok,
//@start
        let ghost d = dev;
        proof { offsets_are(); }
//@loop 0 for
        invariant
            s.inner.dev_ok(), s.inner.contents() == d.contents(), s.inner.max_offset() == d.max_offset(), s.inner.reliable() == d.reliable(),
            d.max_offset() >= MAX_OFFSET + 0x1_0000_0000, d.max_offset() <= u64::MAX,
            d.reliable() ==> forall|i: int| 0 <= i < vx_i.index@ ==> !header_at(d.contents(), #[trigger] XDVD_OFFSETS@[i] as int),
            vx_i.seq().len() == 4, forall|i: int| 0 <= i < 4 ==> *#[trigger] vx_i.seq()[i] == XDVD_OFFSETS@[i],
//@before if vol.is_ok()
            proof {
                assert(supported(XDVD_OFFSETS@[vx_i.index@ as int] as int));
                assert(s.offset == *vx_i.seq()[vx_i.index@ as int]);
                assert(supported(s.offset as int));
                let o = s.offset as int; let cc = d.contents();
                if o + 0x10800 <= cc.len() { assert(cc.subrange(o, cc.len() as int).subrange(0x10000, 0x10800) =~= cc.subrange(o + 0x10000, o + 0x10800)); }
                if vol is Ok { let v = vol->Ok_0; header_of(cc, o, v); }
            }
//@end
}
