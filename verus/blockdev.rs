//@deps util
// Block devices. The contract of the two traits is what every device implementation must provide and
// all that callers may rely on; the implementations below are verified against it.
use crate::util;
//@file xdvdfs-core/src/blockdev.rs

/// Upper bound of every offset the filesystem asks for: a 32-bit sector number, times the sector size,
/// plus a 32-bit size. Readers require max_offset() to reach it.
pub spec const MAX_OFFSET: int = 0x1000_0000_0000;

pub trait BlockDeviceRead {
    type ReadError;

    /// the bytes the device holds
    spec fn contents(&self) -> Seq<u8>;
    /// representation invariant of the device
    spec fn dev_ok(&self) -> bool;
    /// offsets up to this one may be asked for
    spec fn max_offset(&self) -> int;
    /// what else no read changes: for a view into another device, that device and where the view begins
    spec fn view_of(&self) -> (Seq<u8>, int, int);
    /// reads of bytes that are there do not fail
    spec fn reliable(&self) -> bool;

//@fn read in trait BlockDeviceRead
//@ret r
//@spec
        requires
            old(self).dev_ok(),
            offset <= old(self).max_offset(),
        ensures
            final(self).max_offset() == old(self).max_offset(),
            final(self).reliable() == old(self).reliable(),
            final(self).view_of() == old(self).view_of(),
            old(self).reliable() && old(buffer)@.len() > 0 && offset + old(buffer)@.len() <= old(self).contents().len() ==> r is Ok,
            final(self).dev_ok(),
            final(self).contents() == old(self).contents(),
            final(buffer)@.len() == old(buffer)@.len(),
            // (reading nothing may succeed anywhere)
            r is Ok && old(buffer)@.len() > 0 ==> {
                &&& offset + old(buffer)@.len() <= old(self).contents().len()
                &&& final(buffer)@ == old(self).contents().subrange(offset as int, offset + old(buffer)@.len())
            },
//@end
}

/// `s` with the bytes `b` stored at `off`
pub open spec fn patched(s: Seq<u8>, off: int, b: Seq<u8>) -> Seq<u8> {
    s.subrange(0, off) + b + s.subrange(off + b.len(), s.len() as int)
}

/// `n` rounded up to whole sectors
pub open spec fn up(n: int) -> int { (n + 2047) / 2048 * 2048 }
/// the regions of `n` bytes at `a` and of `m` bytes at `b` lie in different sectors
pub open spec fn apart(a: int, n: int, b: int, m: int) -> bool { up(a + n) / 2048 <= b / 2048 || up(b + m) / 2048 <= a / 2048 }

/// Upper bound of every offset written to
pub spec const MAX_WRITE: int = 0x2000_0000_0000_0000;

pub open spec fn grown(n: int, m: int) -> int { if m > n { m } else { n } }

/// What a successful write does: stores the bytes at the offset and changes nothing else. A growing
/// device fills a gap it creates with bytes of its choice, and may grow to whole sectors.
pub open spec fn write_effect(old: Seq<u8>, new: Seq<u8>, off: int, b: Seq<u8>) -> bool {
    &&& b.len() == 0 ==> new.len() == old.len()
    &&& new.len() == grown(old.len() as int, off + b.len()) || new.len() == grown(old.len() as int, up(off + b.len())) || b.len() == 0
    &&& forall|i: int| 0 <= i < b.len() ==> new[off + i] == #[trigger] b[i]
    &&& forall|i: int| 0 <= i < old.len() && !(off <= i < off + b.len()) ==> #[trigger] new[i] == old[i]
}

pub trait BlockDeviceWrite {
    type WriteError;

    /// the bytes the device holds
    spec fn wcontents(&self) -> Seq<u8>;
    /// representation invariant of the device
    spec fn wdev_ok(&self) -> bool;
    /// the length it reports is that of its contents (nothing at its end is still buffered)
    spec fn exact_len(&self) -> bool;
    /// what may be written: a device that assembles an image of sectors takes each sector once
    spec fn writable(&self, off: int, len: int) -> bool;

//@fn write in trait BlockDeviceWrite
//@ret r
//@spec
        requires
            old(self).wdev_ok(),
            offset + buffer@.len() <= MAX_WRITE,
            old(self).writable(offset as int, buffer@.len() as int),
        ensures
            r is Ok ==> final(self).wdev_ok(),
            // a write inside of the contents leaves nothing buffered at their end
            r is Ok && offset + buffer@.len() <= old(self).wcontents().len() ==> final(self).exact_len(),
            r is Ok ==> write_effect(old(self).wcontents(), final(self).wcontents(), offset as int, buffer@),
            r is Ok ==> forall|o: int, n: int| old(self).writable(o, n) && apart(offset as int, buffer@.len() as int, o, n) ==> #[trigger] final(self).writable(o, n),
//@end

//@fn len in trait BlockDeviceWrite
//@ret r
//@spec
        requires
            old(self).wdev_ok(),
        ensures
            r is Ok ==> final(self).wdev_ok(),
            final(self).wcontents() == old(self).wcontents(),
            forall|o: int, n: int| old(self).writable(o, n) ==> #[trigger] final(self).writable(o, n),
            // the end of the device can be written to
            r is Ok && old(self).exact_len() ==> r->Ok_0 == old(self).wcontents().len() && forall|n: int| #[trigger] final(self).writable(r->Ok_0 as int, n),
//@end
}

//@item struct OutOfBounds

impl BlockDeviceRead for [u8] {
    type ReadError = OutOfBounds;

    open spec fn contents(&self) -> Seq<u8> { self@ }
    open spec fn dev_ok(&self) -> bool { true }
    open spec fn max_offset(&self) -> int { u64::MAX as int }
    open spec fn reliable(&self) -> bool { true }
    open spec fn view_of(&self) -> (Seq<u8>, int, int) { (self@, 0, 0) }

//@fn read in impl BlockDeviceRead for [u8]
//@ret r
//@sub self.as_ref().len() ==> <[u8]>::len(self)
//@end
}

impl BlockDeviceWrite for Box<[u8]> {
    type WriteError = OutOfBounds;

    open spec fn wcontents(&self) -> Seq<u8> { self@ }
    open spec fn writable(&self, off: int, len: int) -> bool { true }
    open spec fn wdev_ok(&self) -> bool { true }
    open spec fn exact_len(&self) -> bool { true }

//@fn write in impl BlockDeviceWrite for Box<[u8]>
//@ret r
//@sub self[__1].copy_from_slice(buffer) ==> let vx_s: &mut [u8] = &mut **self; vx_s[__1].copy_from_slice(buffer)
//@end
//@fn len in impl BlockDeviceWrite for Box<[u8]>
//@ret r
//@end
}

impl BlockDeviceWrite for [u8] {
    type WriteError = OutOfBounds;

    open spec fn wcontents(&self) -> Seq<u8> { self@ }
    open spec fn writable(&self, off: int, len: int) -> bool { true }
    open spec fn wdev_ok(&self) -> bool { true }
    open spec fn exact_len(&self) -> bool { true }

//@fn write in impl BlockDeviceWrite for [u8]
//@ret r
//@end
//@fn len in impl BlockDeviceWrite for [u8]
//@ret r
//@end
}

//@item struct OffsetWrapper

impl<T> BlockDeviceRead for OffsetWrapper<T> where T: BlockDeviceRead {
    type ReadError = T::ReadError;

    /// the image seen through the wrapper starts at `offset` of the inner device
    open spec fn contents(&self) -> Seq<u8> {
        if self.offset <= self.inner.contents().len() {
            self.inner.contents().subrange(self.offset as int, self.inner.contents().len() as int)
        } else {
            Seq::empty()
        }
    }
    open spec fn dev_ok(&self) -> bool { self.inner.dev_ok() && self.inner.max_offset() <= u64::MAX }
    open spec fn max_offset(&self) -> int { self.inner.max_offset() - self.offset }
    open spec fn reliable(&self) -> bool { self.inner.reliable() }
    open spec fn view_of(&self) -> (Seq<u8>, int, int) { (self.inner.contents(), self.inner.max_offset(), self.offset as int) }

//@fn read in impl<T> BlockDeviceRead for OffsetWrapper<T>
//@ret r
//@end
}
