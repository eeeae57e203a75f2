//@deps hier layout
// The device that records what each sector of an image is made of, and the sectors it gives to the compressor.
use crate::blockdev::*;
use crate::btree::*;
use crate::hier::*;
use crate::layout;
use alloc::{boxed::Box, string::String, vec::Vec};

/// stands for `BTreeMap<u64, V>` of the standard library: assumed contract
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct VxSectors<V> { m: alloc::collections::BTreeMap<u64, V> }
impl<V> VxSectors<V> {
    pub uninterp spec fn view(&self) -> Map<u64, V>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: u64, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k, v),
            r is Some <==> old(self)@.contains_key(k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &u64) -> (r: Option<&V>)
        ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last_key_value(&self) -> (r: Option<(&u64, &V)>)
        ensures
            r is None <==> forall|k: u64| !#[trigger] self@.contains_key(k),
            r is Some ==> self@.contains_key(*r->Some_0.0) && self@[*r->Some_0.0] == *r->Some_0.1,
            r is Some ==> forall|k: u64| #[trigger] self@.contains_key(k) ==> k <= *r->Some_0.0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.dom().len(),
    { unimplemented!() }
}
/// stands for the cast of a boxed slice to a boxed array of its length (`Box::from_raw`, `Box::into_raw`)
#[verifier::external_body]
pub fn vx_boxed_array(b: Box<[u8]>) -> (r: Box<[u8; 2048]>)
    requires b@.len() == 2048,
    ensures r@ == b@,
{ unimplemented!() }

//@file xdvdfs-core/src/write/fs/sector_linear.rs
//@item enum SectorLinearBlockContents
//@item struct SectorLinearBlockDevice | | alloc::collections::BTreeMap<u64, SectorLinearBlockContents> ==> VxSectors<SectorLinearBlockContents>
//@item struct SectorLinearBlockFilesystem

/// the contents of the files of the source, as the device will be asked for them
pub uninterp spec fn src_file(p: Path) -> Seq<u8>;
pub open spec fn at_or(s: Seq<u8>, i: int) -> u8 { if 0 <= i < s.len() { s[i] } else { 0 } }
/// the byte `i` of a sector
pub open spec fn sector_byte(m: Map<u64, SectorLinearBlockContents>, s: int, i: int) -> u8 {
    if 0 <= s <= u64::MAX && m.contains_key(s as u64) {
        match m[s as u64] {
            SectorLinearBlockContents::RawData(d) => d@[i],
            SectorLinearBlockContents::File(p, k) => at_or(src_file(p.p()), k * 2048 + i),
            SectorLinearBlockContents::Empty => 0,
        }
    } else { 0 }
}
/// `n` sectors reach to the last one that is there
pub open spec fn spans(m: Map<u64, SectorLinearBlockContents>, n: int) -> bool {
    &&& n >= 0
    &&& forall|k: u64| #[trigger] m.contains_key(k) ==> k < n
    &&& n > 0 ==> n - 1 <= u64::MAX && m.contains_key((n - 1) as u64)
}
pub open spec fn count(m: Map<u64, SectorLinearBlockContents>) -> int { choose|n: int| spans(m, n) }
pub open spec fn image_of(m: Map<u64, SectorLinearBlockContents>) -> Seq<u8> {
    Seq::new((count(m) * 2048) as nat, |i: int| sector_byte(m, i / 2048, i % 2048))
}
/// a sector that is there: data, or a sector of a file that starts no earlier than the image
pub open spec fn used(c: SectorLinearBlockContents, k: u64) -> bool { !(c is Empty) && (c is File ==> c->File_1 <= k) }
pub open spec fn fits(m: Map<u64, SectorLinearBlockContents>) -> bool {
    &&& forall|k: u64| #[trigger] m.contains_key(k) ==> k < 0x4_0000_0000_0000 && used(m[k], k)
    &&& exists|n: int| spans(m, n)
}
pub open spec fn none_in(m: Map<u64, SectorLinearBlockContents>, a: int, b: int) -> bool { forall|k: u64| #[trigger] m.contains_key(k) ==> !(a <= k < b) }
pub proof fn counted(m: Map<u64, SectorLinearBlockContents>, n: int)
    requires spans(m, n),
    ensures count(m) == n,
{
    let c = count(m);
    assert(spans(m, c));
    if c < n { assert(m.contains_key((n - 1) as u64)); }
    if n < c { assert(m.contains_key((c - 1) as u64)); }
}

pub proof fn last_counts(m: Map<u64, SectorLinearBlockContents>, k: u64)
    requires fits(m), m.contains_key(k), forall|j: u64| #[trigger] m.contains_key(j) ==> j <= k,
    ensures k < 0x4_0000_0000_0000, !(m[k] is Empty), count(m) == k + 1, layout::SECTOR_SIZE == 2048, (k as u64) * (layout::SECTOR_SIZE as u64) == k * 2048,
{
    assert(spans(m, k + 1));
    counted(m, k + 1);
}

impl SectorLinearBlockDevice {
//@fn len_impl in impl SectorLinearBlockDevice
//@ret r
//@sub ?self.contents.last_key_value().map(|(sector, contents)| { __1 }).unwrap_or(0) ==> match self.contents.last_key_value() { Some((sector, contents)) => { proof { last_counts(self.contents@, *sector); } __1 } None => { proof { counted(self.contents@, 0); } 0 } }
//@spec
    requires fits(self.contents@),
    ensures r == image_of(self.contents@).len(),
//@end
//@fn num_sectors in impl SectorLinearBlockDevice
//@ret r
//@spec
    ensures r == self.contents@.dom().len(),
//@end
//@fn index in impl core::ops::Index<u64> for SectorLinearBlockDevice
//@ret r
//@sub Self::Output ==> SectorLinearBlockContents
//@spec
    ensures r == (if self.contents@.contains_key(index) { &self.contents@[index] } else { &SectorLinearBlockContents::Empty }),
//@end
}
/// stands for `b[lo..hi].copy_from_slice(src)` on a boxed array
#[verifier::external_body]
pub fn vx_store(b: &mut Box<[u8; 2048]>, lo: usize, hi: usize, src: &[u8])
    requires lo <= hi <= 2048, hi - lo == src@.len(),
    ensures forall|i: int| 0 <= i < 2048 ==> #[trigger] final(b)@[i] == (if lo <= i < hi { src@[i - lo] } else { old(b)@[i] }),
{ unimplemented!() }

/// the sectors from `a` up to `b` were added
pub open spec fn extended(m0: Map<u64, SectorLinearBlockContents>, m1: Map<u64, SectorLinearBlockContents>, a: int, b: int) -> bool {
    &&& forall|k: u64| #[trigger] m1.contains_key(k) <==> m0.contains_key(k) || a <= k < b
    &&& forall|k: u64| #[trigger] m0.contains_key(k) && !(a <= k < b) ==> m1[k] == m0[k]
}
pub open spec fn raw_sector(c: SectorLinearBlockContents, b: Seq<u8>, from: int) -> bool {
    c is RawData && forall|i: int| 0 <= i < 2048 ==> #[trigger] c->RawData_0@[i] == at_or(b, from + i)
}
pub open spec fn raw_in(m: Map<u64, SectorLinearBlockContents>, a: int, b: int, buf: Seq<u8>) -> bool {
    forall|k: u64| a <= k < b ==> #[trigger] m.contains_key(k) && raw_sector(m[k], buf, (k - a) * 2048)
}
pub open spec fn file_in(m: Map<u64, SectorLinearBlockContents>, a: int, b: int, p: Path) -> bool {
    forall|k: u64| a <= k < b ==> #[trigger] m.contains_key(k) && m[k] is File && m[k]->File_0.p() == p && m[k]->File_1 == k - a
}
pub proof fn grows(m0: Map<u64, SectorLinearBlockContents>, m1: Map<u64, SectorLinearBlockContents>, a: int, b: int)
    requires fits(m0), extended(m0, m1, a, b), 0 <= a <= b <= 0x4_0000_0000_0000, forall|k: u64| a <= k < b ==> #[trigger] m1.contains_key(k) && used(m1[k], k),
    ensures fits(m1), count(m1) == (if a < b && b > count(m0) { b } else { count(m0) }),
{
    let n = choose|n: int| spans(m0, n);
    counted(m0, n);
    let n1 = if a < b && b > n { b } else { n };
    assert(spans(m1, n1)) by {
        if a < b && b > n { assert(m1.contains_key((b - 1) as u64)); }
        else if n > 0 { assert(m0.contains_key((n - 1) as u64)); assert(m1.contains_key((n - 1) as u64)); }
    }
    counted(m1, n1);
    assert forall|k: u64| #[trigger] m1.contains_key(k) implies k < 0x4_0000_0000_0000 && used(m1[k], k) by {
        if !(a <= k < b) { assert(m0.contains_key(k)); }
    }
}
pub proof fn kept(m0: Map<u64, SectorLinearBlockContents>, m1: Map<u64, SectorLinearBlockContents>, a: int, b: int, x: int)
    requires extended(m0, m1, a, b), 0 <= x, !(a <= x / 2048 < b),
    ensures sector_byte(m1, x / 2048, x % 2048) == sector_byte(m0, x / 2048, x % 2048),
{
    let s = x / 2048;
    if s <= u64::MAX { assert(m1.contains_key(s as u64) <==> m0.contains_key(s as u64)); }
}
pub proof fn stored_raw(m0: Map<u64, SectorLinearBlockContents>, m1: Map<u64, SectorLinearBlockContents>, a: int, b: int, off: int, buf: Seq<u8>)
    requires
        fits(m0), extended(m0, m1, a, b), raw_in(m1, a, b, buf), none_in(m0, a, b),
        off == a * 2048, b == up(off + buf.len()) / 2048, 0 <= off, off + buf.len() <= MAX_WRITE,
    ensures
        fits(m1), write_effect(image_of(m0), image_of(m1), off, buf),
{
    assert(b <= 0x4_0000_0000_0000 && a <= b);
    grows(m0, m1, a, b);
    let c0 = image_of(m0); let c1 = image_of(m1);
    assert forall|i: int| 0 <= i < buf.len() implies c1[off + i] == #[trigger] buf[i] by {
        let x = off + i; let s = x / 2048;
        assert(a <= s < b && x % 2048 == i % 2048);
        assert((s as u64) as int == s);
        assert(m1.contains_key(s as u64));
        assert(raw_sector(m1[s as u64], buf, (s - a) * 2048));
        assert((s - a) * 2048 + x % 2048 == i);
        assert(x < count(m1) * 2048);
    }
    assert forall|i: int| 0 <= i < c0.len() && !(off <= i < off + buf.len()) implies #[trigger] c1[i] == c0[i] by {
        let s = i / 2048;
        assert(i < count(m1) * 2048);
        if a <= s < b {
            assert(!m0.contains_key(s as u64));
            assert((s as u64) as int == s);
        assert(m1.contains_key(s as u64));
        assert(raw_sector(m1[s as u64], buf, (s - a) * 2048));
            assert((s - a) * 2048 + i % 2048 == i - off);
        } else { kept(m0, m1, a, b, i); }
    }
}
pub proof fn still_open(m0: Map<u64, SectorLinearBlockContents>, m1: Map<u64, SectorLinearBlockContents>, a: int, b: int, off: int, len: int, o: int, n: int)
    requires extended(m0, m1, a, b), a == off / 2048, b == up(off + len) / 2048, apart(off, len, o, n), none_in(m0, o / 2048, up(o + n) / 2048),
    ensures none_in(m1, o / 2048, up(o + n) / 2048),
{
    assert forall|k: u64| #[trigger] m1.contains_key(k) implies !(o / 2048 <= k < up(o + n) / 2048) by {}
}

impl BlockDeviceWrite for SectorLinearBlockDevice {
    type WriteError = core::convert::Infallible;

    open spec fn wcontents(&self) -> Seq<u8> { image_of(self.contents@) }
    open spec fn wdev_ok(&self) -> bool { fits(self.contents@) }
    open spec fn exact_len(&self) -> bool { true }
    /// every sector is taken once
    open spec fn writable(&self, off: int, len: int) -> bool { off % 2048 == 0 && none_in(self.contents@, off / 2048, up(off + len) / 2048) }

//@fn write in impl BlockDeviceWrite for SectorLinearBlockDevice
//@ret r
//@sub Infallible ==> core::convert::Infallible
//@sub ?alloc::vec![0; __1] ==> vec![0u8; __1]
//@sub ?unsafe { Box::from_raw(Box::into_raw(sector_buf) as *mut [u8; layout::SECTOR_SIZE as usize]) } ==> vx_boxed_array(sector_buf)
//@sub ?sector_buf[0..to_write].copy_from_slice(__1) ==> vx_store(&mut sector_buf, 0, to_write, __1)
//@start
        let ghost m0 = self.contents@; let ghost off = offset as int; let ghost a = offset as int / 2048;
        let ghost e = up(off + buffer@.len()) / 2048;
//@loop 0 while
            invariant
                m0 == old(self).contents@, fits(m0), none_in(m0, a, e), off == a * 2048, off >= 0, e == up(off + buffer@.len()) / 2048,
                off + buffer@.len() <= MAX_WRITE,
                remaining + buffer_pos == buffer@.len(), a <= sector <= e, e <= 0x4_0000_0000_0000,
                remaining > 0 ==> buffer_pos == (sector - a) * 2048, remaining == 0 ==> sector == e,
                extended(m0, self.contents@, a, sector as int), raw_in(self.contents@, a, sector as int, buffer@),
            decreases remaining,
//@loopstart 0
            let ghost s = sector; let ghost m = self.contents@; let ghost pos = buffer_pos as int;
//@loopend 0
            proof {
                assert(pos == (s - a) * 2048);
                assert(raw_sector(self.contents@[s], buffer@, (s - a) * 2048));
                assert forall|k: u64| a <= k < sector implies #[trigger] self.contents@.contains_key(k) && raw_sector(self.contents@[k], buffer@, (k - a) * 2048) by {
                    if k != s { assert(m.contains_key(k)); }
                }
            }
//@before Ok(())
        proof {
            stored_raw(m0, self.contents@, a, e, off, buffer@);
            assert forall|o: int, n: int| old(self).writable(o, n) && apart(off, buffer@.len() as int, o, n) implies #[trigger] self.writable(o, n) by { still_open(m0, self.contents@, a, e, off, buffer@.len() as int, o, n); }
        }
//@end
//@fn len in impl BlockDeviceWrite for SectorLinearBlockDevice
//@ret r
//@sub Infallible ==> core::convert::Infallible
//@start
        proof { end_open(self.contents@); }
//@end
}
pub proof fn end_open(m: Map<u64, SectorLinearBlockContents>)
    requires fits(m),
    ensures image_of(m).len() == count(m) * 2048, forall|a: int| none_in(m, count(m), a), (count(m) * 2048) % 2048 == 0, (count(m) * 2048) / 2048 == count(m),
{
    let n = choose|n: int| spans(m, n);
    counted(m, n);
}

impl<'a, F: Source + ?Sized> Source for SectorLinearBlockFilesystem<'a, F> {
    open spec fn listing(&self, p: Path) -> Seq<Entry> { self.fs.listing(p) }
    open spec fn file(&self, p: Path) -> Seq<u8> { src_file(p) }
}
impl<F> FilesystemHierarchy for SectorLinearBlockFilesystem<'_, F> where F: FilesystemHierarchy {
    type Error = <F as FilesystemHierarchy>::Error;
//@fn read_dir in impl<F> FilesystemHierarchy for SectorLinearBlockFilesystem<'_, F>
//@ret r
//@end
    #[verifier::external_body]
    fn path_to_string(&self, path: &PathVec) -> String { unimplemented!() }
}
pub proof fn stored_file(m0: Map<u64, SectorLinearBlockContents>, m1: Map<u64, SectorLinearBlockContents>, a: int, b: int, off: int, p: Path, size: int)
    requires
        fits(m0), extended(m0, m1, a, b), file_in(m1, a, b, p), none_in(m0, a, b),
        off == a * 2048, b == up(off + size) / 2048, 0 <= off, 0 <= size, off + size <= MAX_WRITE,
    ensures
        fits(m1), copied(image_of(m0), image_of(m1), src_file(p), 0, off, size),
{
    assert(b <= 0x4_0000_0000_0000 && a <= b);
    grows(m0, m1, a, b);
    let c0 = image_of(m0); let c1 = image_of(m1); let f = src_file(p); let n = part(f.len() as int, size, 0);
    assert forall|i: int| #![trigger c1[off + i]] 0 <= i < n implies c1[off + i] == f[0 + i] by {
        let x = off + i; let s = x / 2048;
        assert(a <= s < b && x % 2048 == i % 2048);
        assert(m1.contains_key(s as u64));
        assert((s - a) * 2048 + x % 2048 == i);
        assert(x < count(m1) * 2048);
    }
    assert forall|i: int| #![trigger c1[i]] 0 <= i < c0.len() && !(off <= i < up(off + size)) implies c1[i] == c0[i] by {
        kept(m0, m1, a, b, i);
    }
    assert forall|i: int| #![trigger c1[i]] off + n <= i < off + size && i < c0.len() implies c1[i] == c0[i] || c1[i] == 0 by {
        let s = i / 2048;
        assert(a <= s < b);
        assert(m1.contains_key(s as u64));
        assert((s - a) * 2048 + i % 2048 == i - off);
    }
}
impl<F> FilesystemCopier<SectorLinearBlockDevice> for SectorLinearBlockFilesystem<'_, F> where F: FilesystemCopier<[u8]> {
    type Error = core::convert::Infallible;
    /// only whole files are recorded
    open spec fn seeks() -> bool { false }
//@fn copy_file_in in impl<F> FilesystemCopier<SectorLinearBlockDevice> for SectorLinearBlockFilesystem<'_, F>
//@ret r
//@start
        let ghost m0 = dest.contents@; let ghost off = output_offset as int; let ghost a = output_offset as int / 2048;
        let ghost e = up(off + size) / 2048;
//@loop 0 for
            invariant
                m0 == old(dest).contents@, none_in(m0, a, e), sector == a, sector_span == e - a, e <= 0x4_0000_0000_0000, a >= 0,
                extended(m0, dest.contents@, a, a + i), file_in(dest.contents@, a, a + i, src.p()),
//@before Ok(size)
        proof {
            stored_file(m0, dest.contents@, a, e, off, src.p(), size as int);
            assert forall|o: int, n: int| old(dest).writable(o, n) && apart(off, size as int, o, n) implies #[trigger] dest.writable(o, n) by { still_open(m0, dest.contents@, a, e, off, size as int, o, n); }
        }
//@end
}

//@item struct CisoSectorInput
impl<'a, F> CisoSectorInput<'a, F> {
//@fn new in impl<'a, F> CisoSectorInput<'a, F>
//@ret r
//@spec
    ensures r.linear == bdev, r.fs == fs,
//@end
}
/// the sector `s` of an image
pub open spec fn sector_of(c: Seq<u8>, s: int) -> Seq<u8> { c.subrange(s * 2048, s * 2048 + 2048) }
pub proof fn sector_bytes(m: Map<u64, SectorLinearBlockContents>, s: int)
    requires fits(m), 0 <= s < image_of(m).len() / 2048,
    ensures
        sector_of(image_of(m), s).len() == 2048, s <= u64::MAX, up(2048) == 2048,
        forall|i: int| 0 <= i < 2048 ==> #[trigger] sector_of(image_of(m), s)[i] == sector_byte(m, s, i),
        m.contains_key(s as u64) && m[s as u64] is File ==> m[s as u64]->File_1 < 0x4_0000_0000_0000,
{
    let n = choose|n: int| spans(m, n);
    counted(m, n);
    assert forall|i: int| 0 <= i < 2048 implies #[trigger] sector_of(image_of(m), s)[i] == sector_byte(m, s, i) by {
        assert((s * 2048 + i) / 2048 == s && (s * 2048 + i) % 2048 == i);
    }
    if n > 0 { assert(m.contains_key((n - 1) as u64)); }
}
impl<F, FSE> CisoSectorInput<'_, F> where F: FilesystemCopier<[u8], Error = FSE> {
//@fn size in impl<F, FSE> ciso::write::SectorReader for CisoSectorInput<'_, F>
//@ret r
//@spec
    requires old(self).linear.wdev_ok(),
    ensures *final(self) == *old(self), r is Ok, r->Ok_0 == old(self).linear.wcontents().len(),
//@end
//@fn read_sector in impl<F, FSE> ciso::write::SectorReader for CisoSectorInput<'_, F>
//@ret r
//@sub ?alloc::vec![0; __1] ==> vec![0u8; __1]
//@sub ?&self.linear[sector as u64] ==> self.linear.index(sector as u64)
//@sub ?&mut buf ==> buf.as_mut_slice()
//@spec
    requires
        old(self).linear.wdev_ok(), sector_size == 2048, F::seeks(),
        forall|p: Path| #[trigger] old(self).fs.fs.file(p) == src_file(p),
        sector < old(self).linear.wcontents().len() / 2048,
    ensures
        final(self).linear == old(self).linear,
        r is Ok ==> r->Ok_0@ == sector_of(old(self).linear.wcontents(), sector as int),
//@start
        proof { sector_bytes(self.linear.contents@, sector as int); }
//@before Ok(buf)
        proof {
            let m = old(self).linear.contents@; let c = old(self).linear.wcontents();
            assert(buf@ =~= sector_of(c, sector as int)) by {
                assert forall|i: int| 0 <= i < 2048 implies buf@[i] == #[trigger] sector_of(c, sector as int)[i] by {
                    if m.contains_key(sector as u64) && m[sector as u64] is File {
                        let f = src_file(m[sector as u64]->File_0.p()); let k = m[sector as u64]->File_1;
                        assert(buf@[0 + i] == at_or(f, k * 2048 + i));
                    }
                }
            }
        }
//@end
}
