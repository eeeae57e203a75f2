//! Contracts that Verus assumes about compiled code it cannot see into (serialization, generated
//! bit accessors, character case), decided by Kani over the whole domain.
#![cfg(kani)]
use xdvdfs::layout::*;

fn le16(b: &[u8], i: usize) -> u16 { b[i] as u16 | (b[i + 1] as u16) << 8 }
fn le32(b: &[u8], i: usize) -> u32 { b[i] as u32 | (b[i + 1] as u32) << 8 | (b[i + 2] as u32) << 16 | (b[i + 3] as u32) << 24 }

/// every 14 bytes decode, each field from its place
#[kani::proof]
fn node_decode() {
    let b: [u8; 14] = kani::any();
    let n = DirectoryEntryDiskNode::deserialize(&b);
    assert!(n.is_ok());
    if let Ok(n) = n {
        let (l, r, s, z) = (n.left_entry_offset, n.right_entry_offset, n.dirent.data.sector, n.dirent.data.size);
        assert_eq!(l, le16(&b, 0));
        assert_eq!(r, le16(&b, 2));
        assert_eq!(s, le32(&b, 4));
        assert_eq!(z, le32(&b, 8));
        assert_eq!(n.dirent.attributes.0, b[12]);
        assert_eq!(n.dirent.filename_length, b[13]);
    }
}

/// every record encodes to 14 bytes, each field in its place
#[kani::proof]
#[kani::unwind(16)]
fn node_encode() {
    let n = DirectoryEntryDiskNode {
        left_entry_offset: kani::any(),
        right_entry_offset: kani::any(),
        dirent: DirectoryEntryDiskData {
            data: DiskRegion { sector: kani::any(), size: kani::any() },
            attributes: DirentAttributes(kani::any()),
            filename_length: kani::any(),
        },
    };
    let b = n.serialize();
    assert!(b.is_ok());
    if let Ok(b) = b {
        assert_eq!(b.len(), 14);
        let (l, r, s, z) = (n.left_entry_offset, n.right_entry_offset, n.dirent.data.sector, n.dirent.data.size);
        assert_eq!(l, le16(&b, 0));
        assert_eq!(r, le16(&b, 2));
        assert_eq!(s, le32(&b, 4));
        assert_eq!(z, le32(&b, 8));
        assert_eq!(n.dirent.attributes.0, b[12]);
        assert_eq!(n.dirent.filename_length, b[13]);
    }
}

/// the generated accessors are the documented bits
#[kani::proof]
fn attribute_bits() {
    let a: u8 = kani::any();
    let d = DirentAttributes(a);
    assert_eq!(d.read_only(), a & 0x01 != 0);
    assert_eq!(d.hidden(), a & 0x02 != 0);
    assert_eq!(d.system(), a & 0x04 != 0);
    assert_eq!(d.directory(), a & 0x10 != 0);
    assert_eq!(d.archive(), a & 0x20 != 0);
    assert_eq!(d.normal(), a & 0x80 != 0);
    let v: bool = kani::any();
    assert_eq!(d.with_directory(v).0, if v { a | 0x10 } else { a & !0x10 });
    assert_eq!(d.with_archive(v).0, if v { a | 0x20 } else { a & !0x20 });
}

/// the case rule of names
#[kani::proof]
fn case_folding() {
    let c: char = kani::any();
    let f = if 'a' <= c && c <= 'z' { (c as u8 - 32) as char } else { c };
    assert_eq!(c.to_ascii_uppercase(), f);
    let d: char = kani::any();
    assert_eq!(c.cmp(&d), (c as u32).cmp(&(d as u32)));
}

/// the descriptor of every volume has its fields in their places
#[kani::proof]
#[kani::unwind(2050)]
fn volume_decode() {
    let mut b = [0u8; 2048];
    let head: [u8; 0x24] = kani::any();
    let tail: [u8; 20] = kani::any();
    b[..0x24].copy_from_slice(&head);
    b[0x7ec..].copy_from_slice(&tail);
    let v = VolumeDescriptor::deserialize(&b);
    assert!(v.is_ok());
    if let Ok(v) = v {
        let (s, z, t) = (v.root_table.region.sector, v.root_table.region.size, v.filetime);
        assert_eq!(s, le32(&b, 0x14));
        assert_eq!(z, le32(&b, 0x18));
        assert_eq!(t, le32(&b, 0x1c) as u64 | (le32(&b, 0x20) as u64) << 32);
        let mut ok = true;
        let m = b"MICROSOFT*XBOX*MEDIA";
        for i in 0..20 { ok &= b[i] == m[i] && b[0x7ec + i] == m[i]; }
        assert_eq!(v.is_valid(), ok);
    }
}

/// what is written for a new volume
#[kani::proof]
#[kani::unwind(2050)]
fn volume_encode() {
    let (size, sector): (u32, u32) = (kani::any(), kani::any());
    let v = VolumeDescriptor::new(DirectoryEntryTable::new(size, sector));
    let b = v.serialize();
    assert!(b.is_ok());
    if let Ok(b) = b {
        assert_eq!(b.len(), 2048);
        assert_eq!(le32(&b, 0x14), sector);
        assert_eq!(le32(&b, 0x18), size);
        let m = b"MICROSOFT*XBOX*MEDIA";
        for i in 0..20 { assert!(b[i] == m[i] && b[0x7ec + i] == m[i]); }
        for i in 0x1c..0x7ec { assert_eq!(b[i], 0); }
    }
}
