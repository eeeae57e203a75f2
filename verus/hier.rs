//@deps blockdev btree
// What an image is made from: paths, directory listings and file contents.
use crate::blockdev::*;
use crate::btree::*;
use alloc::{boxed::Box, string::String, vec::Vec};
//@file xdvdfs-core/src/write/fs/mod.rs
//@item enum FileType | #[derive(Copy, Clone)]
//@item struct PathVec
//@item struct FileEntry
//@item struct DirectoryTreeEntry

impl PathKey for PathVec {
    open spec fn p(&self) -> Path { self.components@.map_values(|s: String| s@) }
}
pub open spec fn root_path() -> Path { Seq::empty() }
// derived in the source
impl Clone for PathVec {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r.p() == self.p(),
    { unimplemented!() }
}
impl Default for PathVec {
    fn default() -> (r: Self)
        ensures r.p() == root_path(),
    {
        let r = PathVec { components: Vec::new() };
        proof { assert(r.p() =~= root_path()); }
        r
    }
}
impl PathVec {
//@fn is_root in impl PathVec
//@ret r
//@spec
    ensures r == (self.p().len() == 0),
//@end
//@fn from_base in impl PathVec
//@ret r
//@sub suffix.to_owned() ==> suffix.to_string()
//@spec
    ensures r.p() == prefix.p().push(suffix@),
//@before path #2
        proof { assert(path.p() =~= prefix.p().push(suffix@)); }
//@end
}

/// an entry of a directory to be packed
pub ghost struct Entry { pub name: Seq<char>, pub is_dir: bool, pub len: int }
impl FileEntry {
    pub open spec fn e(self) -> Entry { Entry { name: self.name@, is_dir: self.file_type is Directory, len: self.len as int } }
}
pub open spec fn entries_of(v: Seq<FileEntry>) -> Seq<Entry> { v.map_values(|x: FileEntry| x.e()) }

/// what an image is made from. It does not change while the image is made.
pub trait Source {
    spec fn listing(&self, p: Path) -> Seq<Entry>;
    spec fn file(&self, p: Path) -> Seq<u8>;
}
pub open spec fn same_source<S: Source + ?Sized>(a: &S, b: &S) -> bool {
    forall|p: Path| #![trigger b.listing(p)] #![trigger b.file(p)] b.listing(p) == a.listing(p) && b.file(p) == a.file(p)
}
pub trait FilesystemHierarchy: Source {
    type Error;

//@fn read_dir in trait FilesystemHierarchy
//@ret r
//@spec
        ensures
            same_source(old(self), final(self)),
            r is Ok ==> entries_of(r->Ok_0@) == old(self).listing(path.p()),
//@end
    fn path_to_string(&self, path: &PathVec) -> String;
}
/// how many of `size` bytes from `offset` lie in a file of `len` bytes
pub open spec fn part(len: int, size: int, offset: int) -> int {
    if offset >= len { 0 } else if size <= len - offset { size } else { len - offset }
}
/// `old` with a part of the file `f` copied to [at, at + size)
pub open spec fn copied(old: Seq<u8>, new: Seq<u8>, f: Seq<u8>, from: int, at: int, size: int) -> bool {
    let n = part(f.len() as int, size, from);
    &&& old.len() <= new.len() <= grown(old.len() as int, up(at + size))
    &&& n > 0 ==> at + n <= new.len()
    &&& forall|i: int| #![trigger new[at + i]] 0 <= i < n ==> new[at + i] == f[from + i]
    &&& forall|i: int| #![trigger new[i]] 0 <= i < old.len() && !(at <= i < up(at + size)) ==> new[i] == old[i]
    &&& forall|i: int| #![trigger new[i]] at + n <= i < at + size && i < old.len() ==> new[i] == old[i] || new[i] == 0
}
pub trait FilesystemCopier<BDW: BlockDeviceWrite + ?Sized>: Source {
    type Error;
    /// files are read from any offset, not only from their start
    spec fn seeks() -> bool;

//@fn copy_file_in in trait FilesystemCopier
//@ret r
//@spec
        requires
            old(dest).wdev_ok(), input_offset == 0 || Self::seeks(),
            input_offset + size <= u64::MAX, output_offset + size <= MAX_WRITE,
            old(dest).writable(output_offset as int, size as int),
        ensures
            same_source(old(self), final(self)),
            r is Ok ==> r->Ok_0 <= size,
            r is Ok ==> final(dest).wdev_ok(),
            r is Ok ==> copied(old(dest).wcontents(), final(dest).wcontents(), old(self).file(src.p()), input_offset as int, output_offset as int, size as int),
            r is Ok ==> forall|o: int, n: int| old(dest).writable(o, n) && apart(output_offset as int, size as int, o, n) ==> #[trigger] final(dest).writable(o, n),
//@end
}
