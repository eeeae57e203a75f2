//! Stand-in for the FUSE transport: the same interface as the `fuser` crate as far as the daemon
//! uses it, recording replies instead of sending them to the kernel.
use std::cell::RefCell;
use std::ffi::{OsStr, OsString};
use std::rc::Rc;
use std::time::{Duration, SystemTime};

#[derive(Default)]
pub struct Request<'a>(std::marker::PhantomData<&'a ()>);
impl Request<'_> {
    pub fn uid(&self) -> u32 {
        1
    }
    pub fn gid(&self) -> u32 {
        1
    }
    pub fn pid(&self) -> u32 {
        1
    }
    pub fn unique(&self) -> u64 {
        1
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FileType {
    NamedPipe,
    CharDevice,
    BlockDevice,
    Directory,
    RegularFile,
    Symlink,
    Socket,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct FileAttr {
    pub ino: u64,
    pub size: u64,
    pub blocks: u64,
    pub atime: SystemTime,
    pub mtime: SystemTime,
    pub ctime: SystemTime,
    pub crtime: SystemTime,
    pub kind: FileType,
    pub perm: u16,
    pub nlink: u32,
    pub uid: u32,
    pub gid: u32,
    pub rdev: u32,
    pub blksize: u32,
    pub flags: u32,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Reply {
    None,
    Err(i32),
    Attr(FileAttr),
    Data(Vec<u8>),
    Open,
    Ok,
}
pub type Slot = Rc<RefCell<Reply>>;
macro_rules! reply {
    ($n:ident) => {
        pub struct $n(pub Slot);
        impl $n {
            pub fn error(self, e: i32) {
                *self.0.borrow_mut() = Reply::Err(e);
            }
        }
    };
}
reply!(ReplyEntry);
reply!(ReplyAttr);
reply!(ReplyOpen);
reply!(ReplyData);
reply!(ReplyEmpty);
reply!(ReplyStatfs);
reply!(ReplyXattr);
impl ReplyEntry {
    pub fn entry(self, _ttl: &Duration, attr: &FileAttr, _generation: u64) {
        *self.0.borrow_mut() = Reply::Attr(*attr);
    }
}
impl ReplyAttr {
    pub fn attr(self, _ttl: &Duration, attr: &FileAttr) {
        *self.0.borrow_mut() = Reply::Attr(*attr);
    }
}
impl ReplyOpen {
    pub fn opened(self, _fh: u64, _flags: u32) {
        *self.0.borrow_mut() = Reply::Open;
    }
}
impl ReplyData {
    pub fn data(self, d: &[u8]) {
        *self.0.borrow_mut() = Reply::Data(d.to_vec());
    }
}
impl ReplyEmpty {
    pub fn ok(self) {
        *self.0.borrow_mut() = Reply::Ok;
    }
}
#[derive(Clone, Debug)]
pub struct DirRec {
    pub ino: u64,
    pub offset: i64,
    pub kind: FileType,
    pub name: OsString,
}
pub struct ReplyDirectory {
    pub slot: Slot,
    pub recs: Rc<RefCell<Vec<DirRec>>>,
    pub room: usize,
}
impl ReplyDirectory {
    #[must_use]
    pub fn add<T: AsRef<OsStr>>(&mut self, ino: u64, offset: i64, kind: FileType, name: T) -> bool {
        if self.room == 0 {
            return true;
        }
        self.room -= 1;
        self.recs.borrow_mut().push(DirRec { ino, offset, kind, name: name.as_ref().to_owned() });
        false
    }
    pub fn ok(self) {
        *self.slot.borrow_mut() = Reply::Ok;
    }
    pub fn error(self, e: i32) {
        *self.slot.borrow_mut() = Reply::Err(e);
    }
}
#[allow(unused_variables)]
pub trait Filesystem {
    fn destroy(&mut self) {}
    fn lookup(&mut self, req: &Request<'_>, parent: u64, name: &OsStr, reply: ReplyEntry) {
        reply.error(38);
    }
    fn forget(&mut self, req: &Request<'_>, ino: u64, nlookup: u64) {}
    fn getattr(&mut self, req: &Request<'_>, ino: u64, fh: Option<u64>, reply: ReplyAttr) {
        reply.error(38);
    }
    fn open(&mut self, req: &Request<'_>, ino: u64, flags: i32, reply: ReplyOpen) {
        reply.opened(0, 0);
    }
    #[allow(clippy::too_many_arguments)]
    fn read(&mut self, req: &Request<'_>, ino: u64, fh: u64, offset: i64, size: u32, flags: i32, lock_owner: Option<u64>, reply: ReplyData) {
        reply.error(38);
    }
    fn release(&mut self, req: &Request<'_>, ino: u64, fh: u64, flags: i32, lock_owner: Option<u64>, flush: bool, reply: ReplyEmpty) {
        reply.ok();
    }
    fn opendir(&mut self, req: &Request<'_>, ino: u64, flags: i32, reply: ReplyOpen) {
        reply.opened(0, 0);
    }
    fn readdir(&mut self, req: &Request<'_>, ino: u64, fh: u64, offset: i64, reply: ReplyDirectory) {
        reply.error(38);
    }
    fn releasedir(&mut self, req: &Request<'_>, ino: u64, fh: u64, flags: i32, reply: ReplyEmpty) {
        reply.ok();
    }
    fn access(&mut self, req: &Request<'_>, ino: u64, mask: i32, reply: ReplyEmpty) {
        reply.error(38);
    }
}
