//! Block devices and filesystems used to drive the library.
use crate::gen::{byte, Kind, Node};
use std::collections::BTreeMap;
use std::future::Future;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use xdvdfs::blockdev::{BlockDeviceRead, BlockDeviceWrite};
#[inline]
pub fn sl(b: &[u8]) -> usize {
    <[u8]>::len(b)
}
use xdvdfs::write::fs::{FileEntry, FileType, FilesystemCopier, FilesystemHierarchy, PathVec};

/// Runs a future that never really waits.
pub fn run<F: Future>(f: F) -> F::Output {
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DevErr(pub &'static str);
impl std::fmt::Display for DevErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for DevErr {}

/// In-memory output device that grows on demand, records its writes and can fail at one of them.
#[derive(Default, Clone)]
pub struct MemDev {
    pub data: Vec<u8>,
    pub writes: Vec<(u64, u64)>,
    pub fail_at: Option<usize>,
    pub ops: usize,
}
impl MemDev {
    pub fn put(&mut self, offset: u64, buf: &[u8]) -> Result<(), DevErr> {
        if self.fail_at == Some(self.ops) {
            self.ops += 1;
            return Err(DevErr("injected write failure"));
        }
        self.ops += 1;
        self.writes.push((offset, buf.len() as u64));
        let end = offset as usize + buf.len();
        if self.data.len() < end {
            self.data.resize(end, 0);
        }
        self.data[offset as usize..end].copy_from_slice(buf);
        Ok(())
    }
}
#[maybe_async::maybe_async]
impl BlockDeviceWrite for MemDev {
    type WriteError = DevErr;
    async fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), DevErr> {
        self.put(offset, buffer)
    }
    async fn len(&mut self) -> Result<u64, DevErr> {
        if self.fail_at == Some(self.ops) {
            self.ops += 1;
            return Err(DevErr("injected len failure"));
        }
        self.ops += 1;
        Ok(self.data.len() as u64)
    }
}

/// Output device that keeps table contents but only the extents of file data, for huge images.
#[derive(Default, Clone)]
pub struct LogDev {
    pub tables: BTreeMap<u64, Vec<u8>>,
    pub files: Vec<(u64, u64)>,
    pub len: u64,
}
#[maybe_async::maybe_async]
impl BlockDeviceWrite for LogDev {
    type WriteError = DevErr;
    async fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), DevErr> {
        self.tables.insert(offset, buffer.to_vec());
        self.len = self.len.max(offset + buffer.len() as u64);
        Ok(())
    }
    async fn len(&mut self) -> Result<u64, DevErr> {
        Ok(self.len)
    }
}

/// Read-only view of bytes placed at `base` of a larger (zero or patterned) device.
pub struct ImgDev<'a> {
    pub data: &'a [u8],
    pub base: u64,
    pub reads: u64,
    pub max_reads: u64,
    pub fail_at: Option<u64>,
    pub log: Option<Vec<(u64, u64)>>,
}
impl<'a> ImgDev<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        ImgDev { data, base: 0, reads: 0, max_reads: u64::MAX, fail_at: None, log: None }
    }
    pub fn at(data: &'a [u8], base: u64) -> Self {
        ImgDev { base, ..Self::new(data) }
    }
}
#[maybe_async::maybe_async]
impl BlockDeviceRead for ImgDev<'_> {
    type ReadError = DevErr;
    async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), DevErr> {
        let n = self.reads;
        self.reads += 1;
        if let Some(l) = &mut self.log {
            l.push((offset, sl(buffer) as u64));
        }
        if self.fail_at == Some(n) {
            return Err(DevErr("injected read failure"));
        }
        if n >= self.max_reads {
            return Err(DevErr("read budget exhausted"));
        }
        let end = offset.checked_add(sl(buffer) as u64).ok_or(DevErr("overflow"))?;
        if end > self.base + self.data.len() as u64 {
            return Err(DevErr("read past the end"));
        }
        if offset >= self.base {
            let o = (offset - self.base) as usize;
            buffer.copy_from_slice(&self.data[o..o + sl(buffer)]);
        } else {
            for (i, b) in buffer.iter_mut().enumerate() {
                let o = offset + i as u64;
                *b = if o < self.base { byte(77, o) } else { self.data[(o - self.base) as usize] };
            }
        }
        Ok(())
    }
}

/// Source filesystem over a generated tree.
pub struct MemFs {
    pub dirs: BTreeMap<Vec<String>, Vec<FileEntry>>,
    pub files: BTreeMap<Vec<String>, (u64, u64)>,
    pub fail_at: Option<usize>,
    pub ops: usize,
    pub copies: Vec<(Vec<String>, u64, u64, u64)>,
}
pub fn key(p: &PathVec) -> Vec<String> {
    p.iter().cloned().collect()
}
impl MemFs {
    pub fn new(root: &[Node]) -> Self {
        let mut s = MemFs { dirs: BTreeMap::new(), files: BTreeMap::new(), fail_at: None, ops: 0, copies: vec![] };
        s.add(vec![], root);
        s
    }
    fn add(&mut self, path: Vec<String>, l: &[Node]) {
        let mut v = vec![];
        for n in l {
            let mut p = path.clone();
            p.push(n.name.clone());
            match &n.kind {
                Kind::File { len, seed } => {
                    v.push(FileEntry { name: n.name.clone(), file_type: FileType::File, len: *len });
                    self.files.insert(p, (*len, *seed));
                }
                Kind::Dir(c) => {
                    v.push(FileEntry { name: n.name.clone(), file_type: FileType::Directory, len: 4096 });
                    self.add(p, c);
                }
            }
        }
        self.dirs.insert(path, v);
    }
    fn step(&mut self) -> Result<(), DevErr> {
        let n = self.ops;
        self.ops += 1;
        if self.fail_at == Some(n) {
            return Err(DevErr("injected source failure"));
        }
        Ok(())
    }
}
#[maybe_async::maybe_async]
impl FilesystemHierarchy for MemFs {
    type Error = DevErr;
    async fn read_dir(&mut self, path: &PathVec) -> Result<Vec<FileEntry>, DevErr> {
        self.step()?;
        self.dirs.get(&key(path)).cloned().ok_or(DevErr("no such directory"))
    }
}
#[maybe_async::maybe_async]
impl FilesystemCopier<MemDev> for MemFs {
    type Error = DevErr;
    async fn copy_file_in(&mut self, src: &PathVec, dest: &mut MemDev, input_offset: u64, output_offset: u64, size: u64) -> Result<u64, DevErr> {
        self.step()?;
        let k = key(src);
        let (len, seed) = *self.files.get(&k).ok_or(DevErr("no such file"))?;
        self.copies.push((k, input_offset, output_offset, size));
        let n = size.min(len.saturating_sub(input_offset));
        if n > 0 {
            let b: Vec<u8> = (0..n).map(|i| byte(seed, input_offset + i)).collect();
            dest.put(output_offset, &b)?;
        }
        Ok(n)
    }
}
#[maybe_async::maybe_async]
impl FilesystemCopier<LogDev> for MemFs {
    type Error = DevErr;
    async fn copy_file_in(&mut self, src: &PathVec, dest: &mut LogDev, input_offset: u64, output_offset: u64, size: u64) -> Result<u64, DevErr> {
        self.step()?;
        let k = key(src);
        let (len, _) = *self.files.get(&k).ok_or(DevErr("no such file"))?;
        self.copies.push((k, input_offset, output_offset, size));
        let n = size.min(len.saturating_sub(input_offset));
        if n > 0 {
            dest.files.push((output_offset, n));
            dest.len = dest.len.max(output_offset + n);
        }
        Ok(n)
    }
}
#[maybe_async::maybe_async]
impl FilesystemCopier<[u8]> for MemFs {
    type Error = DevErr;
    async fn copy_file_in(&mut self, src: &PathVec, dest: &mut [u8], input_offset: u64, output_offset: u64, size: u64) -> Result<u64, DevErr> {
        self.step()?;
        let k = key(src);
        let (len, seed) = *self.files.get(&k).ok_or(DevErr("no such file"))?;
        let n = size.min(len.saturating_sub(input_offset));
        for i in 0..n {
            dest[(output_offset + i) as usize] = byte(seed, input_offset + i);
        }
        Ok(n)
    }
}
