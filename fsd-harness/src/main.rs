//! Executable contract of the filesystem daemon: the real `img_fs.rs` behind a recording transport.
//!   fsd-harness C15 --tier quick|thorough --seed N --out FILE [--secs N] [--replay fuse:CASE]
#![allow(dead_code)]
#[path = "../../harness/src/dev.rs"]
mod dev;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/oracle.rs"]
mod oracle;
#[path = "/repo/xdvdfs-fsd/src/img_fs.rs"]
mod img_fs;
use fuser::*;
use gen::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsStr;
use std::rc::Rc;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
struct S<'a> {
    fs: img_fs::FuseFilesystem,
    rq: Request<'a>,
}
impl S<'_> {
    fn slot() -> Slot {
        Rc::new(RefCell::new(Reply::None))
    }
    fn lookup(&mut self, p: u64, n: &str) -> Reply {
        let s = Self::slot();
        self.fs.lookup(&self.rq, p, OsStr::new(n), ReplyEntry(s.clone()));
        let r = s.borrow().clone();
        r
    }
    fn getattr(&mut self, i: u64) -> Reply {
        let s = Self::slot();
        self.fs.getattr(&self.rq, i, None, ReplyAttr(s.clone()));
        let r = s.borrow().clone();
        r
    }
    fn read(&mut self, i: u64, o: i64, n: u32) -> Reply {
        let s = Self::slot();
        self.fs.read(&self.rq, i, 0, o, n, 0, None, ReplyData(s.clone()));
        let r = s.borrow().clone();
        r
    }
    fn open(&mut self, i: u64, f: i32) -> Reply {
        let s = Self::slot();
        self.fs.open(&self.rq, i, f, ReplyOpen(s.clone()));
        let r = s.borrow().clone();
        r
    }
    fn readdir(&mut self, i: u64, o: i64, room: usize) -> (Reply, Vec<DirRec>) {
        let s = Self::slot();
        let v = Rc::new(RefCell::new(vec![]));
        self.fs.readdir(&self.rq, i, 0, o, ReplyDirectory { slot: s.clone(), recs: v.clone(), room });
        let r = s.borrow().clone();
        let w = v.borrow().clone();
        (r, w)
    }
}

const BASES: [u64; 4] = [0, 405798912, 265879552, 34078720];

fn case(seed: u64, i: u64, dir: &std::path::Path) -> Result<bool, String> {
    let mut t = tree(seed ^ 0x15, i, 80);
    let mut r = Rng::new(seed ^ 0x1515, i);
    // images of other tools: files that share their data, empty files without a sector of their own
    let foreign = i % 3 == 1;
    if foreign {
        let (len, sd) = (if r.chance(1, 2) { 0 } else { r.below(5000) }, r.next() >> 8);
        fn add(v: &mut Vec<Node>, len: u64, sd: u64) {
            if !v.iter().any(|n| fold(&n.name) == fold("same")) {
                v.push(Node { name: "same".into(), kind: Kind::File { len, seed: sd } });
            }
            for n in v {
                if let Kind::Dir(c) = &mut n.kind {
                    add(c, len, sd)
                }
            }
        }
        add(&mut t, len, sd);
    }
    let mut src = dev::MemFs::new(&t);
    let mut d = dev::MemDev::default();
    dev::run(xdvdfs::write::img::create_xdvdfs_image(&mut src, &mut d, |_| {})).map_err(|e| format!("{:?}", e))?;
    if foreign {
        let p = oracle::parse(&&d.data[..]);
        let flat = flatten(&t);
        let mut by_data: BTreeMap<(u64, u64), u32> = BTreeMap::new();
        let mut patch: Vec<(usize, u32)> = vec![];
        for (dp, pd) in &p.dirs {
            for e in &pd.ents {
                if let Some(gen::Entry::File(len, sd)) = flat.get(&format!("{}/{}", dp, e.name)) {
                    let sec = if *len == 0 { 0 } else { *by_data.entry((*len, *sd)).or_insert(e.sector) };
                    patch.push((pd.sector as usize * 2048 + e.off as usize + 4, sec));
                }
            }
        }
        for (o, sec) in patch {
            d.data[o..o + 4].copy_from_slice(&sec.to_le_bytes());
        }
    }
    let p = dir.join(format!("i{}.iso", i));
    let base = if i % 5 == 4 { BASES[(i / 5 % 4) as usize] } else { 0 };
    {
        use std::io::{Seek, Write};
        let mut f = std::fs::File::create(&p).unwrap();
        f.seek(std::io::SeekFrom::Start(base)).unwrap();
        f.write_all(&d.data).unwrap();
    }
    let md = std::fs::metadata(&p).unwrap();
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let fs = img_fs::FuseFilesystem::new(&p, md, rt).map_err(|e| format!("the daemon rejects a packed image: {}", e))?;
    let res = drive(S { fs, rq: Request::default() }, &t, &mut r);
    let _ = std::fs::remove_file(&p);
    res
}

fn drive(mut s: S, t: &[Node], r: &mut Rng) -> Result<bool, String> {
    let mut seen: BTreeMap<u64, String> = BTreeMap::new();
    let mut work: Vec<(String, u64, Vec<Node>)> = vec![(String::new(), 1, t.to_vec())];
    let mut files: Vec<(String, u64, u64, u64)> = vec![];
    let mut dirs: Vec<(String, u64)> = vec![];
    match s.getattr(1) {
        Reply::Attr(a) => ensure!(a.ino == 1 && a.kind == FileType::Directory, "the root is {:?}", a),
        x => return Err(format!("getattr of the root replies {:?}", x)),
    }
    seen.insert(1, String::new());
    while let Some((path, ino, list)) = work.pop() {
        let first = r.chance(1, 2);
        let mut by_lookup: BTreeMap<String, u64> = BTreeMap::new();
        let mut ent = |s: &mut S, n: &Node, q: &str| -> Result<u64, String> {
            match s.lookup(ino, q) {
                Reply::Attr(a) => {
                    match &n.kind {
                        Kind::File { len, .. } => ensure!(a.kind == FileType::RegularFile && a.size == *len, "lookup of {:?}/{:?}: {:?}", path, q, a),
                        Kind::Dir(_) => ensure!(a.kind == FileType::Directory, "lookup of {:?}/{:?}: {:?}", path, q, a),
                    }
                    match s.getattr(a.ino) {
                        Reply::Attr(b) => ensure!(a == b, "lookup and getattr disagree on {:?}/{:?}: {:?} {:?}", path, q, a, b),
                        x => return Err(format!("getattr of inode {} ({:?}/{:?}): {:?}", a.ino, path, q, x)),
                    }
                    Ok(a.ino)
                }
                x => Err(format!("lookup of {:?} in {:?} replies {:?}", q, path, x)),
            }
        };
        if first {
            for n in &list {
                by_lookup.insert(n.name.clone(), ent(&mut s, n, &n.name)?);
            }
        }
        // enumerate with a given reply size
        let room = *r.pick(&[3usize, 4, 5, 7, 16, 1000]);
        let mut got: Vec<DirRec> = vec![];
        let mut off = 0i64;
        loop {
            let (rep, recs) = s.readdir(ino, off, room);
            ensure!(rep == Reply::Ok, "readdir of {:?} at {} replies {:?}", path, off, rep);
            if recs.is_empty() {
                break;
            }
            off = recs.last().unwrap().offset;
            got.extend(recs);
            ensure!(got.len() <= list.len() + 2, "readdir of {:?} ({} entries, {} per reply) returns more entries than exist: {:?}", path, list.len(), room, got.last());
        }
        let names: Vec<String> = got.iter().map(|g| g.name.to_string_lossy().into_owned()).collect();
        ensure!(names.len() >= 2 && names[0] == "." && names[1] == "..", "readdir of {:?} starts with {:?}", path, &names[..names.len().min(2)]);
        ensure!(names.len() == list.len() + 2, "readdir of {:?} with {} entries per reply returns {} of {} entries", path, room, names.len() - 2, list.len());
        let set: BTreeSet<&String> = names[2..].iter().collect();
        ensure!(set.len() == list.len(), "readdir of {:?} with {} per reply repeats an entry", path, room);
        // any stored offset resumes right after its entry
        for _ in 0..4 {
            let k = r.below(got.len() as u64) as usize;
            let (rep, recs) = s.readdir(ino, got[k].offset, 3);
            ensure!(rep == Reply::Ok, "readdir of {:?} resumed at {}: {:?}", path, got[k].offset, rep);
            let w: Vec<_> = got[k + 1..].iter().take(3).map(|g| (g.ino, g.name.clone())).collect();
            let h: Vec<_> = recs.iter().map(|g| (g.ino, g.name.clone())).collect();
            ensure!(w == h, "readdir of {:?} resumed at {} returns {:?} instead of {:?}", path, got[k].offset, h, w);
        }
        for n in &list {
            let Some(g) = got[2..].iter().find(|g| g.name.to_string_lossy() == n.name.as_str()) else {
                return Err(format!("readdir of {:?} lacks {:?}", path, n.name));
            };
            let fd = matches!(n.kind, Kind::Dir(_));
            ensure!((g.kind == FileType::Directory) == fd, "readdir reports {:?}/{:?} as {:?}", path, n.name, g.kind);
            let other: String = n.name.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
            let i = ent(&mut s, n, &other)?;
            ensure!(i == g.ino, "readdir gives {:?}/{:?} inode {}, lookup inode {}", path, n.name, g.ino, i);
            if let Some(j) = by_lookup.get(&n.name) {
                ensure!(*j == i, "the inode of {:?}/{:?} changes from {} to {}", path, n.name, j, i);
            }
            let fp = format!("{}/{}", path, n.name);
            if let Some(o) = seen.insert(i, fp.clone()) {
                return Err(format!("{:?} and {:?} share inode {}", o, fp, i));
            }
            match &n.kind {
                Kind::Dir(c) => {
                    dirs.push((fp.clone(), i));
                    work.push((fp, i, c.clone()))
                }
                Kind::File { len, seed } => files.push((fp, i, *len, *seed)),
            }
        }
        let miss = format!("{}-none", list.first().map(|n| n.name.as_str()).unwrap_or("x"));
        if !list.iter().any(|n| fold(&n.name) == fold(&miss)) {
            ensure!(matches!(s.lookup(ino, &miss), Reply::Err(_)), "lookup of the missing {:?} in {:?} succeeds", miss, path);
        }
    }
    for (p, i, len, seed) in &files {
        let b = bytes(*seed, *len);
        for k in 0..6u64 {
            let (o, n) = match k {
                0 => (0, *len + 10),
                1 => (*len, 100),
                2 => (len.saturating_sub(1), 5000),
                3 => (*len + r.below(5000), r.below(5000)),
                _ => (r.below(*len + 1), r.below(*len + 100)),
            };
            let want = &b[(o.min(*len)) as usize..((o + n).min(*len)) as usize];
            match s.read(*i, o as i64, n as u32) {
                Reply::Data(d) => ensure!(d == want, "read of {:?} (len {}): {} bytes at {} returns {} bytes{}", p, len, n, o, d.len(), if d.len() == want.len() { " of wrong data" } else { "" }),
                Reply::Err(_) if o > *len => {}
                x => return Err(format!("read of {:?} (len {}): {} bytes at {} replies {:?}", p, len, n, o, x)),
            }
        }
        ensure!(matches!(s.read(*i, -1, 5), Reply::Err(_)), "a negative offset is accepted");
        ensure!(matches!(s.lookup(*i, "x"), Reply::Err(_)), "lookup below the file {:?} succeeds", p);
        let (rep, _) = s.readdir(*i, 0, 10);
        ensure!(matches!(rep, Reply::Err(_)), "readdir of the file {:?} replies {:?}", p, rep);
        for f in [libc::O_WRONLY, libc::O_RDWR, libc::O_RDWR | libc::O_TRUNC] {
            ensure!(matches!(s.open(*i, f), Reply::Err(_)), "{:?} can be opened for writing", p);
        }
        ensure!(matches!(s.open(*i, libc::O_RDONLY), Reply::Open), "{:?} cannot be opened for reading", p);
    }
    let top = seen.keys().max().unwrap() + 1;
    ensure!(matches!(s.getattr(top + r.below(100)), Reply::Err(_)), "an inode that was never handed out has attributes");
    ensure!(matches!(s.getattr(0), Reply::Err(_)), "inode 0 has attributes");
    ensure!(matches!(s.read(1, 0, 10), Reply::Err(_)), "the root directory can be read as a file");
    // inodes stay valid after everything else was looked at
    for (p, i, len, seed) in files.iter().rev().take(10) {
        match s.read(*i, 0, *len as u32) {
            Reply::Data(d) => ensure!(d == bytes(*seed, *len), "{:?} reads differently later on", p),
            x => return Err(format!("{:?}: {:?}", p, x)),
        }
    }
    Ok(!t.is_empty())
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn one(seed: u64, i: u64, d: &std::path::Path) -> Result<bool, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case(seed, i, d))).unwrap_or_else(|e| {
        Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))
    })
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let thorough = get("--tier").as_deref() == Some("thorough");
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(120);
    let scratch = std::path::PathBuf::from(get("--scratch").unwrap_or_else(|| format!("/tmp/xdvdfs-fsd-harness-{}", std::process::id())));
    std::fs::create_dir_all(&scratch).unwrap();
    if let Some(rp) = get("--replay") {
        let c: u64 = rp.split_once(':').unwrap().1.parse().unwrap();
        let r = one(seed, c, &scratch);
        let _ = std::fs::remove_dir_all(&scratch);
        match r {
            Ok(n) => println!("holds (nontrivial: {})", n),
            Err(e) => {
                println!("FAILS: {}", e);
                std::process::exit(1);
            }
        }
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let n = if thorough { 30000u64 } else { 3000 };
    let next = std::sync::atomic::AtomicU64::new(0);
    let t0 = std::time::Instant::now();
    let res = std::sync::Mutex::new((0u64, 0u64, Vec::<(u64, String)>::new()));
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= n || t0.elapsed().as_secs() > secs || res.lock().unwrap().2.len() > 2 {
                    break;
                }
                let r = one(seed, i, &scratch);
                let mut g = res.lock().unwrap();
                g.0 += 1;
                match r {
                    Ok(b) => g.1 += b as u64,
                    Err(e) => g.2.push((i, e)),
                }
            });
        }
    });
    let _ = std::fs::remove_dir_all(&scratch);
    let mut g = res.into_inner().unwrap();
    g.2.sort();
    let f: Vec<String> = g.2.iter().map(|(i, e)| format!("{{\"suite\":\"fuse\",\"case\":{},\"message\":{}}}", i, js(e))).collect();
    let o = format!("{{\"property\":\"C15\",\"seed\":{},\"seconds\":{:.1},\"jobs\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"suites\":[{{\"name\":\"fuse\",\"evaluations\":{},\"nontrivial\":{}}}],\"failures\":[{}]}}", seed, t0.elapsed().as_secs_f64(), n, g.0, g.1, g.0, g.1, f.join(","));
    match get("--out") {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => println!("{}", o),
    }
    std::process::exit(if f.is_empty() { 0 } else { 1 });
}
