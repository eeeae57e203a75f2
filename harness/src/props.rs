//! One executable contract per property, run on the real code for generated inputs.
use crate::dev::*;
use crate::gen::*;
use crate::oracle::{self, parse, Parsed};
use std::collections::BTreeMap;
use xdvdfs::blockdev::{BlockDeviceRead, BlockDeviceWrite, OffsetWrapper};
use xdvdfs::layout::{DirectoryEntryNode, DirectoryEntryTable, VolumeDescriptor};
use xdvdfs::util::Error;
use xdvdfs::write::fs::*;
use xdvdfs::write::img::create_xdvdfs_image;

pub type R = Result<bool, String>; // Ok(nontrivial)

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub fn pack(tree: &[Node]) -> Result<MemDev, String> {
    let mut fs = MemFs::new(tree);
    let mut dev = MemDev::default();
    run(create_xdvdfs_image(&mut fs, &mut dev, |_| {})).map_err(|e| format!("packing an acceptable tree failed: {:?}", e))?;
    Ok(dev)
}

/// The image, read by the oracle, holds exactly `tree`.
pub fn oracle_matches(img: &[u8], tree: &[Node], what: &str) -> Result<Parsed, String> {
    let p = parse(&img);
    if let Some(x) = p.problem(&["header", "struct"]) {
        return Err(format!("{}: image unreadable: {}", what, x));
    }
    let want = flatten(tree);
    for (path, e) in &want {
        let Some(g) = p.all.get(path) else {
            return Err(format!("{}: {:?} is missing from the image", what, path));
        };
        match e {
            Entry::Dir => ensure!(g.attr & 0x10 != 0, "{}: {:?} should be a directory", what, path),
            Entry::File(len, seed) => {
                ensure!(g.attr & 0x10 == 0, "{}: {:?} should be a file", what, path);
                ensure!(g.size as u64 == *len, "{}: {:?} has size {} instead of {}", what, path, g.size, len);
                let o = g.sector as u64 * 2048;
                if *len > 0 {
                    let Some(b) = oracle::Src::get(&img, o, *len) else {
                        return Err(format!("{}: data of {:?} lies outside of the image", what, path));
                    };
                    if let Some(i) = (0..*len).find(|&i| b[i as usize] != byte(*seed, i)) {
                        return Err(format!("{}: {:?} differs from the source at byte {}", what, path, i));
                    }
                }
            }
        }
    }
    for path in p.all.keys() {
        ensure!(want.contains_key(path), "{}: {:?} is in the image but not in the source", what, path);
    }
    Ok(p)
}

pub fn e2s<E: std::fmt::Debug>(e: Error<E>) -> String {
    format!("{:?}", e)
}

/// Listing through the library: path -> (dir?, node)
pub fn lib_tree<D: BlockDeviceRead>(dev: &mut D, v: &VolumeDescriptor) -> Result<BTreeMap<String, DirectoryEntryNode>, String>
where
    D::ReadError: std::fmt::Debug,
{
    let t = run(v.root_table.file_tree(dev)).map_err(|e| format!("listing failed: {:?}", e))?;
    let mut m = BTreeMap::new();
    for (dir, n) in t {
        let name = n.name_str::<()>().map_err(|_| "undecodable name".to_string())?;
        let p = format!("{}/{}", dir, name);
        ensure!(m.insert(p.clone(), n).is_none(), "the recursive listing reports {:?} twice", p);
    }
    Ok(m)
}

pub fn lib_matches<D: BlockDeviceRead>(dev: &mut D, tree: &[Node], what: &str) -> Result<BTreeMap<String, DirectoryEntryNode>, String>
where
    D::ReadError: std::fmt::Debug,
{
    let v = run(xdvdfs::read::read_volume(dev)).map_err(|e| format!("{}: read_volume: {:?}", what, e))?;
    let got = lib_tree(dev, &v)?;
    let want = flatten(tree);
    for (p, e) in &want {
        let Some(n) = got.get(p) else { return Err(format!("{}: listing lacks {:?}", what, p)) };
        match e {
            Entry::Dir => ensure!(n.node.dirent.is_directory(), "{}: {:?} is not listed as a directory", what, p),
            Entry::File(len, seed) => {
                ensure!(!n.node.dirent.is_directory(), "{}: {:?} is listed as a directory", what, p);
                let d = run(n.node.dirent.read_data_all(dev)).map_err(|e| format!("{}: reading {:?}: {:?}", what, p, e))?;
                ensure!(sl(&d) as u64 == *len, "{}: {:?} reads back {} bytes instead of {}", what, p, sl(&d), len);
                if let Some(i) = (0..*len).find(|&i| d[i as usize] != byte(*seed, i)) {
                    return Err(format!("{}: {:?} reads back differently at byte {}", what, p, i));
                }
            }
        }
    }
    for p in got.keys() {
        ensure!(want.contains_key(p), "{}: listing has extra {:?}", what, p);
    }
    Ok(got)
}

pub struct Env {
    pub seed: u64,
    pub scratch: std::path::PathBuf,
    pub cli: Option<std::path::PathBuf>,
    pub thorough: bool,
}

fn host_ok(tree: &[Node]) -> bool {
    flatten(tree).keys().all(|p| p.split('/').skip(1).all(|c| c.len() <= 255 && !c.contains('\0') && c != "." && c != "..") && p.len() < 1800)
}

pub fn write_host(root: &std::path::Path, tree: &[Node]) {
    std::fs::create_dir_all(root).unwrap();
    for n in tree {
        let p = root.join(&n.name);
        match &n.kind {
            Kind::Dir(c) => write_host(&p, c),
            Kind::File { len, seed } => std::fs::write(&p, bytes(*seed, *len)).unwrap(),
        }
    }
}

pub fn check_host(root: &std::path::Path, tree: &[Node]) -> Result<(), String> {
    let mut want: BTreeMap<String, Entry> = flatten(tree);
    let mut st = vec![(String::new(), root.to_path_buf())];
    while let Some((p, d)) = st.pop() {
        let l = match std::fs::read_dir(&d) {
            Ok(l) => l,
            Err(e) => {
                if p.is_empty() && want.is_empty() {
                    return Ok(()); // an empty image leaves nothing to create
                }
                return Err(format!("{:?}: {}", d, e));
            }
        };
        for e in l {
            let e = e.unwrap();
            let q = format!("{}/{}", p, e.file_name().to_string_lossy());
            match want.remove(&q) {
                None => return Err(format!("unexpected {:?} on the host", q)),
                Some(Entry::Dir) => {
                    ensure!(e.path().is_dir(), "{:?} is not a directory", q);
                    st.push((q, e.path()));
                }
                Some(Entry::File(len, seed)) => {
                    let b = std::fs::read(e.path()).map_err(|e| e.to_string())?;
                    ensure!(b == bytes(seed, len), "{:?} differs from the source after unpacking (len {} vs {})", q, b.len(), len);
                }
            }
        }
    }
    if let Some((p, _)) = want.iter().next() {
        return Err(format!("{:?} was not unpacked", p));
    }
    Ok(())
}

pub fn cli(env: &Env, dir: &std::path::Path, args: &[&str]) -> (i32, String, String) {
    cli0(env, dir, "xdvdfs", args)
}
/// Runs the built command-line program (as an unprivileged user) in a scratch directory.
pub fn cli0(env: &Env, dir: &std::path::Path, argv0: &str, args: &[&str]) -> (i32, String, String) {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let mut c = std::process::Command::new(env.cli.as_ref().unwrap());
    c.arg0(argv0).args(args).current_dir(dir).env_clear().env("PATH", "/usr/bin:/bin").env("RUST_BACKTRACE", "0");
    c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
    if unsafe { libc::geteuid() } == 0 {
        c.uid(65534).gid(65534);
    }
    let mut ch = c.spawn().expect("spawn cli");
    let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let t1 = std::thread::spawn(move || { let mut s = vec![]; std::io::Read::read_to_end(&mut so, &mut s).ok(); s });
    let t2 = std::thread::spawn(move || { let mut s = vec![]; std::io::Read::read_to_end(&mut se, &mut s).ok(); s });
    let t0 = std::time::Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break Some(s);
        }
        if t0.elapsed().as_secs() > 60 {
            ch.kill().ok();
            ch.wait().ok();
            break None;
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    };
    let o = String::from_utf8_lossy(&t1.join().unwrap()).into_owned();
    let e = String::from_utf8_lossy(&t2.join().unwrap()).into_owned();
    let code = match st {
        None => 124,
        Some(s) => s.code().unwrap_or(128 + s.signal().unwrap_or(0)),
    };
    (code, o, e)
}

/// A fresh scratch directory the unprivileged user may write to.
pub fn scratch(env: &Env, tag: &str, i: u64) -> std::path::PathBuf {
    let d = env.scratch.join(format!("{}-{}", tag, i));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    open_up(&d);
    d
}
pub fn open_up(d: &std::path::Path) {
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(d, std::fs::Permissions::from_mode(0o777)).unwrap();
}

fn std_image(dir: &std::path::Path, out: &std::path::Path) -> Result<Vec<u8>, String> {
    let f = std::fs::File::options().write(true).create(true).truncate(true).open(out).unwrap();
    let mut w = std::io::BufWriter::with_capacity(1 << 16, f);
    let mut fs = StdFilesystem::create(dir);
    run(create_xdvdfs_image(&mut fs, &mut w, |_| {})).map_err(|e| format!("packing a host directory failed: {:?}", e))?;
    std::io::Write::flush(&mut w).unwrap();
    drop(w);
    Ok(std::fs::read(out).unwrap())
}

// ---------------------------------------------------------------- C01
pub fn c01(env: &Env, i: u64) -> R {
    let t = tree(env.seed, i, if env.thorough { 900 } else { 250 });
    let d = pack(&t)?;
    oracle_matches(&d.data, &t, "pack")?;
    lib_matches(&mut ImgDev::new(&d.data), &t, "pack+read")?;
    // repack from the image, with the generic copier
    if i % 3 == 0 {
        let mut fs: XDVDFSFilesystem<ImgDev, MemDev> = run(XDVDFSFilesystem::new(ImgDev::new(&d.data))).ok_or("own image rejected")?;
        let mut d2 = MemDev::default();
        run(create_xdvdfs_image(&mut fs, &mut d2, |_| {})).map_err(|e| format!("repacking own image failed: {:?}", e))?;
        oracle_matches(&d2.data, &t, "repack")?;
    }
    if i % 4 == 1 && host_ok(&t) {
        let s = scratch(env, "c01", i);
        write_host(&s.join("src"), &t);
        let img = std_image(&s.join("src"), &s.join("o.iso"))?;
        oracle_matches(&img, &t, "pack from host directory")?;
        // repack with the std::io copier
        {
            let src = std::io::BufReader::new(std::fs::File::open(s.join("o.iso")).unwrap());
            let src = run(OffsetWrapper::new(src)).map_err(e2s)?;
            let mut w = std::io::BufWriter::new(std::fs::File::create(s.join("o2.iso")).unwrap());
            let mut fs = run(XDVDFSFilesystem::<_, _, StdIOCopier<_, _>>::new(src)).ok_or("own image rejected")?;
            run(create_xdvdfs_image(&mut fs, &mut w, |_| {})).map_err(|e| format!("repack with std copier failed: {:?}", e))?;
            std::io::Write::flush(&mut w).unwrap();
            drop(w);
            oracle_matches(&std::fs::read(s.join("o2.iso")).unwrap(), &t, "repack (std::io copier)")?;
        }
        // into a fixed memory buffer
        let mut b: Box<[u8]> = vec![0xa5u8; img.len()].into_boxed_slice();
        let mut fs = StdFilesystem::create(&s.join("src"));
        run(create_xdvdfs_image(&mut fs, &mut b, |_| {})).map_err(|e| format!("packing into memory failed: {:?}", e))?;
        oracle_matches(&b, &t, "pack host directory into memory")?;
        let _ = std::fs::remove_dir_all(&s);
    }
    Ok(!t.is_empty())
}
pub fn c01_cli(env: &Env, i: u64) -> R {
    let t = tree(env.seed ^ 0x51, i, 120);
    if !host_ok(&t) {
        return Ok(false);
    }
    let s = scratch(env, "c01cli", i);
    write_host(&s.join("src"), &t);
    let (rc, _, e) = cli(env, &s, &["pack", "src", "o.iso"]);
    ensure!(rc == 0, "`xdvdfs pack` of an acceptable directory exits {}: {}", rc, e);
    oracle_matches(&std::fs::read(s.join("o.iso")).unwrap(), &t, "xdvdfs pack")?;
    let (rc, _, e) = cli(env, &s, &["unpack", "o.iso", "out"]);
    ensure!(rc == 0, "`xdvdfs unpack` exits {}: {}", rc, e);
    check_host(&s.join("out"), &t).map_err(|e| format!("unpack: {}", e))?;
    let (rc, _, e) = cli(env, &s, &["pack", "o.iso", "o2.iso"]);
    ensure!(rc == 0, "`xdvdfs pack` of an image exits {}: {}", rc, e);
    oracle_matches(&std::fs::read(s.join("o2.iso")).unwrap(), &t, "xdvdfs pack (from image)")?;
    let (rc, _, e) = cli0(env, &s, "extract-xiso", &["-c", "src", "o3.iso"]);
    ensure!(rc == 0, "`extract-xiso -c` exits {}: {}", rc, e);
    oracle_matches(&std::fs::read(s.join("o3.iso")).unwrap(), &t, "extract-xiso -c")?;
    let (rc, _, e) = cli0(env, &s, "extract-xiso", &["-d", "out3", "-x", "o3.iso"]);
    ensure!(rc == 0, "`extract-xiso -x` exits {}: {}", rc, e);
    check_host(&s.join("out3"), &t).map_err(|e| format!("extract-xiso -x: {}", e))?;
    let _ = std::fs::remove_dir_all(&s);
    Ok(!t.is_empty())
}

// ---------------------------------------------------------------- C02
fn recase(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
pub fn c02(env: &Env, i: u64) -> R {
    let t = tree(env.seed ^ 0x2, i, if env.thorough { 800 } else { 200 });
    let d = pack(&t)?;
    let p = oracle_matches(&d.data, &t, "pack")?;
    if let Some(x) = p.problem(&["order"]) {
        return Err(format!("search order: {}", x));
    }
    let mut dev = ImgDev::new(&d.data);
    let v = run(xdvdfs::read::read_volume(&mut dev)).map_err(e2s)?;
    let mut r = Rng::new(env.seed ^ 0x22, i);
    let canon: BTreeMap<Vec<char>, &String> = p.all.keys().map(|k| (fold(k), k)).collect();
    for (path, e) in &p.all {
        if path.contains("//") {
            continue;
        }
        let q = match r.below(4) {
            0 => path.clone(),
            1 => recase(&mut r, path),
            2 => format!("{}/", recase(&mut r, path)),
            _ => recase(&mut r, path).trim_start_matches('/').to_string(),
        };
        let n = run(v.root_table.walk_path(&mut dev, &q)).map_err(|x| format!("looking up {:?} (stored as {:?}) fails: {:?}", q, path, x))?;
        let nm = n.name_str::<()>().map_err(|_| "name")?;
        let (ns, nz) = (n.node.dirent.data.sector, n.node.dirent.data.size);
        ensure!(nm == e.name && ns == e.sector && nz == e.size, "looking up {:?} returns {:?} at sector {} size {}, expected {:?} at {} size {}", q, nm, ns, nz, e.name, e.sector, e.size);
        // a neighbouring name that may not exist
        let mut cs: Vec<char> = e.name.chars().collect();
        let dirp = &path[..path.len() - e.name.len()];
        match r.below(6) {
            0 => cs.push('x'),
            1 => {
                cs.pop();
            }
            2 => {
                let k = r.below(cs.len().max(1) as u64) as usize;
                if k < cs.len() {
                    cs[k] = *r.pick(&['a', 'Z', '_', '[', '0', 'é', '~', '{', '@', '`']);
                }
            }
            3 => {
                let k = r.below(cs.len().max(1) as u64) as usize;
                if k < cs.len() {
                    cs[k] = char::from_u32((cs[k] as u32) ^ 0x20).unwrap_or('q');
                }
            }
            4 => cs.insert(0, *r.pick(&['!', 'a', 'z', '\u{ff}'])),
            _ => {
                let l: Vec<char> = cs.iter().flat_map(|c| c.to_lowercase()).collect();
                cs = if r.chance(1, 2) { l } else { cs.iter().flat_map(|c| c.to_uppercase()).collect() };
            }
        }
        let nn: String = cs.into_iter().collect();
        if nn.is_empty() || nn.contains('/') {
            continue;
        }
        let q = format!("{}{}", dirp, nn);
        let res = run(v.root_table.walk_path(&mut dev, &q));
        match (canon.get(&fold(&q)), res) {
            (Some(k), Ok(n)) => {
                let ns = n.node.dirent.data.sector;
                ensure!(n.name_str::<()>().map_err(|_| "name")? == p.all[*k].name && ns == p.all[*k].sector, "looking up {:?} returns the wrong entry", q)
            }
            (Some(k), Err(x)) => return Err(format!("looking up {:?} (stored as {:?}) fails: {:?}", q, k, x)),
            (None, Ok(n)) => return Err(format!("looking up {:?}, which does not exist, returns {:?}", q, n.name_str::<()>())),
            (None, Err(Error::IOError(x))) => return Err(format!("looking up {:?}, which does not exist, reports an I/O error {:?}", q, x)),
            (None, Err(Error::DoesNotExist | Error::DirectoryEmpty)) => {}
            (None, Err(x)) => return Err(format!("looking up {:?}, which does not exist, reports {:?}", q, x)),
        }
        if e.attr & 0x10 == 0 {
            ensure!(run(v.root_table.walk_path(&mut dev, &format!("{}/x", path))).is_err(), "looking up below the file {:?} succeeds", path);
        } else {
            let q = format!("{}/\u{1}nope", path);
            match run(v.root_table.walk_path(&mut dev, &q)) {
                Err(Error::DoesNotExist | Error::DirectoryEmpty) => {}
                x => return Err(format!("looking up {:?} gives {:?}", q, x.map(|_| ()))),
            }
        }
    }
    for q in ["", "/", "//", "///"] {
        ensure!(run(v.root_table.walk_path(&mut dev, q)).is_err(), "looking up {:?} returns an entry although the root has none", q);
    }
    Ok(p.all.len() > 1)
}

// ---------------------------------------------------------------- C03
pub fn c03(env: &Env, i: u64) -> R {
    let t = tree(env.seed ^ 0x3, i, 200);
    let d = pack(&t)?;
    let p = parse(&&d.data[..]);
    if let Some(x) = p.problem(&["header", "layout", "struct"]) {
        return Err(x);
    }
    let mut w: Vec<_> = d.writes.iter().filter(|w| w.1 > 0).cloned().collect();
    w.sort();
    for x in w.windows(2) {
        ensure!(x[0].0 + x[0].1 <= x[1].0, "two writes overlap: {:?} and {:?}", x[0], x[1]);
    }
    ensure!(w.iter().all(|x| x.0 % 2048 == 0 || x.0 + x.1 == d.data.len() as u64), "a write does not start on a sector");
    // file data and tables live exactly where the entries say
    for (path, e) in &p.all {
        if e.attr & 0x10 == 0 && e.size > 0 {
            ensure!(d.writes.contains(&(e.sector as u64 * 2048, e.size as u64)), "data of {:?} was not written at its recorded place", path);
        }
    }
    // the same tree with enormous files, extents only
    let mut r = Rng::new(env.seed ^ 0x33, i);
    fn grow(l: &mut [Node], r: &mut Rng, left: &mut u64) {
        for n in l {
            match &mut n.kind {
                Kind::Dir(c) => grow(c, r, left),
                Kind::File { len, .. } => {
                    if *left > 0 && r.chance(1, 2) {
                        *left -= 1;
                        *len = *r.pick(&[u32::MAX as u64, u32::MAX as u64 - 1, 0xffff_f800, 0xffff_f801, 0xffff_f7ff, 1 << 31, (1 << 31) + 1, 0x7fff_f800]) - r.below(2);
                    }
                }
            }
        }
    }
    let mut t2 = t.clone();
    let mut left = 40;
    grow(&mut t2, &mut r, &mut left);
    let mut fs = MemFs::new(&t2);
    let mut ld = LogDev::default();
    run(create_xdvdfs_image(&mut fs, &mut ld, |_| {})).map_err(|e| format!("packing large files failed: {:?}", e))?;
    let p = parse(&&ld);
    if let Some(x) = p.problem(&["header", "layout", "struct"]) {
        return Err(format!("large files: {}", x));
    }
    for (path, e) in flatten(&t2) {
        let Some(g) = p.all.get(&path) else { return Err(format!("large files: {:?} missing", path)) };
        if let Entry::File(len, _) = e {
            ensure!(g.size as u64 == len, "large files: {:?} has size {}, not {}", path, g.size, len);
            let k: Vec<String> = path.split('/').skip(1).map(|s| s.to_string()).collect();
            ensure!(fs.copies.contains(&(k, 0, g.sector as u64 * 2048, len)) || len == 0, "large files: {:?} was not copied to its recorded place", path);
        }
    }
    // the allocator by itself
    let mut a = xdvdfs::write::sector::SectorAllocator::default();
    let mut end = 33u64;
    for _ in 0..200 {
        let n = match r.below(6) {
            0 => 0,
            1 => 2048 * r.below(5),
            2 => r.below(10_000),
            3 => 2048 * r.below(1000) + 1,
            4 => u32::MAX as u64 - r.below(3),
            _ => r.below(1 << 30),
        };
        let Ok(s) = a.allocate_contiguous(n) else { break };
        let s = s as u64;
        ensure!(s >= end, "allocation of {} bytes at sector {} overlaps an earlier one ending at sector {}", n, s, end);
        end = s + n.div_ceil(2048).max(1);
        ensure!(end <= 1 << 32, "allocation of {} bytes at sector {} ends past the last sector number", n, s);
    }
    Ok(!t.is_empty())
}
pub fn c03_big(_env: &Env, i: u64) -> R {
    // sizes that do not fit the format
    for len in [u32::MAX as u64 + 1, 1 << 33, u64::MAX, (1 << 32) + 2048 + i] {
        let t = vec![Node { name: "f".into(), kind: Kind::File { len, seed: 1 } }];
        let mut fs = MemFs::new(&t);
        let mut ld = LogDev::default();
        ensure!(run(create_xdvdfs_image(&mut fs, &mut ld, |_| {})).is_err(), "a file of {} bytes is accepted", len);
    }
    // trees that need more sectors than a sector number counts
    let mut r = Rng::new(i, 0x303);
    let big = |k: u64| Node { name: format!("f{:05}", k), kind: Kind::File { len: u32::MAX as u64 - (k & 1), seed: k } };
    let n = 2049 + r.below(200);
    let t: Vec<Node> = if i % 2 == 0 {
        (0..n).map(big).collect()
    } else {
        let c = 1 + r.below(n - 1);
        vec![Node { name: "a".into(), kind: Kind::Dir((0..c).map(big).collect()) }, Node { name: "b".into(), kind: Kind::Dir((c..n).map(big).collect()) }]
    };
    let mut fs = MemFs::new(&t);
    let mut ld = LogDev::default();
    ensure!(run(create_xdvdfs_image(&mut fs, &mut ld, |_| {})).is_err(), "{} files of 4 GiB are accepted although their sectors cannot be numbered", n);
    Ok(true)
}

// ---------------------------------------------------------------- C04 / C17
pub fn c04(env: &Env, i: u64) -> R {
    let t = tree(env.seed ^ 0x4, i, if env.thorough { 1500 } else { 400 });
    let d = pack(&t)?;
    let p = oracle_matches(&d.data, &t, "pack")?;
    if let Some(x) = p.problem(&["format", "order", "struct"]) {
        return Err(x);
    }
    for (path, e) in flatten(&t) {
        let g = &p.all[&path];
        ensure!(g.attr == if e == Entry::Dir { 0x10 } else { 0x20 }, "{:?} has attributes {:#x}", path, g.attr);
    }
    Ok(p.all.len() > 1)
}
/// Directories around the largest table that 16-bit child offsets can address.
pub fn c04_limit(env: &Env, i: u64) -> R {
    let mut r = Rng::new(env.seed ^ 0x44, i);
    let nl = [2usize, 30, 100, 254, 255, 7][(i % 6) as usize];
    let per = (14 + nl + 3) & !3;
    let fit = (2048 / per) * (262144 / 2048);
    let n = (fit as i64 + [-1i64, 0, 1, 2, -2, (r.below(50)) as i64][(i / 6 % 6) as usize]) as usize;
    let mut names: Vec<String> = (0..n)
        .map(|k| {
            if nl == 2 {
                let a = (k / 188) as u32 + 0x21;
                let b = (k % 188) as u32;
                let f = |x: u32| -> char { let c = if x < 94 { 0x21 + x } else { 0xa1 + (x - 94) }; let c = char::from_u32(c).unwrap(); if c == '/' { '\u{20ac}' } else { c } };
                format!("{}{}", f(a - 0x21), f(b))
            } else {
                let mut s = format!("{:06}", k);
                while s.len() < nl {
                    s.push('n');
                }
                s.truncate(nl.max(6));
                s
            }
        })
        .collect();
    // remove case-insensitive duplicates of the two-character names
    let mut seen = std::collections::BTreeSet::new();
    names.retain(|n| seen.insert(fold(n)));
    if i % 2 == 1 {
        r.shuffle(&mut names);
    }
    let t: Vec<Node> = names.into_iter().map(|n| Node { name: n, kind: Kind::File { len: 0, seed: 0 } }).collect();
    let t = if i % 3 == 0 { vec![Node { name: "d".into(), kind: Kind::Dir(t) }] } else { t };
    let mut fs = MemFs::new(&t);
    let mut dev = LogDev::default();
    match run(create_xdvdfs_image(&mut fs, &mut dev, |_| {})) {
        Ok(()) => {
            let p = parse(&&dev);
            if let Some(x) = p.problem(&["format", "order", "struct", "header"]) {
                return Err(format!("directory near the addressing limit accepted but wrong: {}", x));
            }
            let w = flatten(&t);
            ensure!(w.len() == p.all.len(), "directory near the addressing limit: {} of {} entries reachable", p.all.len(), w.len());
            for k in w.keys() {
                ensure!(p.all.contains_key(k), "directory near the addressing limit: {:?} unreachable", k);
            }
        }
        Err(e) => {
            let s = format!("{:?}", e);
            ensure!(s.contains("TooManyDirectoryEntries"), "directory near the addressing limit fails with {}", s);
            // refused although every entry would be addressable?
            let cnt = fs.dirs.values().map(|v| v.len()).max().unwrap();
            ensure!(cnt > fit - 2048 / per, "a directory of {} entries of {} bytes is refused although it is addressable", cnt, per);
        }
    }
    Ok(true)
}
pub fn c17(env: &Env, i: u64) -> R {
    let t = tree(env.seed ^ 0x17, if i % 2 == 0 { i / 2 * 8 } else { i }, if env.thorough { 3000 } else { 700 });
    let d = pack(&t)?;
    let p = parse(&&d.data[..]);
    if let Some(x) = p.problem(&["balance", "order", "struct"]) {
        return Err(x);
    }
    Ok(p.all.len() > 2)
}
/// Every permutation of n <= 7 names.
pub fn c17_perm(_env: &Env, i: u64) -> R {
    let n = [1usize, 2, 3, 4, 5, 6, 7][(i % 7) as usize];
    let mut idx: Vec<usize> = (0..n).collect();
    let mut c = vec![0; n];
    let mut one = |o: &[usize]| -> Result<(), String> {
        let t: Vec<Node> = o.iter().map(|k| Node { name: format!("n{}", k), kind: Kind::File { len: 0, seed: 0 } }).collect();
        let mut fs = MemFs::new(&t);
        let mut dev = LogDev::default();
        run(create_xdvdfs_image(&mut fs, &mut dev, |_| {})).map_err(|e| format!("{:?}", e))?;
        let p = parse(&&dev);
        if let Some(x) = p.problem(&["balance", "order", "struct", "format"]) {
            return Err(format!("insertion order {:?}: {}", o, x));
        }
        ensure!(p.all.len() == n, "insertion order {:?}: {} entries reachable", o, p.all.len());
        Ok(())
    };
    one(&idx)?;
    let mut k = 0;
    while k < n {
        if c[k] < k {
            if k % 2 == 0 { idx.swap(0, k) } else { idx.swap(c[k], k) }
            one(&idx)?;
            c[k] += 1;
            k = 0;
        } else {
            c[k] = 0;
            k += 1;
        }
    }
    Ok(n > 2)
}

// ---------------------------------------------------------------- C05
pub fn c05(env: &Env, i: u64) -> R {
    use xdvdfs::layout::*;
    let mut r = Rng::new(env.seed ^ 0x5, i);
    let mut b = [0u8; 14];
    match i % 3 {
        0 => b.iter_mut().for_each(|x| *x = r.next() as u8),
        1 => b[(i / 3 % 14) as usize] = 1 << (i / 42 % 8),
        _ => b.iter_mut().for_each(|x| *x = *r.pick(&[0u8, 0xff, 0x80, 1, 0x7f])),
    }
    let n = DirectoryEntryDiskNode::deserialize(&b).map_err(|e| format!("decoding {:02x?}: {}", b, e))?;
    let want = (
        u16::from_le_bytes([b[0], b[1]]),
        u16::from_le_bytes([b[2], b[3]]),
        u32::from_le_bytes([b[4], b[5], b[6], b[7]]),
        u32::from_le_bytes([b[8], b[9], b[10], b[11]]),
        b[12],
        b[13],
    );
    let got = (n.left_entry_offset, n.right_entry_offset, n.dirent.data.sector, n.dirent.data.size, n.dirent.attributes.0, n.dirent.filename_length);
    ensure!(got == want, "decoding {:02x?} gives {:?}, expected {:?}", b, got, want);
    ensure!(n.dirent.is_directory() == (b[12] & 0x10 != 0), "directory attribute of {:#x} misread", b[12]);
    ensure!(n.dirent.dirent_table().is_some() == (b[12] & 0x10 != 0), "directory table of {:#x} misread", b[12]);
    let a = n.dirent.attributes;
    ensure!((a.read_only(), a.hidden(), a.system(), a.archive(), a.normal()) == (b[12] & 1 != 0, b[12] & 2 != 0, b[12] & 4 != 0, b[12] & 0x20 != 0, b[12] & 0x80 != 0), "attribute bits of {:#x} misread", b[12]);
    let s = n.serialize().map_err(|e| e.to_string())?;
    ensure!(s == b, "re-encoding gives {:02x?}, expected {:02x?}", s, b);
    // volume descriptor
    let (rs, rz) = (r.next() as u32, r.next() as u32);
    let v = VolumeDescriptor::new(DirectoryEntryTable::new(rz, rs)).serialize().map_err(|e| e.to_string())?;
    let mut w = vec![0u8; 2048];
    w[..20].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
    w[2028..].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
    w[20..24].copy_from_slice(&rs.to_le_bytes());
    w[24..28].copy_from_slice(&rz.to_le_bytes());
    ensure!(v == w, "volume descriptor for root ({}, {}) is encoded wrongly", rs, rz);
    let mut x = [0u8; 2048];
    x.copy_from_slice(&w);
    for _ in 0..8 {
        x[20 + r.below(2008) as usize] = r.next() as u8;
    }
    let d = VolumeDescriptor::deserialize(&x).map_err(|e| e.to_string())?;
    let (ds, dz, ft) = (d.root_table.region.sector, d.root_table.region.size, d.filetime);
    ensure!(ds == u32::from_le_bytes(x[20..24].try_into().unwrap()) && dz == u32::from_le_bytes(x[24..28].try_into().unwrap()), "root table location misread");
    ensure!(ft == u64::from_le_bytes(x[28..36].try_into().unwrap()), "creation time misread");
    ensure!(d.is_valid(), "a descriptor with both magics is not valid");
    ensure!(d.serialize().map_err(|e| e.to_string())? == x, "volume descriptor does not re-encode to itself");
    // a damaged magic is refused
    let mut img = vec![0u8; 34 * 2048];
    img[32 * 2048..33 * 2048].copy_from_slice(&x);
    ensure!(run(xdvdfs::read::read_volume(&mut ImgDev::new(&img))).is_ok(), "valid volume refused");
    let k = (i % 40) as usize;
    let pos = 32 * 2048 + if k < 20 { k } else { 2028 + k - 20 };
    img[pos] ^= 1 << r.below(8);
    ensure!(run(xdvdfs::read::read_volume(&mut ImgDev::new(&img))).is_err(), "a volume whose magic is damaged at byte {} is accepted", pos - 32 * 2048);
    ensure!(run(xdvdfs::read::read_volume(&mut ImgDev::new(&img[..33 * 2048 - 1]))).is_err(), "a truncated header is accepted");
    Ok(true)
}

// ---------------------------------------------------------------- C06
pub fn exercise(img: &[u8], budget: u64, r: &mut Rng) {
    let mut dev = ImgDev::new(img);
    dev.max_reads = budget;
    let Ok(v) = run(xdvdfs::read::read_volume(&mut dev)) else { return };
    let _ = run(v.root_table.file_tree(&mut dev));
    dev.reads = 0;
    let _ = run(v.root_dirent(&mut dev));
    let mut tabs: Vec<DirectoryEntryTable> = vec![v.root_table];
    let mut k = 0;
    while k < tabs.len() && k < 30 {
        let t = tabs[k];
        k += 1;
        dev.reads = 0;
        if let Ok(l) = run(t.walk_dirent_tree(&mut dev)) {
            for n in l.iter().take(40) {
                let _ = n.name_str::<()>();
                let _ = n.name_slice();
                if let Some(t) = n.node.dirent.dirent_table() {
                    tabs.push(t);
                }
                if n.node.dirent.data.size < 1 << 20 {
                    let _ = run(n.node.dirent.read_data_all(&mut dev));
                }
                let _ = run(n.node.dirent.read_data_offset(&mut dev, r.below(5000), r.next() >> r.below(64)));
                let mut b = vec![0; 17];
                let _ = run(n.node.dirent.read_data(&mut dev, &mut b));
                if let Ok(nm) = n.name_str::<()>() {
                    let _ = run(t.walk_path(&mut dev, &nm));
                    let _ = run(t.walk_path(&mut dev, &format!("{}/x", nm)));
                }
            }
        }
        dev.reads = 0;
        for q in ["zz", "a", "", "/", "//", "/a/b", "\u{e9}", "M"] {
            let _ = run(t.walk_path(&mut dev, q));
        }
        dev.reads = 0;
        let it = run(t.scan_dirent_tree(&mut dev));
        if let Ok(mut it) = it {
            for _ in 0..3000 {
                match run(it.next_entry()) {
                    Ok(Some(n)) => {
                        let _ = n.name_str::<()>();
                        if k < 6 {
                            if let Some(t) = n.node.dirent.dirent_table() {
                                if tabs.len() < 40 {
                                    tabs.push(t);
                                }
                            }
                        }
                    }
                    _ => break,
                }
            }
        }
    }
    dev.reads = 0;
    let _ = run(xdvdfs::checksum::checksum(&mut dev, &v));
    // as a repacking source
    let mut d2 = ImgDev::new(img);
    d2.max_reads = budget;
    if let Some(mut fs) = run(XDVDFSFilesystem::<ImgDev, MemDev>::new(d2)) {
        let mut q = vec![PathVec::default()];
        let mut n = 0;
        while let Some(p) = q.pop() {
            n += 1;
            if n > 40 {
                break;
            }
            if let Ok(l) = run(fs.read_dir(&p)) {
                for e in l.into_iter().take(100) {
                    let c = PathVec::from_base(&p, &e.name);
                    match e.file_type {
                        FileType::Directory => q.push(c),
                        FileType::File => {
                            if e.len < 1 << 20 {
                                let mut m = MemDev::default();
                                let _ = run(fs.copy_file_in(&c, &mut m, 0, 0, e.len));
                                let _ = run(fs.copy_file_in(&c, &mut m, r.below(5000), 0, 100));
                            }
                        }
                    }
                }
            }
        }
    }
    // the byte slice itself as a device
    let mut own = img.to_vec();
    let mut buf = vec![0u8; r.below(5000) as usize];
    for o in [0u64, img.len() as u64, img.len() as u64 - 1, img.len() as u64 - buf.len().min(img.len()) as u64, r.below(img.len() as u64 + 10), u64::MAX, u64::MAX - 3] {
        let _ = run(<[u8] as BlockDeviceRead>::read(&mut own[..], o, &mut buf));
    }
    let _ = run(xdvdfs::blockdev::OffsetWrapper::new(ImgDev::new(img)));
}
pub fn mutate(img: &mut Vec<u8>, p: &Parsed, r: &mut Rng) {
    let tabs: Vec<(usize, usize)> = p.dirs.values().map(|d| (d.sector as usize * 2048, (d.size as usize).div_ceil(2048) * 2048)).collect();
    let n = 1 + r.below(6);
    for _ in 0..n {
        match r.below(9) {
            0 => {
                let k = r.below(img.len() as u64) as usize;
                img[k] ^= 1 << r.below(8);
            }
            1 | 2 | 3 => {
                let (o, l) = *r.pick(&tabs);
                let k = (o + r.below(l as u64) as usize).min(img.len() - 1);
                img[k] = *r.pick(&[0, 1, 2, 0x10, 0x7f, 0x80, 0xfe, 0xff, 0x2f]);
            }
            4 | 5 => {
                // a field of an entry
                let d: Vec<_> = p.dirs.values().filter(|d| !d.ents.is_empty()).collect();
                if d.is_empty() {
                    continue;
                }
                let d = *r.pick(&d);
                let e = r.pick(&d.ents);
                let o = d.sector as usize * 2048 + e.off as usize;
                let f = r.below(14) as usize;
                if o + 14 <= img.len() {
                    img[o + f] = r.next() as u8;
                    if r.chance(1, 2) {
                        img[o + 13] = *r.pick(&[0, 255, 254, 200, 1]);
                    }
                    if r.chance(1, 4) {
                        img[o + 12] |= 0x10;
                    }
                }
            }
            6 => {
                // header fields
                let k = 32 * 2048 + 20 + r.below(8) as usize;
                img[k] = r.next() as u8;
            }
            7 => {
                let l = r.below(img.len() as u64) as usize;
                if l > 33 * 2048 {
                    img.truncate(l);
                }
            }
            _ => {
                let (o, l) = *r.pick(&tabs);
                let s = (o + r.below(l as u64) as usize).min(img.len());
                let e = (s + r.below(300) as usize).min(img.len());
                let v = r.next() as u8;
                let rnd = r.chance(1, 2);
                for b in &mut img[s..e] {
                    *b = if rnd { r.next() as u8 } else { v };
                }
            }
        }
    }
}
pub fn c06(env: &Env, i: u64) -> R {
    let mut r = Rng::new(env.seed ^ 0x6, i);
    let t = tree(env.seed ^ 0x6, i / 6 + 1, 90);
    let d = pack(&t)?;
    let p = parse(&&d.data[..]);
    let mut img = d.data;
    if i % 17 == 0 {
        img = (0..r.below(40 * 2048) + 1).map(|_| r.next() as u8).collect();
        if img.len() > 33 * 2048 {
            img[32 * 2048..32 * 2048 + 20].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
            img[33 * 2048 - 20..33 * 2048].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
            img[32 * 2048 + 20..32 * 2048 + 24].copy_from_slice(&(r.below(40) as u32).to_le_bytes());
            img[32 * 2048 + 24..32 * 2048 + 28].copy_from_slice(&(r.below(9000) as u32).to_le_bytes());
        }
    } else {
        mutate(&mut img, &p, &mut r);
    }
    exercise(&img, 4000, &mut r);
    Ok(true)
}
pub fn c06_cli(env: &Env, i: u64) -> R {
    let mut r = Rng::new(env.seed ^ 0x66, i);
    let t = tree(env.seed ^ 0x66, i + 1, 60);
    let d = pack(&t)?;
    let p = parse(&&d.data[..]);
    let mut img = d.data;
    mutate(&mut img, &p, &mut r);
    // do not even start the program on images that send any reader round in circles
    let mut dev = ImgDev::new(&img);
    dev.max_reads = 3000;
    if let Ok(v) = run(xdvdfs::read::read_volume(&mut dev)) {
        if run(v.root_table.file_tree(&mut dev)).is_err() && dev.reads >= 3000 {
            return Ok(false);
        }
    }
    let s = scratch(env, "c06", i);
    std::fs::write(s.join("m.iso"), &img).unwrap();
    let dep = p.all.keys().next().cloned().unwrap_or("/x".into());
    for a in [vec!["tree", "m.iso"], vec!["ls", "m.iso", "/"], vec!["ls", "-s", "m.iso", "/"], vec!["info", "m.iso"], vec!["info", "m.iso", "/"], vec!["info", "m.iso", &dep], vec!["copy-out", "m.iso", "//", "o"]] {
        let (rc, _, e) = cli(env, &s, &a);
        ensure!(rc != 101 && rc != 134 && rc != 139 && !e.contains("panicked at"), "`xdvdfs {}` crashes on a damaged image (exit {}): {}", a.join(" "), rc, e);
    }
    let _ = std::fs::remove_dir_all(&s);
    Ok(true)
}

// ---------------------------------------------------------------- C07
pub fn c07(env: &Env, i: u64) -> R {
    let t = tree(env.seed ^ 0x7, i, if env.thorough { 900 } else { 250 });
    let d = pack(&t)?;
    let p = oracle_matches(&d.data, &t, "pack")?;
    let mut dev = ImgDev::new(&d.data);
    let v = run(xdvdfs::read::read_volume(&mut dev)).map_err(e2s)?;
    let whole = run(v.root_table.file_tree(&mut dev)).map_err(e2s)?;
    let mut by_dir: BTreeMap<String, Vec<DirectoryEntryNode>> = BTreeMap::new();
    for (dir, n) in whole {
        by_dir.entry(dir).or_default().push(n);
    }
    for (path, pd) in &p.dirs {
        let tab = DirectoryEntryTable::new(pd.size, pd.sector);
        let walk = run(tab.walk_dirent_tree(&mut dev)).map_err(|e| format!("walking {:?}: {:?}", path, e))?;
        let mut scan = vec![];
        {
            let mut it = run(tab.scan_dirent_tree(&mut dev)).map_err(|e| format!("scanning {:?}: {:?}", path, e))?;
            while let Some(n) = run(it.next_entry()).map_err(|e| format!("scanning {:?}: {:?}", path, e))? {
                scan.push(n);
                ensure!(scan.len() <= pd.ents.len(), "scanning {:?} reports more entries than exist", path);
            }
        }
        let key = |n: &DirectoryEntryNode| (n.offset, n.name, n.node.serialize().unwrap());
        let mut a: Vec<_> = walk.iter().map(key).collect();
        let mut b: Vec<_> = scan.iter().map(key).collect();
        let mut c: Vec<_> = by_dir.remove(path).unwrap_or_default().iter().map(key).collect();
        let mut o: Vec<_> = pd.ents.iter().map(|e| (pd.sector as u64 * 2048 + e.off as u64, { let mut n = [0u8; 256]; n[..e.raw.len()].copy_from_slice(&e.raw); n })).collect();
        a.sort();
        b.sort();
        c.sort();
        o.sort();
        ensure!(a.iter().map(|x| (x.0, x.1)).eq(o.iter().cloned()), "walking {:?} does not list exactly the stored entries ({} vs {})", path, a.len(), o.len());
        ensure!(a == b, "scan and walk of {:?} disagree ({} vs {} entries)", path, b.len(), a.len());
        ensure!(a == c, "recursive listing and walk of {:?} disagree ({} vs {} entries)", path, c.len(), a.len());
    }
    ensure!(by_dir.is_empty(), "recursive listing has entries in unknown directories {:?}", by_dir.keys().next());
    // each entry found by path is the same record
    for (path, e) in &p.all {
        let n = run(v.root_table.walk_path(&mut dev, path)).map_err(|x| format!("{:?}: {:?}", path, x))?;
        let dirp = &path[..path.len() - e.name.len() - 1];
        ensure!(n.offset == p.dirs[dirp].sector as u64 * 2048 + e.off as u64, "lookup of {:?} reports another record than the listings", path);
    }
    Ok(p.all.len() > 1)
}
pub fn c07_cli(env: &Env, i: u64) -> R {
    let t = tree(env.seed ^ 0x77, i, 60);
    let d = pack(&t)?;
    let p = oracle_matches(&d.data, &t, "pack")?;
    let s = scratch(env, "c07", i);
    std::fs::write(s.join("i.iso"), &d.data).unwrap();
    let (rc, o, e) = cli(env, &s, &["tree", "i.iso"]);
    ensure!(rc == 0, "`tree` exits {}: {}", rc, e);
    let mut want: Vec<String> = p.all.iter().map(|(k, e)| if e.attr & 0x10 != 0 { format!("{}/ (0 bytes)", k) } else { format!("{} ({} bytes)", k, e.size) }).collect();
    let files = p.all.values().filter(|e| e.attr & 0x10 == 0).count();
    let total: u64 = p.all.values().filter(|e| e.attr & 0x10 == 0).map(|e| e.size as u64).sum();
    want.push(format!("{} files, {} bytes in i.iso", files, total));
    want.sort();
    let mut got: Vec<String> = o.lines().map(|s| s.to_string()).collect();
    got.sort();
    ensure!(got == want, "`tree` prints {:?}, expected {:?}", got, want);
    for (path, pd) in p.dirs.iter().take(6) {
        let q = if path.is_empty() { "/" } else { path };
        let mut want: Vec<String> = pd.ents.iter().map(|e| e.name.clone()).collect();
        want.sort();
        for a in [vec!["ls", "i.iso", q], vec!["ls", "-s", "i.iso", q]] {
            if q.starts_with('-') {
                continue;
            }
            let (rc, o, e) = cli(env, &s, &a);
            ensure!(rc == 0, "`{:?}` exits {}: {}", a, rc, e);
            let mut got: Vec<String> = o.split_terminator('\n').map(|s| s.to_string()).collect();
            got.sort();
            ensure!(got == want, "`{:?}` prints {:?}, expected {:?}", a, got, want);
        }
    }
    let _ = std::fs::remove_dir_all(&s);
    Ok(p.all.len() > 1)
}

// ---------------------------------------------------------------- C08
pub fn c08(env: &Env, i: u64) -> R {
    let t = tree(env.seed ^ 0x8, i, 60);
    let d = pack(&t)?;
    // drop the padding after the last file on some images: nothing there belongs to a file
    let p = oracle_matches(&d.data, &t, "pack")?;
    let end = p.all.values().map(|e| if e.attr & 0x10 != 0 || e.size > 0 { e.sector as u64 * 2048 + e.size as u64 } else { 0 }).max().unwrap_or(0).max(34 * 2048);
    let img = if i % 2 == 0 { &d.data[..(end as usize).min(d.data.len())] } else { &d.data[..] };
    let mut dev = ImgDev::new(img);
    let l = lib_matches(&mut dev, &t, "read")?;
    let mut r = Rng::new(env.seed ^ 0x88, i);
    let mut files = 0;
    for (path, e) in flatten(&t) {
        let Entry::File(len, seed) = e else { continue };
        files += 1;
        let n = &l[&path];
        let mut b = vec![0u8; len as usize];
        run(n.node.dirent.read_data(&mut dev, &mut b)).map_err(|e| format!("{:?}: {:?}", path, e))?;
        ensure!(b == bytes(seed, len), "{:?}: read into a buffer of the file's size differs", path);
        if len > 1 {
            let k = r.range(1, len) as usize;
            let mut b = vec![0u8; k];
            run(n.node.dirent.read_data(&mut dev, &mut b)).map_err(|e| format!("{:?}: {:?}", path, e))?;
            ensure!(b == bytes(seed, len)[..k], "{:?}: read of the first {} bytes differs", path, k);
        }
        for j in 0..14 {
            let off = match j {
                0 => 0,
                1 => len,
                2 => len.saturating_sub(1),
                3 => len + 1,
                4 => 2048,
                5 => len / 2,
                6 => u64::MAX - r.below(3),
                7 => 1 << 32,
                _ => r.below(len + 3),
            };
            let size = match r.below(7) {
                0 => 0,
                1 => len,
                2 => len + 5,
                3 => u64::MAX,
                4 => 4096,
                5 => len.saturating_sub(off.min(len)),
                _ => r.below(len + 10),
            };
            let want: Vec<u8> = if off >= len { vec![] } else { (off..len.min(off.saturating_add(size))).map(|k| byte(seed, k)).collect() };
            match run(n.node.dirent.read_data_offset(&mut dev, size, off)) {
                Ok(g) => ensure!(&g[..] == &want[..], "{:?} (len {}): reading {} bytes at {} returns {} bytes{}", path, len, size, off, sl(&g), if sl(&g) == want.len() { " of wrong data" } else { "" }),
                Err(x) => ensure!(off >= len, "{:?} (len {}): reading {} bytes at {} fails: {:?}", path, len, size, off, x),
            }
        }
    }
    Ok(files > 0)
}
pub fn c08_cli(env: &Env, i: u64) -> R {
    let t = tree(env.seed ^ 0x88, i, 40);
    let d = pack(&t)?;
    let s = scratch(env, "c08", i);
    std::fs::write(s.join("i.iso"), &d.data).unwrap();
    let mut n = 0;
    use md5::{Digest, Md5};
    for (k, (path, e)) in flatten(&t).into_iter().enumerate().take(8) {
        let Entry::File(len, seed) = e else { continue };
        let out = format!("out{}", k);
        let (rc, _, er) = cli(env, &s, &["copy-out", "i.iso", &path, &out]);
        ensure!(rc == 0, "`copy-out {:?}` exits {}: {}", path, rc, er);
        let b = std::fs::read(s.join(&out)).map_err(|e| e.to_string())?;
        ensure!(b == bytes(seed, len), "`copy-out {:?}` gives different contents ({} bytes, expected {})", path, b.len(), len);
        let (rc, o, er) = cli(env, &s, &["md5", "i.iso", &path]);
        ensure!(rc == 0, "`md5 {:?}` exits {}: {}", path, rc, er);
        let h: String = Md5::digest(bytes(seed, len)).iter().map(|b| format!("{:02x}", b)).collect();
        ensure!(o.starts_with(&h), "`md5 {:?}` prints {:?}, expected {}", path, o, h);
        n += 1;
    }
    for (path, e) in flatten(&t).into_iter().take(40) {
        if e == Entry::Dir {
            let (rc, _, er) = cli(env, &s, &["copy-out", "i.iso", &path, "dout"]);
            ensure!(rc == 0, "`copy-out {:?}` exits {}: {}", path, rc, er);
            let mut l = &t[..];
            for c in path.split('/').skip(1) {
                let x = l.iter().find(|n| n.name == c).unwrap();
                if let Kind::Dir(d) = &x.kind {
                    l = d;
                }
            }
            check_host(&s.join("dout"), l).map_err(|e| format!("copy-out of {:?}: {}", path, e))?;
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&s);
    Ok(n > 0)
}

// ---------------------------------------------------------------- C09
pub fn c09(env: &Env, i: u64) -> R {
    let mut r = Rng::new(env.seed ^ 0x9, i);
    let t = tree(env.seed ^ 0x9, i, 25);
    // fault-free run counts the operations
    let mut fs = MemFs::new(&t);
    let mut dev = MemDev::default();
    run(create_xdvdfs_image(&mut fs, &mut dev, |_| {})).map_err(|e| format!("{:?}", e))?;
    for k in 0..fs.ops.min(60) {
        let mut f2 = MemFs::new(&t);
        f2.fail_at = Some(k);
        let mut d2 = MemDev::default();
        ensure!(run(create_xdvdfs_image(&mut f2, &mut d2, |_| {})).is_err(), "packing reports success although source operation {} failed", k);
    }
    for k in 0..dev.ops.min(60) {
        let mut f2 = MemFs::new(&t);
        let mut d2 = MemDev { fail_at: Some(k), ..Default::default() };
        ensure!(run(create_xdvdfs_image(&mut f2, &mut d2, |_| {})).is_err(), "packing reports success although image operation {} failed", k);
    }
    // repacking an image: failing reads, truncated source
    for k in 0..40 {
        let mut src = ImgDev::new(&dev.data);
        src.fail_at = Some(1 + k); // 0 is the volume header
        let Some(mut f2) = run(XDVDFSFilesystem::<ImgDev, MemDev>::new(src)) else { continue };
        let mut d2 = MemDev::default();
        if run(create_xdvdfs_image(&mut f2, &mut d2, |_| {})).is_ok() {
            oracle_matches(&d2.data, &t, "repack that reported success although a read failed").map_err(|e| format!("(read {} failed) {}", 1 + k, e))?;
        }
    }
    let cut = r.below(dev.data.len() as u64) as usize;
    {
        let img = &dev.data[..cut];
        if let Some(mut f2) = run(XDVDFSFilesystem::<ImgDev, MemDev>::new(ImgDev::new(img))) {
            let mut d2 = MemDev::default();
            if run(create_xdvdfs_image(&mut f2, &mut d2, |_| {})).is_ok() {
                oracle_matches(&d2.data, &t, "repack of a truncated image that reported success")?;
            }
        }
        let s = scratch(env, "c09", i);
        std::fs::write(s.join("cut.iso"), img).unwrap();
        let src = std::io::BufReader::new(std::fs::File::open(s.join("cut.iso")).unwrap());
        if let Ok(src) = run(OffsetWrapper::new(src)) {
            let f = std::fs::File::create(s.join("o.iso")).unwrap();
            let mut w = std::io::BufWriter::new(f);
            if let Some(mut fs) = run(XDVDFSFilesystem::<_, _, StdIOCopier<_, _>>::new(src)) {
                if run(create_xdvdfs_image(&mut fs, &mut w, |_| {})).is_ok() {
                    std::io::Write::flush(&mut w).unwrap();
                    oracle_matches(&std::fs::read(s.join("o.iso")).unwrap(), &t, "repack (std::io copier) of a truncated image that reported success")?;
                }
            }
        }
        // plain (unwrapped) std::io copier
        {
            let mut a = std::fs::File::open(s.join("cut.iso")).unwrap();
            let mut b = std::fs::File::create(s.join("p.bin")).unwrap();
            let off = r.below(cut as u64 + 10);
            let n = r.below(cut as u64 + 5000);
            let oo = r.below(5000);
            let ok = run(<StdIOCopier<std::fs::File, std::fs::File> as RWCopier<_, _>>::copy(off, oo, n, &mut a, &mut b));
            let got = std::fs::read(s.join("p.bin")).unwrap();
            if let Ok(c) = ok {
                ensure!(c == n && off + n <= cut as u64, "copying {} bytes at {} of a {}-byte file reports {} bytes copied", n, off, cut, c);
                ensure!(n == 0 || got[oo as usize..] == img[off as usize..(off + n) as usize], "std::io copy differs");
            } else {
                ensure!(off + n > cut as u64, "copying {} bytes at {} of a {}-byte file fails", n, off, cut);
            }
        }
        // a host file shorter than announced
        {
            std::fs::create_dir(s.join("h")).unwrap();
            let fl = r.below(6000);
            std::fs::write(s.join("h/f"), bytes(5, fl)).unwrap();
            let mut fs = StdFilesystem::create(&s.join("h"));
            let ask = r.below(7000);
            let at = r.below(3000);
            let oo = r.below(4000);
            let mut w = std::fs::File::create(s.join("q.bin")).unwrap();
            let res = run(<StdFilesystem as FilesystemCopier<std::fs::File>>::copy_file_in(&mut fs, &PathVec::from_iter(["f"]), &mut w, at, oo, ask));
            let got = std::fs::read(s.join("q.bin")).unwrap();
            match res {
                Ok(n) => {
                    ensure!(n == ask && (ask == 0 || at + ask <= fl), "copying {} bytes at {} of a {}-byte host file reports success with {}", ask, at, fl, n);
                    ensure!(ask == 0 || got[oo as usize..] == bytes(5, fl)[at as usize..(at + ask) as usize], "copying out of a host file differs");
                }
                Err(_) => ensure!(at + ask > fl, "copying {} bytes at {} of a {}-byte host file fails", ask, at, fl),
            }
            // into memory: exact prefix, zero filled; refused when it does not fit
            for boxed in [true, false] {
                let dl = r.range(1, 9000) as usize;
                let oo = if r.chance(1, 8) { dl as u64 + r.below(5000) } else { r.below(dl as u64) };
                let ask = if r.chance(1, 2) { ask.min((dl as u64).saturating_sub(oo)) } else { ask };
                let mut m = vec![0xa5u8; dl].into_boxed_slice();
                let res = if boxed {
                    run(<StdFilesystem as FilesystemCopier<Box<[u8]>>>::copy_file_in(&mut fs, &PathVec::from_iter(["f"]), &mut m, at, oo, ask))
                } else {
                    run(<StdFilesystem as FilesystemCopier<[u8]>>::copy_file_in(&mut fs, &PathVec::from_iter(["f"]), &mut m[..], at, oo, ask))
                };
                let have = ask.min(fl.saturating_sub(at));
                match res {
                    Err(e) => ensure!(have < ask || oo + ask > dl as u64, "copying {} bytes at {} of a {}-byte host file to {} of {} bytes of memory fails: {}", ask, at, fl, oo, dl, e),
                    Ok(n) => {
                        ensure!(ask == 0 || oo + ask <= dl as u64, "copying {} bytes to {} of {} bytes of memory reports success", ask, oo, dl);
                        ensure!(n >= have && n <= ask, "copying {} bytes at {} of a {}-byte host file into memory reports {}", ask, at, fl, n);
                        for k in 0..dl as u64 {
                            let w = if k < oo || k >= oo + ask { 0xa5 } else if k - oo < have { byte(5, at + k - oo) } else { 0 };
                            ensure!(m[k as usize] == w, "copy into memory: byte {} is {:#x}, expected {:#x} (offset {}, asked {}, file {})", k, m[k as usize], w, oo, ask, fl);
                        }
                    }
                }
            }
            // packing a host directory into a memory buffer that is too short
            {
                let t2 = tree(env.seed ^ 0x99, i, 30);
                if host_ok(&t2) {
                    write_host(&s.join("m"), &t2);
                    let full = std_image(&s.join("m"), &s.join("m.iso"))?;
                    let p = oracle_matches(&full, &t2, "pack")?;
                    let need = p.all.values().filter(|e| e.attr & 0x10 == 0 && e.size > 0).map(|e| e.sector as u64 * 2048 + e.size as u64).max().unwrap_or(0);
                    for len in [65536usize, full.len().saturating_sub(65536), full.len(), need.saturating_sub(1) as usize / 65536 * 65536] {
                        let mut b: Box<[u8]> = vec![0u8; len].into_boxed_slice();
                        let mut fs = StdFilesystem::create(&s.join("m"));
                        if run(create_xdvdfs_image(&mut fs, &mut b, |_| {})).is_ok() {
                            oracle_matches(&b, &t2, "pack into a short buffer that reports success")?;
                        } else {
                            ensure!(len < full.len(), "packing into a buffer of the right size fails");
                        }
                    }
                }
            }
        }
        let _ = std::fs::remove_dir_all(&s);
    }
    // the generic copier around its buffer size, with a failure at any step
    if i % 8 == 0 {
        const M: u64 = 1 << 20;
        let n = *r.pick(&[M - 1, M, M + 1, 2 * M, 2 * M + 777, 3 * M - 1, 5, 0]);
        let src = bytes(9, n + 4096);
        let oi = r.below(4000);
        let oo = r.below(4000);
        let mut d = MemDev::default();
        let c = run(<DefaultCopier<ImgDev, MemDev> as RWCopier<_, _>>::copy(oi, oo, n, &mut ImgDev::new(&src), &mut d)).map_err(|e| format!("{:?}", e))?;
        ensure!(c == n, "generic copy of {} bytes reports {}", n, c);
        ensure!(d.data.len() as u64 == if n == 0 { 0 } else { oo + n }, "generic copy of {} bytes wrote up to {}", n, d.data.len());
        ensure!(n == 0 || d.data[oo as usize..] == src[oi as usize..(oi + n) as usize], "generic copy of {} bytes differs", n);
        for k in 0..n.div_ceil(M) {
            let mut s = ImgDev::new(&src);
            s.fail_at = Some(k);
            ensure!(run(<DefaultCopier<ImgDev, MemDev> as RWCopier<_, _>>::copy(oi, oo, n, &mut s, &mut MemDev::default())).is_err(), "generic copy hides failed read {}", k);
            let mut d = MemDev { fail_at: Some(k as usize), ..Default::default() };
            ensure!(run(<DefaultCopier<ImgDev, MemDev> as RWCopier<_, _>>::copy(oi, oo, n, &mut ImgDev::new(&src), &mut d)).is_err(), "generic copy hides failed write {}", k);
        }
        let short = &src[..(oi + n).saturating_sub(1) as usize];
        if n > 0 {
            ensure!(run(<DefaultCopier<ImgDev, MemDev> as RWCopier<_, _>>::copy(oi, oo, n, &mut ImgDev::new(short), &mut MemDev::default())).is_err(), "generic copy from a short source succeeds");
        }
    }
    // memory devices refuse what does not fit, and change nothing then
    {
        let n = r.below(3000) as usize;
        let w = r.below(3000) as usize;
        let o = match r.below(5) {
            0 => u64::MAX - r.below(4),
            1 => n as u64,
            _ => r.below(4000),
        };
        let mut b = vec![7u8; n].into_boxed_slice();
        let data = bytes(3, w as u64);
        let res = run(<Box<[u8]> as BlockDeviceWrite>::write(&mut b, o, &data));
        let fits = o < n as u64 && n as u64 - o >= w as u64;
        match res {
            Ok(()) => {
                ensure!(fits || (w == 0), "writing {} bytes at {} into {} bytes of memory succeeds", w, o, n);
                ensure!(w == 0 || b[o as usize..o as usize + w] == data[..], "memory write differs");
            }
            Err(_) => ensure!(!fits && b.iter().all(|&x| x == 7), "writing {} bytes at {} into {} bytes of memory fails", w, o, n),
        }
        let mut c = vec![7u8; n];
        let res = run(<[u8] as BlockDeviceWrite>::write(&mut c[..], o, &data));
        ensure!(res.is_ok() == fits || w == 0, "slice write of {} at {} into {}: {:?}", w, o, n, res.is_ok());
        ensure!(!fits || w == 0 || c[o as usize..o as usize + w] == data[..], "slice write differs");
        ensure!(run(<Box<[u8]> as BlockDeviceWrite>::len(&mut b)) .map_err(|_| "len")? == n as u64, "memory device length");
        let mut buf = vec![1u8; w];
        let res = run(<[u8] as BlockDeviceRead>::read(&mut c[..], o, &mut buf));
        match res {
            Ok(()) => ensure!(w == 0 || (fits && buf[..] == c[o as usize..o as usize + w]), "reading {} bytes at {} of a {}-byte slice succeeds wrongly", w, o, n),
            Err(_) => ensure!(!fits || w == 0, "reading {} bytes at {} of a {}-byte slice fails", w, o, n),
        }
    }
    Ok(!t.is_empty())
}
pub fn c09_cli(env: &Env, i: u64) -> R {
    let mut r = Rng::new(env.seed ^ 0x99, i);
    let t = tree(env.seed ^ 0x99, i + 1, 25);
    if !host_ok(&t) {
        return Ok(false);
    }
    let d = pack(&t)?;
    let s = scratch(env, "c09c", i);
    let p = parse(&&d.data[..]);
    let ends: Vec<u64> = p.all.values().filter(|e| e.attr & 0x10 == 0 && e.size > 0).map(|e| e.sector as u64 * 2048 + e.size as u64).collect();
    let cut = if ends.is_empty() { r.below(d.data.len() as u64) } else { r.pick(&ends) - 1 };
    std::fs::write(s.join("cut.iso"), &d.data[..cut as usize]).unwrap();
    let (rc, _, _) = cli(env, &s, &["unpack", "cut.iso", "out"]);
    if rc == 0 {
        check_host(&s.join("out"), &t).map_err(|e| format!("unpacking an image cut to {} bytes reports success, but {}", cut, e))?;
    }
    for (path, e) in flatten(&t).into_iter().take(12) {
        let Entry::File(len, seed) = e else { continue };
        let (rc, _, _) = cli(env, &s, &["copy-out", "cut.iso", &path, "f.bin"]);
        if rc == 0 {
            ensure!(std::fs::read(s.join("f.bin")).unwrap() == bytes(seed, len), "copy-out of {:?} from an image cut to {} bytes reports success with other contents", path, cut);
        }
    }
    let (rc, _, _) = cli(env, &s, &["pack", "cut.iso", "o.iso"]);
    if rc == 0 {
        oracle_matches(&std::fs::read(s.join("o.iso")).unwrap(), &t, "repacking a cut image that reported success")?;
    }
    let _ = std::fs::remove_dir_all(&s);
    Ok(true)
}

/// A host file that shrinks between planning and copying.
pub fn c09_shrink(env: &Env, _i: u64) -> R {
    use ciso::write::SectorReader;
    let s = scratch(env, "c09s", 0);
    std::fs::create_dir(s.join("src")).unwrap();
    std::fs::write(s.join("src/f"), bytes(5, 5000)).unwrap();
    let mut fs = StdFilesystem::create(&s.join("src"));
    let mut bd = SectorLinearBlockDevice::default();
    let mut lf = SectorLinearBlockFilesystem::new(&mut fs);
    run(create_xdvdfs_image(&mut lf, &mut bd, |_| {})).map_err(|_| "planning fails")?;
    std::fs::write(s.join("src/f"), bytes(5, 100)).unwrap();
    let mut inp = CisoSectorInput::new(bd, lf);
    let n = run(inp.size()).map_err(|e| e.to_string())? / 2048;
    let mut refused = false;
    for k in 0..n {
        refused |= run(inp.read_sector(k as usize, 2048)).is_err();
    }
    let _ = std::fs::remove_dir_all(&s);
    ensure!(refused, "finding compress-host-file-shrinks: a host file of 5000 bytes cut to 100 after planning is compressed as if it ended in zeros, without an error");
    Ok(true)
}
// ---------------------------------------------------------------- C10
struct Sparse<'a> {
    data: &'a [u8],
    base: u64,
    pos: u64,
}
impl std::io::Read for Sparse<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let end = self.base + self.data.len() as u64;
        let n = (sl(b) as u64).min(end.saturating_sub(self.pos));
        for (i, x) in b[..n as usize].iter_mut().enumerate() {
            let o = self.pos + i as u64;
            *x = if o < self.base { byte(77, o) } else { self.data[(o - self.base) as usize] };
        }
        self.pos += n;
        Ok(n as usize)
    }
}
impl std::io::Seek for Sparse<'_> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        match p {
            std::io::SeekFrom::Start(p) => self.pos = p,
            std::io::SeekFrom::Current(d) => self.pos = (self.pos as i64 + d) as u64,
            std::io::SeekFrom::End(d) => self.pos = ((self.base + self.data.len() as u64) as i64 + d) as u64,
        }
        Ok(self.pos)
    }
}
pub const BASES: [u64; 4] = [0, 405798912, 265879552, 34078720];
pub fn c10(env: &Env, i: u64) -> R {
    let t = tree(env.seed ^ 0x10, i, 80);
    let d = pack(&t)?;
    let want = lib_matches(&mut ImgDev::new(&d.data), &t, "raw")?;
    let mut v0 = ImgDev::new(&d.data);
    let vol = run(xdvdfs::read::read_volume(&mut v0)).map_err(e2s)?;
    let sum = run(xdvdfs::checksum::checksum(&mut v0, &vol)).map_err(e2s)?;
    for base in BASES {
        let mut w = run(OffsetWrapper::new(ImgDev::at(&d.data, base))).map_err(|e| format!("image at partition offset {} is not recognised: {:?}", base, e))?;
        ensure!(w.get_offset() == base, "image at partition offset {} is opened at offset {}", base, w.get_offset());
        let got = lib_matches(&mut w, &t, &format!("partition offset {}", base))?;
        for (k, n) in &want {
            ensure!(got[k] == *n, "{:?} is reported differently at partition offset {}", k, base);
        }
        let v = run(xdvdfs::read::read_volume(&mut w)).map_err(e2s)?;
        ensure!(run(xdvdfs::checksum::checksum(&mut w, &v)).map_err(e2s)? == sum, "the checksum differs at partition offset {}", base);
        for (k, e) in flatten(&t) {
            let Entry::File(len, seed) = e else { continue };
            if len > 10 {
                let b = run(got[&k].node.dirent.read_data_offset(&mut w, 7, 3)).map_err(e2s)?;
                ensure!(b[..] == bytes(seed, len)[3..10], "{:?}: partial read differs at partition offset {}", k, base);
            }
        }
        // seeking through the wrapper, and copying with the std::io copier
        if i % 3 == 0 {
            let s = scratch(env, "c10", i);
            let w = run(OffsetWrapper::new(Sparse { data: &d.data, base, pos: 5 })).map_err(e2s)?;
            let f = std::fs::File::create(s.join("o.iso")).unwrap();
            let mut out = std::io::BufWriter::new(f);
            let mut fs = run(XDVDFSFilesystem::<_, _, StdIOCopier<_, _>>::new(w)).ok_or("refused")?;
            run(create_xdvdfs_image(&mut fs, &mut out, |_| {})).map_err(|e| format!("repack at partition offset {}: {:?}", base, e))?;
            std::io::Write::flush(&mut out).unwrap();
            oracle_matches(&std::fs::read(s.join("o.iso")).unwrap(), &t, &format!("repack from partition offset {}", base))?;
            let _ = std::fs::remove_dir_all(&s);
            let mut w = run(OffsetWrapper::new(Sparse { data: &d.data, base, pos: 0 })).map_err(e2s)?;
            for (k, e) in flatten(&t) {
                if let Entry::File(len, seed) = e {
                    if len > 0 {
                        got[&k].node.dirent.seek_to(&mut w).map_err(|e| format!("{:?}", e))?;
                        let mut b = vec![0; len as usize];
                        std::io::Read::read_exact(w.get_mut(), &mut b).map_err(|e| e.to_string())?;
                        ensure!(b == bytes(seed, len), "{:?}: seek lands elsewhere at partition offset {}", k, base);
                    }
                }
            }
        }
    }
    // not an image
    let mut r = Rng::new(env.seed, i);
    let junk = bytes(i, 40 * 2048);
    ensure!(run(OffsetWrapper::new(ImgDev::new(&junk))).is_err(), "junk is opened as an image");
    let off = BASES[(i % 4) as usize] + 2048 * r.range(1, 50);
    ensure!(run(OffsetWrapper::new(ImgDev::at(&d.data[..34 * 2048], off))).is_err(), "an image at unsupported offset {} is opened", off);
    Ok(!t.is_empty())
}
pub fn c10_cli(env: &Env, i: u64) -> R {
    let base = BASES[1 + (i % 3) as usize];
    let t = tree(env.seed ^ 0x1010, i + 3, 40);
    if !host_ok(&t) {
        return Ok(false);
    }
    let d = pack(&t)?;
    let s = scratch(env, "c10c", i);
    {
        use std::io::{Seek, Write};
        let mut f = std::fs::File::create(s.join("x.iso")).unwrap();
        f.seek(std::io::SeekFrom::Start(base)).unwrap();
        f.write_all(&d.data).unwrap();
    }
    let (rc, _, e) = cli(env, &s, &["unpack", "x.iso", "out"]);
    ensure!(rc == 0, "unpacking an image at partition offset {} exits {}: {}", base, rc, e);
    check_host(&s.join("out"), &t).map_err(|e| format!("unpack at partition offset {}: {}", base, e))?;
    let (rc, _, e) = cli(env, &s, &["pack", "x.iso", "o.iso"]);
    ensure!(rc == 0, "repacking an image at partition offset {} exits {}: {}", base, rc, e);
    oracle_matches(&std::fs::read(s.join("o.iso")).unwrap(), &t, "repack at a partition offset")?;
    if let Some((p, Entry::File(len, seed))) = flatten(&t).into_iter().find(|(_, e)| matches!(e, Entry::File(l, _) if *l > 0)) {
        let (rc, _, e) = cli(env, &s, &["copy-out", "x.iso", &p, "f.bin"]);
        ensure!(rc == 0, "copy-out at partition offset {} exits {}: {}", base, rc, e);
        ensure!(std::fs::read(s.join("f.bin")).unwrap() == bytes(seed, len), "copy-out at partition offset {} differs", base);
    }
    let _ = std::fs::remove_dir_all(&s);
    Ok(true)
}

// ---------------------------------------------------------------- C11
/// the character encoding, exhaustively: each of the 256 bytes stands for one character, and only those 256
/// characters have a byte (what verus/encoding_rs.rs assumes of the dependency)
fn every_char() -> R {
    use xdvdfs::layout::*;
    for u in 0..0x110000u32 {
        let Some(c) = char::from_u32(u) else { continue };
        let d = DirectoryEntryData {
            node: DirectoryEntryDiskData { data: DiskRegion { sector: 0, size: 0 }, attributes: DirentAttributes(0), filename_length: 0 },
            name: arrayvec::ArrayString::from(c.encode_utf8(&mut [0; 4])).unwrap(),
        };
        let mut b = [0u8; 256];
        let got = d.encode_name(&mut b).ok().map(|n| b[..n as usize].to_vec());
        let want = oracle::encode(&c.to_string());
        ensure!(got == want, "{:?} is encoded as {:?} instead of {:?}", c, got, want);
        if let Some(w) = want {
            ensure!(w.len() == 1 && oracle::decode(&w) == c.to_string(), "oracle");
            let disk = DirectoryEntryDiskData { data: DiskRegion { sector: 0, size: 0 }, attributes: DirentAttributes(0), filename_length: 1 };
            let node = DirectoryEntryDiskNode { left_entry_offset: 0, right_entry_offset: 0, dirent: disk };
            let mut n = DirectoryEntryNode { node, name: [0; 256], offset: 0 };
            n.name[0] = w[0];
            let s = n.name_str::<()>().map_err(|_| format!("byte {} is not decoded", w[0]))?.to_string();
            ensure!(s == c.to_string(), "byte {} is decoded as {:?} instead of {:?}", w[0], s, c);
        }
    }
    Ok(true)
}

pub fn c11(env: &Env, i: u64) -> R {
    if i == 0 {
        return every_char();
    }
    let mut r = Rng::new(env.seed ^ 0x11, i);
    let r = &mut r;
    // candidate names, some of them unacceptable
    let n = r.range(1, 6) as usize;
    let mut names: Vec<String> = vec![];
    for _ in 0..n {
        let s = match r.below(9) {
            0 => {
                let len = r.range(250, 260) as usize;
                (0..len).map(|_| *r.pick(&['a', 'B', '_'])).collect()
            }
            1 => {
                let len = r.range(83, 87) as usize;
                (0..len).map(|_| *r.pick(&['€', '™', '•'])).collect()
            }
            2 => {
                let len = r.range(124, 130) as usize;
                (0..len).map(|_| *r.pick(&['é', 'Š', 'ß'])).collect()
            }
            3 => format!("x{}", *r.pick(&['漢', 'я', '\u{80}', '\u{82}', '\u{9f}', 'ł', '😀', 'α', '\u{100}', '\u{2028}', '￿'])),
            4 => {
                let c = *r.pick(WIDE);
                format!("{}{}", c, r.below(10))
            }
            5 if !names.is_empty() => {
                let b = r.pick(&names).clone();
                recase(r, &b)
            }
            6 if !names.is_empty() => {
                let b = r.pick(&names).clone();
                if r.chance(1, 2) { b.to_lowercase() } else { b.to_uppercase() }
            }
            7 => char::from_u32(r.below(0x180) as u32).map(|c| if c == '/' || c == '\0' { 'k' } else { c }).unwrap_or('k').to_string() + "q",
            _ => { let (st, l) = (r.below(3), r.range(1, 20)); rand_name(r, st, l) }
        };
        names.push(s);
    }
    let ok_one = |s: &str| s.len() <= 255 && oracle::encode(s).is_some();
    let mut seen = std::collections::BTreeSet::new();
    let dup = names.iter().any(|n| !seen.insert(fold(n)));
    let ok = names.iter().all(|s| ok_one(s)) && !dup;
    let l: Vec<Node> = names
        .iter()
        .map(|n| if r.chance(1, 3) { Node { name: n.clone(), kind: Kind::Dir(vec![Node { name: "in".into(), kind: Kind::File { len: 3, seed: 1 } }]) } } else { Node { name: n.clone(), kind: Kind::File { len: r.below(3000), seed: 5 } } })
        .collect();
    let t = if r.chance(1, 2) { l } else { vec![Node { name: "sub".into(), kind: Kind::Dir(l) }] };
    let mut fs = MemFs::new(&t);
    let mut dev = MemDev::default();
    let dupdir = {
        // exact duplicates of directory names would make the source itself contradictory
        let mut s = std::collections::BTreeSet::new();
        names.iter().any(|n| !s.insert(n.clone()))
    };
    match run(create_xdvdfs_image(&mut fs, &mut dev, |_| {})) {
        Ok(()) => {
            ensure!(ok, "names {:?} are accepted although {}", names, if dup { "two are equal up to ASCII case" } else { "one cannot be stored" });
            oracle_matches(&dev.data, &t, "names")?;
            lib_matches(&mut ImgDev::new(&dev.data), &t, "names")?;
        }
        Err(e) => {
            ensure!(!ok, "names {:?} are refused: {:?}", names, e);
            let s = format!("{:?}", e);
            ensure!(dupdir || s.contains("StringEncodingError") || s.contains("FileNameTooLong") || s.contains("DuplicateFileName"), "names {:?} fail with {}", names, s);
        }
    }
    Ok(true)
}

// ---------------------------------------------------------------- C12
pub fn c12(env: &Env, i: u64) -> R {
    use ciso::write::SectorReader;
    let t = tree(env.seed ^ 0x12, i, 60);
    let raw = pack(&t)?.data;
    fn compare<F: FilesystemCopier<[u8]>>(mut inp: CisoSectorInput<'_, F>, raw: &[u8], what: &str) -> Result<(), String>
    where
        F::Error: std::fmt::Debug,
    {
        let sz = run(inp.size()).map_err(|e| format!("{:?}", e))?;
        ensure!(sz == raw.len() as u64, "{}: size {} instead of {}", what, sz, raw.len());
        for s in 0..(raw.len() / 2048) {
            let b = run(inp.read_sector(s, 2048)).map_err(|e| format!("{}: sector {}: {:?}", what, s, e))?;
            ensure!(b.len() == 2048 && b[..] == raw[s * 2048..s * 2048 + 2048], "{}: sector {} differs from the raw image", what, s);
        }
        let b = run(inp.read_sector(raw.len() / 2048 + 5, 2048)).map_err(|e| format!("{:?}", e))?;
        ensure!(b.iter().all(|&x| x == 0), "{}: a sector past the end is not zero", what);
        Ok(())
    }
    {
        let mut fs = MemFs::new(&t);
        let mut bd = SectorLinearBlockDevice::default();
        let mut lf = SectorLinearBlockFilesystem::new(&mut fs);
        run(create_xdvdfs_image(&mut lf, &mut bd, |_| {})).map_err(|e| format!("{:?}", e))?;
        compare(CisoSectorInput::new(bd, lf), &raw, "compressing a tree")?;
    }
    {
        let mut fs: XDVDFSFilesystem<ImgDev, [u8]> = run(XDVDFSFilesystem::new(ImgDev::new(&raw))).ok_or("own image rejected")?;
        let mut bd = SectorLinearBlockDevice::default();
        let mut lf = SectorLinearBlockFilesystem::new(&mut fs);
        run(create_xdvdfs_image(&mut lf, &mut bd, |_| {})).map_err(|e| format!("{:?}", e))?;
        // the repacked layout may differ from the original; compare with a raw repack
        let mut fs2: XDVDFSFilesystem<ImgDev, MemDev> = run(XDVDFSFilesystem::new(ImgDev::new(&raw))).ok_or("own image rejected")?;
        let mut d2 = MemDev::default();
        run(create_xdvdfs_image(&mut fs2, &mut d2, |_| {})).map_err(|e| format!("{:?}", e))?;
        compare(CisoSectorInput::new(bd, lf), &d2.data, "compressing an image")?;
    }
    if i % 3 == 0 && host_ok(&t) {
        let s = scratch(env, "c12", i);
        write_host(&s.join("src"), &t);
        let raw = std_image(&s.join("src"), &s.join("o.iso"))?;
        let mut fs = StdFilesystem::create(&s.join("src"));
        let mut bd = SectorLinearBlockDevice::default();
        let mut lf = SectorLinearBlockFilesystem::new(&mut fs);
        run(create_xdvdfs_image(&mut lf, &mut bd, |_| {})).map_err(|e| format!("{:?}", e))?;
        compare(CisoSectorInput::new(bd, lf), &raw, "compressing a host directory")?;
        let _ = std::fs::remove_dir_all(&s);
    }
    Ok(!t.is_empty())
}
/// Writes of any length to sectors of their own, and files of any length: the device holds what a plain device would.
pub fn c12_direct(env: &Env, i: u64) -> R {
    use ciso::write::SectorReader;
    use xdvdfs::blockdev::BlockDeviceWrite;
    let mut r = Rng::new(env.seed ^ 0x121212, i);
    let len = |r: &mut Rng| match r.below(6) {
        0 => r.below(3),
        1 => 2048 * r.below(4),
        2 => (2048 * r.range(1, 4) + r.below(3)).saturating_sub(1),
        _ => r.below(9000),
    };
    let t: Vec<Node> = (0..r.range(1, 4)).map(|k| Node { name: format!("f{}", k), kind: Kind::File { len: len(&mut r), seed: r.next() >> 8 } }).collect();
    let mut fs = MemFs::new(&t);
    let mut bd = SectorLinearBlockDevice::default();
    let mut lf = SectorLinearBlockFilesystem::new(&mut fs);
    let mut model: Vec<u8> = vec![];
    let (mut parts, mut at) = (vec![], r.below(40));
    for _ in 0..r.range(1, 6) {
        let k = r.below(t.len() as u64 * 2) as usize;
        let b = match t.get(k).map(|n| &n.kind) {
            Some(Kind::File { len, seed }) => bytes(*seed, *len),
            _ => { let n = len(&mut r); bytes(r.next() >> 8, n).iter().map(|b| b | 1).collect() }
        };
        let n = b.len() as u64;
        parts.push((at, k, b));
        at += (n + 2047) / 2048 + if r.chance(1, 3) { r.below(5) } else { 0 };
    }
    for (at, _, b) in &parts {
        if !b.is_empty() {
            let (o, e) = (*at as usize * 2048, *at as usize * 2048 + (b.len() + 2047) / 2048 * 2048);
            model.resize(model.len().max(e), 0);
            model[o..o + b.len()].copy_from_slice(b);
        }
    }
    r.shuffle(&mut parts);
    for (at, k, b) in &parts {
        if let Some(n) = t.get(*k) {
            let p = PathVec::from_iter(std::iter::once(n.name.as_str()));
            let w = run(lf.copy_file_in(&p, &mut bd, 0, at * 2048, b.len() as u64)).map_err(|e| format!("{:?}", e))?;
            ensure!(w == b.len() as u64, "copying {} bytes reports {}", b.len(), w);
        } else {
            run(bd.write(at * 2048, b)).map_err(|e| format!("{:?}", e))?;
        }
    }
    let shown: Vec<_> = parts.iter().map(|p| (p.0, p.1 < t.len(), p.2.len())).collect();
    let l = run(bd.len()).map_err(|e| format!("{:?}", e))?;
    ensure!(l == model.len() as u64, "parts (sector, is a file, length) {:?}: the device has {} bytes instead of {}", shown, l, model.len());
    let mut inp = CisoSectorInput::new(bd, lf);
    let sz = run(inp.size()).map_err(|e| format!("{:?}", e))?;
    ensure!(sz == model.len() as u64, "{:?}: the sectors given to the compressor come to {} bytes instead of {}", shown, sz, model.len());
    for s in 0..model.len() / 2048 {
        let b = run(inp.read_sector(s, 2048)).map_err(|e| format!("{:?}", e))?;
        ensure!(b[..] == model[s * 2048..s * 2048 + 2048], "parts (sector, is a file, length) {:?}: sector {} differs", shown, s);
    }
    Ok(!model.is_empty())
}
pub fn c12_cli(env: &Env, i: u64) -> R {
    let t = tree(env.seed ^ 0x1212, i, 40);
    if !host_ok(&t) {
        return Ok(false);
    }
    let s = scratch(env, "c12c", i);
    write_host(&s.join("src"), &t);
    let d = pack(&t)?;
    std::fs::write(s.join("i.iso"), &d.data).unwrap();
    for (src, out) in [("src", "a.cso"), ("i.iso", "b.cso")] {
        let (rc, _, e) = cli(env, &s, &["compress", src, out]);
        ensure!(rc == 0, "`compress {}` exits {}: {}", src, rc, e);
        let cso = if s.join(out).exists() { out.to_string() } else { out.replace(".cso", ".1.cso") };
        // read back through the tool: listing and contents
        let fl = flatten(&t);
        let (rc, o, e) = cli(env, &s, &["md5", &cso]);
        let (rc2, o2, e2) = cli(env, &s, &["md5", "i.iso"]);
        ensure!(rc == rc2, "`md5` of the compressed image exits {} ({}), of the raw image {} ({})", rc, e, rc2, e2);
        let sort = |o: &str| { let mut v: Vec<String> = o.lines().filter(|l| matches!(fl.get(l.splitn(2, "  ").nth(1).unwrap_or("")), Some(Entry::File(..)))).map(|s| s.to_string()).collect(); v.sort(); v };
        ensure!(sort(&o) == sort(&o2), "files of the compressed image differ from the raw image: {:?} vs {:?}", o, o2);
        let (rc, o, e) = cli(env, &s, &["checksum", "-s", &cso]);
        ensure!(rc == 0, "`checksum` of the compressed image exits {}: {}", rc, e);
        ensure!(o.split('\t').next() == Some(&hex(&model_checksum(&t))), "checksum of the compressed image is {:?}", o);
    }
    let _ = std::fs::remove_dir_all(&s);
    Ok(true)
}

// ---------------------------------------------------------------- C13
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn model_checksum(t: &[Node]) -> Vec<u8> {
    use sha3::Digest;
    let mut h = sha3::Sha3_256::new();
    for (p, e) in flatten(t) {
        h.update(p.as_bytes());
        if let Entry::File(len, seed) = e {
            h.update(bytes(seed, len));
        }
    }
    h.finalize().to_vec()
}
fn checksum_of(img: &[u8]) -> Result<Vec<u8>, String> {
    let mut d = ImgDev::new(img);
    let v = run(xdvdfs::read::read_volume(&mut d)).map_err(e2s)?;
    Ok(run(xdvdfs::checksum::checksum(&mut d, &v)).map_err(|e| format!("checksum fails: {:?}", e))?.to_vec())
}
pub fn c13(env: &Env, i: u64) -> R {
    let mut t = tree(env.seed ^ 0x13, i, 80);
    let mut r = Rng::new(env.seed ^ 0x1313, i);
    let want = model_checksum(&t);
    for k in 0..3 {
        let img = pack(&t)?.data;
        let got = checksum_of(&img)?;
        ensure!(got == want, "checksum is {}, expected {} (listing order {})", hex(&got), hex(&want), k);
        if k == 0 {
            let mut fs: XDVDFSFilesystem<ImgDev, MemDev> = run(XDVDFSFilesystem::new(ImgDev::new(&img))).ok_or("own image rejected")?;
            let mut d2 = MemDev::default();
            run(create_xdvdfs_image(&mut fs, &mut d2, |_| {})).map_err(|e| format!("{:?}", e))?;
            ensure!(checksum_of(&d2.data)? == want, "checksum changes by repacking");
            // padding and unused sectors do not matter
            let mut j = img.clone();
            j[..32 * 2048].iter_mut().enumerate().for_each(|(k, b)| *b = k as u8);
            j.extend(std::iter::repeat(9).take(5000));
            ensure!(checksum_of(&j)? == want, "checksum depends on bytes outside of the filesystem");
        }
        fn sh(l: &mut [Node], r: &mut Rng) {
            r.shuffle(l);
            for n in l {
                if let Kind::Dir(c) = &mut n.kind {
                    sh(c, r)
                }
            }
        }
        sh(&mut t, &mut r);
    }
    // any one-byte change of any file changes it
    let img = pack(&t)?.data;
    let p = parse(&&img[..]);
    for e in p.all.values().filter(|e| e.attr & 0x10 == 0 && e.size > 0).take(6) {
        let mut j = img.clone();
        let o = e.sector as u64 * 2048 + r.below(e.size as u64);
        j[o as usize] ^= 1 << r.below(8);
        ensure!(checksum_of(&j)? != want, "checksum does not change with the contents of {:?}", e.name);
    }
    Ok(!t.is_empty())
}

pub fn tree_of(v: Vec<(&str, Option<u64>)>) -> Vec<Node> {
    let mut root: Vec<Node> = vec![];
    for (k, (p, len)) in v.into_iter().enumerate() {
        let cs: Vec<&str> = p.split('/').collect();
        let mut l = &mut root;
        for c in &cs[..cs.len() - 1] {
            let i = match l.iter().position(|n| n.name == *c) {
                Some(i) => i,
                None => {
                    l.push(Node { name: c.to_string(), kind: Kind::Dir(vec![]) });
                    l.len() - 1
                }
            };
            l = match &mut l[i].kind {
                Kind::Dir(d) => d,
                _ => unreachable!(),
            };
        }
        let name = cs[cs.len() - 1].to_string();
        match len {
            Some(len) => l.push(Node { name, kind: Kind::File { len, seed: 1000 + k as u64 } }),
            None => l.push(Node { name, kind: Kind::Dir(vec![]) }),
        }
    }
    root
}
