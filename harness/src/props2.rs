//! Properties decided at the level of the command line and of the path-rewrite overlay.
use crate::dev::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle;
use crate::props::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use xdvdfs::write::fs::*;
use xdvdfs::write::img::create_xdvdfs_image;

/// Everything below `root` except what lies below `except`: path -> contents (None for directories).
pub fn snapshot(root: &Path, except: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    let mut m = BTreeMap::new();
    let mut st = vec![root.to_path_buf()];
    while let Some(d) = st.pop() {
        let Ok(l) = std::fs::read_dir(&d) else { continue };
        for e in l.flatten() {
            let p = e.path();
            if p == except {
                continue;
            }
            let t = e.file_type().unwrap();
            if t.is_dir() {
                m.insert(p.clone(), None);
                st.push(p);
            } else if t.is_symlink() {
                m.insert(p.clone(), Some(std::fs::read_link(&p).unwrap().to_string_lossy().into_owned().into_bytes()));
            } else {
                m.insert(p.clone(), Some(std::fs::read(&p).unwrap_or_default()));
            }
        }
    }
    m
}
fn diff(a: &BTreeMap<PathBuf, Option<Vec<u8>>>, b: &BTreeMap<PathBuf, Option<Vec<u8>>>) -> Option<String> {
    for (p, c) in b {
        match a.get(p) {
            None => return Some(format!("{:?} was created", p)),
            Some(x) if x != c => return Some(format!("{:?} was changed", p)),
            _ => {}
        }
    }
    a.keys().find(|p| !b.contains_key(*p)).map(|p| format!("{:?} was removed", p))
}

// ---------------------------------------------------------------- C14
pub enum Raw {
    F(Vec<u8>, Vec<u8>),
    D(Vec<u8>, Vec<Raw>),
}
/// Writes an image from raw names, without using the library; entries are chained by right links.
pub fn raw_image(l: &[Raw]) -> Vec<u8> {
    let mut img = vec![0u8; 33 * 2048];
    fn put(img: &mut Vec<u8>, b: &[u8]) -> u32 {
        let s = img.len() / 2048;
        img.extend_from_slice(b);
        img.resize(img.len().div_ceil(2048) * 2048, 0);
        s as u32
    }
    fn dir(img: &mut Vec<u8>, l: &[Raw]) -> (u32, u32) {
        let mut recs: Vec<(Vec<u8>, u32, u32, u8)> = vec![];
        for n in l {
            match n {
                Raw::F(nm, b) => {
                    let s = if b.is_empty() { 0 } else { put(img, b) };
                    recs.push((nm.clone(), s, b.len() as u32, 0x20));
                }
                Raw::D(nm, c) => {
                    let (s, z) = dir(img, c);
                    recs.push((nm.clone(), s, z, 0x10));
                }
            }
        }
        let mut offs = vec![];
        let mut o = 0usize;
        for r in &recs {
            let n = 14 + r.0.len();
            if o % 2048 + n > 2048 {
                o = (o / 2048 + 1) * 2048;
            }
            offs.push(o);
            o = (o + n + 3) & !3;
        }
        let size = o.div_ceil(2048).max(1) * 2048;
        let mut t = vec![0xffu8; size];
        for (i, r) in recs.iter().enumerate() {
            let b = offs[i];
            let right = if i + 1 < offs.len() { (offs[i + 1] / 4) as u16 } else { 0 };
            t[b..b + 2].copy_from_slice(&0u16.to_le_bytes());
            t[b + 2..b + 4].copy_from_slice(&right.to_le_bytes());
            t[b + 4..b + 8].copy_from_slice(&r.1.to_le_bytes());
            t[b + 8..b + 12].copy_from_slice(&r.2.to_le_bytes());
            t[b + 12] = r.3;
            t[b + 13] = r.0.len() as u8;
            t[b + 14..b + 14 + r.0.len()].copy_from_slice(&r.0);
        }
        let s = put(img, &t);
        (s, size as u32)
    }
    let (s, z) = dir(&mut img, l);
    let h = 32 * 2048;
    img[h..h + 20].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
    img[h + 20..h + 24].copy_from_slice(&s.to_le_bytes());
    img[h + 24..h + 28].copy_from_slice(&z.to_le_bytes());
    img[h + 2028..h + 2048].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
    img.resize(img.len().div_ceil(65536) * 65536, 0);
    img
}

pub fn c14(env: &Env, i: u64) -> R {
    let mut r = Rng::new(env.seed ^ 0x14, i);
    let s = scratch(env, "c14", i);
    let work = s.join("w/x/y");
    std::fs::create_dir_all(&work).unwrap();
    for d in ["w", "w/x", "w/x/y"] {
        open_up(&s.join(d));
    }
    for (d, n) in [("w", "canary"), ("w/x", "canary"), ("w/x/y", "canary"), ("", "canary"), ("w/x/y", "evil"), ("w/x", "evil")] {
        use std::os::unix::fs::PermissionsExt;
        let p = s.join(d).join(n);
        std::fs::write(&p, b"untouched").unwrap();
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o666)).unwrap();
    }
    let abs = s.to_str().unwrap().to_string();
    let evil: Vec<String> = vec![
        "..".into(), "../evil".into(), "../../evil".into(), "../canary".into(), "../../canary".into(), "../../../canary".into(),
        format!("{}/evil2", abs), format!("{}/w/canary", abs), "a/../../evil".into(), "./../evil".into(), "sub/../../evil".into(),
        "../new/deep".into(), "/".into(), "a/".into(), "./a".into(), "a//b".into(), ".".into(), "".into(), "..//evil".into(), "../".into(), "a/b".into(), "sub/../../canary".into(),
    ];
    let e = evil[(i % evil.len() as u64) as usize].clone().into_bytes();
    let shape = i / evil.len() as u64;
    let f = |n: &[u8], l: u64| Raw::F(n.to_vec(), bytes(7, l));
    let inner = |r: &mut Rng| vec![f(b"evil", 50 + r.below(3000)), f(b"canary", 20), Raw::D(b"deep".to_vec(), vec![f(b"evil", 5)])];
    let tree = match shape % 7 {
        0 => vec![f(&e, 100)],
        1 => vec![f(b"ok", 10), f(&e, 0)],
        2 => vec![Raw::D(e.clone(), inner(&mut r))],
        3 => vec![Raw::D(b"sub".to_vec(), vec![f(b"x", 3), f(&e, 100)])],
        4 => vec![Raw::D(b"sub".to_vec(), vec![Raw::D(e.clone(), inner(&mut r))])],
        5 => vec![Raw::D(e.clone(), vec![Raw::D(e.clone(), inner(&mut r))])],
        _ => vec![Raw::D(b"a".to_vec(), vec![Raw::D(e.clone(), vec![Raw::D(e.clone(), vec![f(&e, 9)])])]), f(&e, 3)],
    };
    std::fs::write(s.join("w/x/y/m.iso"), raw_image(&tree)).unwrap();
    let dest = work.join("dest");
    if r.chance(1, 2) {
        std::fs::create_dir(&dest).unwrap();
        open_up(&dest);
    }
    let before = snapshot(&s, &dest);
    let d = dest.to_str().unwrap().to_string();
    let cmds: Vec<(&str, Vec<&str>)> = vec![
        ("xdvdfs", vec!["unpack", "m.iso", "dest"]),
        ("xdvdfs", vec!["copy-out", "m.iso", "/", "dest"]),
        ("xdvdfs", vec!["copy-out", "m.iso", "/sub", &d]),
        ("xdvdfs", vec!["copy-out", "m.iso", "a", "dest"]),
        ("extract-xiso", vec!["-d", "dest", "-x", "m.iso"]),
        ("xdvdfs", vec!["unpack", "m.iso", &d]),
    ];
    for (a0, c) in cmds {
        let (rc, _, err) = cli0(env, &work, a0, &c);
        if let Some(x) = diff(&before, &snapshot(&s, &dest)) {
            return Err(format!("`{} {}` of an image holding the name {:?} (shape {}): {} outside of the destination (exit {}, {})", a0, c.join(" "), String::from_utf8_lossy(&e), shape % 7, x, rc, err));
        }
        ensure!(rc != 101, "`{}` crashes: {}", c.join(" "), err);
        let _ = std::fs::remove_dir_all(&dest);
    }
    let _ = std::fs::remove_dir_all(&s);
    Ok(true)
}

/// Ordinary names still unpack, through every extraction command.
pub fn c14_plain(env: &Env, i: u64) -> R {
    let mut r = Rng::new(env.seed ^ 0x1414, i);
    let ns: Vec<&str> = vec!["...", ".hidden", "a..b", "..a", "a..", "con", "x y", "~", "-n", "a\\b", "$x", "é€", "tail.", ". .", "a:b", "*?"];
    let k = r.below(ns.len() as u64) as usize;
    let t = vec![
        Node { name: ns[k].into(), kind: Kind::File { len: r.below(5000), seed: 3 } },
        Node { name: "d".into(), kind: Kind::Dir(vec![Node { name: ns[(k + 1) % ns.len()].into(), kind: Kind::Dir(vec![Node { name: ns[(k + 5) % ns.len()].into(), kind: Kind::File { len: 5, seed: 9 } }]) }]) },
    ];
    let img = pack(&t)?.data;
    let s = scratch(env, "c14p", i);
    std::fs::write(s.join("m.iso"), &img).unwrap();
    let Kind::Dir(sub) = &t[1].kind else { unreachable!() };
    for (a0, c, want) in [
        ("xdvdfs", vec!["unpack", "m.iso", "dest"], &t),
        ("xdvdfs", vec!["copy-out", "m.iso", "/", "dest"], &t),
        ("xdvdfs", vec!["copy-out", "m.iso", "/d", "dest"], sub),
        ("xdvdfs", vec!["copy-out", "m.iso", "D/", "dest"], sub),
        ("extract-xiso", vec!["-d", "dest", "-x", "m.iso"], &t),
    ] {
        let (rc, _, e) = cli0(env, &s, a0, &c);
        ensure!(rc == 0, "`{} {}` exits {}: {}", a0, c.join(" "), rc, e);
        check_host(&s.join("dest"), want).map_err(|e| format!("`{}`: {}", c.join(" "), e))?;
        std::fs::remove_dir_all(s.join("dest")).unwrap();
    }
    let _ = std::fs::remove_dir_all(&s);
    Ok(true)
}

// ---------------------------------------------------------------- C16
#[derive(Clone, Debug)]
enum Comp {
    Lit(String),
    Star(String, String),
    Deep, // only as the last component
}
fn pat_str(p: &[Comp]) -> String {
    p.iter()
        .map(|c| match c {
            Comp::Lit(s) => s.clone(),
            Comp::Star(a, b) => format!("{}*{}", a, b),
            Comp::Deep => "**".into(),
        })
        .collect::<Vec<_>>()
        .join("/")
}
/// Captures ({0} is the whole path), if the pattern matches.
fn pat_match(p: &[Comp], path: &[String]) -> Option<Vec<String>> {
    let mut caps = vec![path.join("/")];
    for (i, c) in p.iter().enumerate() {
        match c {
            Comp::Lit(s) => {
                if path.get(i)? != s {
                    return None;
                }
            }
            Comp::Star(a, b) => {
                let x = path.get(i)?;
                if x.len() < a.len() + b.len() || !x.starts_with(a.as_str()) || !x.ends_with(b.as_str()) {
                    return None;
                }
                caps.push(x[a.len()..x.len() - b.len()].to_string());
            }
            Comp::Deep => {
                if path.len() < i {
                    return None;
                }
                caps.push(path[i..].join("/"));
                return Some(caps);
            }
        }
    }
    if path.len() == p.len() {
        Some(caps)
    } else {
        None
    }
}
fn expand(tpl: &str, caps: &[String]) -> String {
    let mut out = String::new();
    let mut it = tpl.chars().peekable();
    while let Some(c) = it.next() {
        if c != '{' {
            out.push(c);
            continue;
        }
        let mut n = 0usize;
        for d in it.by_ref() {
            if d == '}' {
                break;
            }
            n = n * 10 + d.to_digit(10).unwrap() as usize;
        }
        out.push_str(caps.get(n).map(|s| s.as_str()).unwrap_or(""));
    }
    out
}

struct Rule {
    neg: bool,
    pat: Vec<Comp>,
    tpl: String,
}
fn c16_gen(env: &Env, i: u64) -> (Vec<Node>, Vec<Rule>) {
    let mut r = Rng::new(env.seed ^ 0x16, i);
    let words = ["a", "b", "ab", "abc", "x", "xy", "data", "bin", "e.x", "f.x", "long-name", "é", "B", ".h", "{2}", "{1}x", "..k"];
    fn dir(r: &mut Rng, words: &[&str], depth: u64) -> Vec<Node> {
        let mut names: Vec<&str> = words.to_vec();
        r.shuffle(&mut names);
        let k = r.range(1, 5) as usize;
        let mut seen = std::collections::BTreeSet::new();
        names[..k]
            .iter()
            .filter(|n| seen.insert(fold(n)))
            .map(|n| Node { name: n.to_string(), kind: if depth > 0 && r.chance(1, 2) { Kind::Dir(dir(r, words, depth - 1)) } else { Kind::File { len: r.below(3000), seed: r.next() >> 8 } } })
            .collect()
    }
    let t = dir(&mut r, &words, 3);
    let paths: Vec<Vec<String>> = flatten(&t).keys().map(|p| p.split('/').skip(1).map(|s| s.to_string()).collect()).collect();
    let n = r.range(1, 5);
    let mut rules = vec![];
    for k in 0..n {
        let base = r.pick(&paths).clone();
        let mut pat = vec![];
        for c in &base {
            let cs: Vec<char> = c.chars().collect();
            match if c.contains('{') { 0 } else { r.below(6) } {
                0 => pat.push(Comp::Star(String::new(), String::new())),
                1 => pat.push(Comp::Star(cs[..r.below(cs.len() as u64 + 1) as usize].iter().collect(), String::new())),
                2 => {
                    let k = r.below(cs.len() as u64) as usize;
                    pat.push(Comp::Star(String::new(), cs[k..].iter().collect()))
                }
                _ => pat.push(Comp::Lit(c.clone())),
            }
        }
        if r.chance(1, 8) {
            pat.pop();
            pat.push(Comp::Deep);
        }
        let ncap = pat.iter().filter(|c| !matches!(c, Comp::Lit(_))).count() as u64;
        let mut tpl = String::new();
        let lead = ["", "/", "./", ""][r.below(4) as usize];
        tpl.push_str(lead);
        match r.below(5) {
            0 => tpl.push_str(&format!("o{}/{{0}}", k)),
            1 => tpl.push_str(&format!("r{}", k)),
            2 => tpl.push_str("{0}"),
            _ => {
                tpl.push_str(&format!("p{}", k));
                for c in 1..=ncap {
                    tpl.push_str(["/", "-", "/q/"][r.below(3) as usize]);
                    tpl.push_str(&if r.chance(1, 10) { format!("{{{:02}}}", c) } else { format!("{{{}}}", c) });
                }
                if r.chance(1, 4) {
                    tpl.push_str(&format!("/{{{}}}", ncap + r.range(1, 12)));
                }
            }
        }
        rules.push(Rule { neg: r.chance(1, 4), pat, tpl });
    }
    (t, rules)
}

pub fn c16(env: &Env, i: u64) -> R {
    let (t, rules) = c16_gen(env, i);
    let flat = flatten(&t);
    // what the rules say
    let comps = |p: &str| -> Vec<String> { p.split('/').skip(1).map(|s| s.to_string()).collect() };
    let mut map: Vec<(Vec<String>, Vec<String>, bool)> = vec![]; // image path, host path, dir
    for (p, e) in &flat {
        let c = comps(p);
        // the deepest matching ancestor (or the path itself)
        let Some(k) = (1..=c.len()).rev().find(|&k| rules.iter().any(|r| pat_match(&r.pat, &c[..k]).is_some())) else { continue };
        let mut to: Option<String> = None;
        for rl in &rules {
            let Some(caps) = pat_match(&rl.pat, &c[..k]) else { continue };
            if rl.neg {
                to = None;
            } else if to.is_none() {
                to = Some(expand(&rl.tpl, &caps));
            }
        }
        if let Some(to) = to {
            let mut ic: Vec<String> = to.split('/').skip_while(|c| ["", ".", ".."].contains(c)).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
            ic.extend(c[k..].iter().cloned());
            map.push((ic, c, *e == Entry::Dir));
        }
    }
    // leave out rule sets that send two paths to one place, or files into files
    let mut seen: BTreeMap<Vec<Vec<char>>, bool> = BTreeMap::new();
    for (ic, _, d) in &map {
        let f: Vec<Vec<char>> = ic.iter().map(|s| fold(s)).collect();
        if ic.is_empty() || seen.insert(f, *d).is_some() {
            return Ok(false);
        }
    }
    let mut exact: BTreeMap<Vec<Vec<char>>, Vec<String>> = BTreeMap::new();
    for (ic, _, _) in &map {
        for k in 1..=ic.len() {
            let f: Vec<Vec<char>> = ic[..k].iter().map(|s| fold(s)).collect();
            if let Some(o) = exact.get(&f) {
                if o[..] != ic[..k] {
                    return Ok(false);
                }
            }
            exact.insert(f.clone(), ic[..k].to_vec());
            if k < ic.len() && seen.get(&f) == Some(&false) {
                return Ok(false);
            }
        }
    }
    let mut want: BTreeMap<String, Entry> = BTreeMap::new();
    for (ic, c, d) in &map {
        for k in 1..ic.len() {
            want.insert(format!("/{}", ic[..k].join("/")), Entry::Dir);
        }
        want.insert(format!("/{}", ic.join("/")), if *d { Entry::Dir } else { flat[&format!("/{}", c.join("/"))].clone() });
    }
    let cfg = RemapOverlayConfig { map_rules: rules.iter().map(|r| (format!("{}{}", if r.neg { "!" } else { "" }, pat_str(&r.pat)), if r.neg { String::new() } else { r.tpl.clone() })).collect() };
    let shown = format!("rules {:?}", cfg.map_rules);
    let mut fs = run(RemapOverlayFilesystem::new(MemFs::new(&t), cfg)).map_err(|e| format!("{}: {:?}", shown, e))?;
    // dry-run listing
    let mut dump: Vec<(String, String)> = fs.dump().iter().map(|(a, b)| (a.as_string(), b.as_string())).collect();
    dump.sort();
    let mut wd: Vec<(String, String)> = map.iter().filter(|(_, _, d)| !*d).map(|(ic, c, _)| (format!("/{}", c.join("/")), format!("/{}", ic.join("/")))).collect();
    wd.sort();
    let files: Vec<_> = dump.iter().filter(|(h, _)| matches!(flat.get(h), Some(Entry::File(..)))).cloned().collect();
    ensure!(files == wd, "{}: the dry run lists {:?}, the rules say {:?}", shown, files, wd);
    let mut dev = MemDev::default();
    run(create_xdvdfs_image(&mut fs, &mut dev, |_| {})).map_err(|e| format!("{}: packing fails: {:?}", shown, e))?;
    let p = oracle::parse(&&dev.data[..]);
    if let Some(x) = p.problem(&["header", "struct"]) {
        return Err(format!("{}: {}", shown, x));
    }
    for (k, e) in &want {
        let Some(g) = p.all.get(k) else { return Err(format!("{}: {:?} is missing from the image", shown, k)) };
        match e {
            Entry::Dir => ensure!(g.attr & 0x10 != 0, "{}: {:?} is not a directory", shown, k),
            Entry::File(len, seed) => {
                ensure!(g.attr & 0x10 == 0 && g.size as u64 == *len, "{}: {:?} has the wrong kind or size", shown, k);
                let o = g.sector as usize * 2048;
                ensure!(*len == 0 || dev.data[o..o + *len as usize] == bytes(*seed, *len)[..], "{}: {:?} holds the wrong contents", shown, k);
            }
        }
    }
    for k in p.all.keys() {
        ensure!(want.contains_key(k), "{}: {:?} is in the image although no rule puts it there", shown, k);
    }
    Ok(!want.is_empty())
}

/// Malformed rewrites are refused, not applied.
pub fn c16_bad(env: &Env, i: u64) -> R {
    let mut r = Rng::new(env.seed ^ 0x1616, i);
    let bad = ["{", "{1", "a/{1}/{", "{x}", "{1x}", "a{-1}", "{ 1}", "b/{2/c", "{1{1}", "{{1}}", "{1}{", "{99999999999999999999999x}"];
    let b = bad[(i % bad.len() as u64) as usize];
    let t = vec![Node { name: "f".into(), kind: Kind::File { len: r.below(100), seed: 1 } }];
    let cfg = RemapOverlayConfig { map_rules: vec![("*".into(), b.into())] };
    ensure!(run(RemapOverlayFilesystem::new(MemFs::new(&t), cfg)).is_err(), "the rewrite {:?} is accepted", b);
    // an index no match has stands for nothing, however large it is
    let cfg = RemapOverlayConfig { map_rules: vec![("*".into(), "z{99999999999999999999999}".into())] };
    let d = run(RemapOverlayFilesystem::new(MemFs::new(&t), cfg)).map_err(|e| format!("{:?}", e))?.dump();
    ensure!(d.len() == 1 && d[0].1.as_string() == "/z", "an index that is too large is not replaced by nothing: {:?}", d);
    Ok(true)
}

pub fn c16_cli(env: &Env, i: u64) -> R {
    let (t, _) = c16_gen(env, i);
    let s = scratch(env, "c16", i);
    write_host(&s.join("src"), &t);
    // everything under a new directory, except one top-level entry
    let ex = &t[0];
    // (braces are an alternation in a glob)
    let a = format!("!{}", ex.name.replace('{', "\\{").replace('}', "\\}"));
    let rule = format!("*:new/{{1}}");
    let (rc, _, e) = cli(env, &s, &["build-image", "-m", &rule, "-m", &a, "src", "o.iso"]);
    ensure!(rc == 0, "`build-image` exits {}: {}", rc, e);
    let rest: Vec<Node> = t[1..].to_vec();
    let want = if rest.is_empty() { vec![] } else { vec![Node { name: "new".into(), kind: Kind::Dir(rest) }] };
    oracle_matches(&std::fs::read(s.join("o.iso")).unwrap(), &want, "build-image")?;
    let spec = "[map_rules]\n\"**\" = \"/z/{1}\"\n";
    std::fs::write(s.join("src/xdvdfs.toml"), spec).unwrap();
    let (rc, _, e) = cli(env, &s, &["build-image", "src", "p.iso"]);
    ensure!(rc == 0, "`build-image` with a spec file exits {}: {}", rc, e);
    let p = oracle::parse(&&std::fs::read(s.join("p.iso")).unwrap()[..]);
    for k in flatten(&t).keys() {
        ensure!(p.all.contains_key(&format!("/z{}", k)), "build-image with \"**\" = \"/z/{{1}}\" lacks {:?}", k);
    }
    ensure!(p.all.len() == flatten(&t).len() + 2, "build-image with a spec file holds {} entries", p.all.len());
    let _ = std::fs::remove_dir_all(&s);
    Ok(true)
}

// ---------------------------------------------------------------- C18
pub fn c18(env: &Env, i: u64) -> R {
    let mut r = Rng::new(env.seed ^ 0x18, i);
    let t = tree(env.seed ^ 0x18, i, 40);
    let mut img = pack(&t)?.data;
    let s = scratch(env, "c18", i);
    // how it may go wrong
    let fail = i % 8;
    let mut must_fail = false;
    match fail {
        1 => {
            // truncated: a file's data is missing
            let p = oracle::parse(&&img[..]);
            if let Some(e) = p.all.values().filter(|e| e.attr & 0x10 == 0 && e.size > 0).max_by_key(|e| e.sector) {
                img.truncate(e.sector as usize * 2048 + (e.size / 2) as usize);
                must_fail = true;
            }
        }
        2 => {
            img[32 * 2048] ^= 1;
            must_fail = true;
        }
        3 => {
            let p = oracle::parse(&&img[..]);
            img.truncate(p.root.0 as usize * 2048 + 5);
            must_fail = true;
        }
        _ => {}
    }
    let name = ["g.iso", "game.xiso.iso", "noext", "g.old", "x.bin"][r.below(5) as usize];
    std::fs::write(s.join(name), &img).unwrap();
    std::os::unix::fs::chown(s.join(name), Some(65534), Some(65534)).ok();
    let orig = img.clone();
    let mut args: Vec<String> = vec![];
    let del = r.chance(1, 2);
    if del {
        args.push("-D".into());
    }
    let mut outdir = s.clone();
    match if fail == 4 { 1 } else { r.below(3) } {
        0 => {}
        1 if fail == 4 => {
            args.extend(["-d".into(), "missing/dir".into()]);
            must_fail = true;
        }
        1 => {
            std::fs::create_dir(s.join("out")).unwrap();
            open_up(&s.join("out"));
            args.extend(["-d".into(), ["out", "./out/"][r.below(2) as usize].into()]);
            outdir = s.join("out");
        }
        _ => {
            std::fs::create_dir(s.join("out")).unwrap();
            open_up(&s.join("out"));
            args.extend(["-d".into(), s.join("out").to_str().unwrap().into()]);
            outdir = s.join("out");
        }
    }
    args.extend(["-r".into(), name.into()]);
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let (rc, _, e) = cli0(env, &s, "extract-xiso", &a);
    ensure!(rc != 101, "`extract-xiso {}` crashes: {}", args.join(" "), e);
    let all = snapshot(&s, Path::new("/nonexistent"));
    let kept = all.values().any(|v| v.as_ref() == Some(&orig));
    if rc != 0 {
        ensure!(kept, "`extract-xiso {}` fails ({}) and the original image is gone", args.join(" "), e);
        ensure!(must_fail || (name == "g.old" && outdir == s), "`extract-xiso {}` fails on a good image: {}", args.join(" "), e);
    } else {
        ensure!(!must_fail, "`extract-xiso {}` reports success on a damaged image or missing directory", args.join(" "));
        let out = outdir.join(name);
        let b = std::fs::read(&out).map_err(|x| format!("`extract-xiso {}`: no output at {:?}: {}", args.join(" "), out, x))?;
        oracle_matches(&b, &t, &format!("extract-xiso {}", args.join(" ")))?;
        if !del {
            let old = s.join(name).with_extension("old");
            ensure!(std::fs::read(&old).ok().as_ref() == Some(&orig), "`extract-xiso {}` does not keep the original as {:?}", args.join(" "), old);
        } else if name != "g.old" {
            ensure!(!s.join(name).with_extension("old").exists(), "-D leaves the original behind");
        }
    }
    let _ = std::fs::remove_dir_all(&s);
    Ok(true)
}
/// The output cannot be written completely: the original survives, also with -D.
pub fn c18_full(env: &Env, i: u64) -> R {
    let mut r = Rng::new(env.seed ^ 0x1818, i);
    let t = vec![Node { name: "big".into(), kind: Kind::File { len: r.range(200_000, 600_000), seed: i } }, Node { name: "z".into(), kind: Kind::File { len: 9, seed: i } }];
    let img = pack(&t)?.data;
    let s = scratch(env, "c18f", i);
    std::fs::write(s.join("g.iso"), &img).unwrap();
    let lim = r.below(img.len() as u64 / 1024 - 1) ;
    // a file-size limit makes writes past it fail
    let prog = env.cli.as_ref().unwrap().to_str().unwrap().to_string();
    let script = format!("trap '' XFSZ; ulimit -f {}; exec -a extract-xiso {} -D -r g.iso", lim, prog);
    let mut c = std::process::Command::new("/bin/bash");
    use std::os::unix::process::CommandExt;
    c.arg("-c").arg(&script).current_dir(&s).env_clear().env("PATH", "/usr/bin:/bin").stdin(std::process::Stdio::null());
    if unsafe { libc::geteuid() } == 0 {
        c.uid(65534).gid(65534);
    }
    let o = c.output().expect("bash");
    let all = snapshot(&s, Path::new("/nonexistent"));
    ensure!(all.values().any(|v| v.as_ref() == Some(&img)), "rewriting with room for only {} KiB of output loses the original image (exit {:?}, {})", lim, o.status.code(), String::from_utf8_lossy(&o.stderr));
    ensure!(!o.status.success(), "rewriting with room for only {} KiB of output reports success", lim);
    let _ = std::fs::remove_dir_all(&s);
    Ok(true)
}

// ---------------------------------------------------------------- C19
pub fn c19(env: &Env, i: u64) -> R {
    let mut r = Rng::new(env.seed ^ 0x19, i);
    let t = {
        let mut t = tree(env.seed ^ 0x19, i % 40 + 1, 20);
        t.truncate(12);
        t
    };
    if flatten(&t).keys().any(|p| p.len() > 900) {
        return Ok(false);
    }
    let s = scratch(env, "c19", i);
    write_host(&s.join("par/src"), &t);
    std::fs::create_dir_all(s.join("par/other")).unwrap();
    std::fs::create_dir_all(s.join("par/src/in")).ok();
    let img = pack(&t)?.data;
    std::fs::write(s.join("par/a.iso"), &img).unwrap();
    std::os::unix::fs::symlink("a.iso", s.join("par/link.iso")).unwrap();
    std::os::unix::fs::symlink("src", s.join("par/dlink")).unwrap();
    fn chown_all(p: &Path) {
        std::os::unix::fs::lchown(p, Some(65534), Some(65534)).ok();
        if p.is_dir() && !p.is_symlink() {
            for e in std::fs::read_dir(p).unwrap().flatten() {
                chown_all(&e.path());
            }
        }
    }
    chown_all(&s.join("par"));
    let abs = s.join("par").to_str().unwrap().to_string();
    let before = snapshot(&s.join("par"), Path::new("/nonexistent"));
    let spell = |r: &mut Rng, n: &str| -> String {
        match r.below(6) {
            0 => n.to_string(),
            1 => format!("./{}", n),
            2 => format!("other/../{}", n),
            3 => format!("{}/{}", abs, n),
            4 => format!("{}/./{}", abs, n),
            _ => format!("../par/{}", n),
        }
    };
    let img_src = ["a.iso", "link.iso"][r.below(2) as usize];
    let img_dst = ["a.iso", "link.iso"][r.below(2) as usize];
    let dir_src = ["src", "dlink", "src/"][r.below(3) as usize];
    // an output below the source directory; its directory exists, so every spelling can be resolved
    let dir_dst = ["src/out.iso", "src/in/out.iso", "dlink/out.iso", "src"][r.below(4) as usize];
    let existing = flatten(&t).into_iter().find(|(p, e)| matches!(e, Entry::File(..)) && p.len() < 200).map(|(p, _)| format!("src{}", p));
    let mut cases: Vec<(String, String)> = vec![(spell(&mut r, img_src), spell(&mut r, img_dst))];
    if dir_dst.starts_with("dlink") {
        // a not yet existing output below a symlink to the source is outside of the guarantee
    } else {
        // spelled plainly: the output does not exist yet, so it is compared as written
        cases.push((spell(&mut r, dir_src), if r.chance(1, 2) { dir_dst.to_string() } else { format!("{}/{}", abs, dir_dst) }));
    }
    if let Some(x) = existing {
        cases.push((spell(&mut r, dir_src), spell(&mut r, &x)));
    }
    for cmd in ["pack", "compress"] {
        for (a, b) in &cases {
            let (rc, _, e) = cli(env, &s.join("par"), &[cmd, a, b]);
            if let Some(x) = diff(&before, &snapshot(&s.join("par"), Path::new("/nonexistent"))) {
                return Err(format!("`{} {} {}`: {} (exit {}, {})", cmd, a, b, x, rc, e));
            }
            ensure!(rc != 0, "`{} {} {}` writes over or into its own source and reports success", cmd, a, b);
        }
    }
    // default output names never hit the source
    let (rc, _, e) = cli(env, &s.join("par"), &["pack", img_src]);
    ensure!(std::fs::read(s.join("par/a.iso")).unwrap() == img, "`pack {}` without an output path damages its source (exit {}, {})", img_src, rc, e);
    let _ = std::fs::remove_dir_all(&s);
    Ok(true)
}
pub fn c13_cli(env: &Env, i: u64) -> R {
    let t = tree(env.seed ^ 0x131, i, 40);
    let s = scratch(env, "c13", i);
    let d = pack(&t)?;
    std::fs::write(s.join("i.iso"), &d.data).unwrap();
    let (rc, o, e) = cli(env, &s, &["checksum", "-s", "i.iso"]);
    ensure!(rc == 0, "`checksum` exits {}: {}", rc, e);
    ensure!(o.split('\t').next() == Some(&hex(&model_checksum(&t))), "`checksum` prints {:?}", o);
    let _ = std::fs::remove_dir_all(&s);
    Ok(true)
}
