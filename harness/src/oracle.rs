//! Independent reading of the on-disk format, written from the format description, not from the library.
use crate::gen::fold;
use std::collections::{BTreeMap, BTreeSet};

const HI: [char; 32] = [
    '\u{20ac}', '\u{81}', '\u{201a}', '\u{192}', '\u{201e}', '\u{2026}', '\u{2020}', '\u{2021}', '\u{2c6}', '\u{2030}', '\u{160}',
    '\u{2039}', '\u{152}', '\u{8d}', '\u{17d}', '\u{8f}', '\u{90}', '\u{2018}', '\u{2019}', '\u{201c}', '\u{201d}', '\u{2022}',
    '\u{2013}', '\u{2014}', '\u{2dc}', '\u{2122}', '\u{161}', '\u{203a}', '\u{153}', '\u{9d}', '\u{17e}', '\u{178}',
];
pub fn decode(b: &[u8]) -> String {
    b.iter().map(|&c| if (0x80..0xa0).contains(&c) { HI[(c - 0x80) as usize] } else { c as char }).collect()
}
pub fn encode(s: &str) -> Option<Vec<u8>> {
    s.chars()
        .map(|c| {
            if (c as u32) < 0x80 || ((c as u32) >= 0xa0 && (c as u32) < 0x100) {
                Some(c as u32 as u8)
            } else {
                HI.iter().position(|&h| h == c).map(|p| 0x80 + p as u8)
            }
        })
        .collect()
}

pub trait Src {
    fn get(&self, off: u64, len: u64) -> Option<Vec<u8>>;
    fn len(&self) -> u64;
}
impl Src for &[u8] {
    fn get(&self, off: u64, len: u64) -> Option<Vec<u8>> {
        let e = off.checked_add(len)?;
        if e > <[u8]>::len(self) as u64 {
            return None;
        }
        Some(self[off as usize..e as usize].to_vec())
    }
    fn len(&self) -> u64 {
        <[u8]>::len(self) as u64
    }
}
impl Src for &crate::dev::LogDev {
    fn get(&self, off: u64, len: u64) -> Option<Vec<u8>> {
        let (o, b) = self.tables.range(..=off).next_back()?;
        let s = (off - o) as usize;
        if s + len as usize > b.len() {
            return None;
        }
        Some(b[s..s + len as usize].to_vec())
    }
    fn len(&self) -> u64 {
        self.len
    }
}

#[derive(Clone, Debug)]
pub struct PEnt {
    pub name: String,
    pub raw: Vec<u8>,
    pub off: u32,
    pub left: u16,
    pub right: u16,
    pub sector: u32,
    pub size: u32,
    pub attr: u8,
}
#[derive(Clone, Debug)]
pub struct PDir {
    pub sector: u32,
    pub size: u32,
    pub ents: Vec<PEnt>,
}

#[derive(Default, Debug)]
pub struct Parsed {
    /// "" is the root
    pub dirs: BTreeMap<String, PDir>,
    /// paths of everything below the root
    pub all: BTreeMap<String, PEnt>,
    pub problems: Vec<(&'static str, String)>,
    pub root: (u32, u32),
    pub max_table: u64,
}
impl Parsed {
    pub fn problem(&self, cats: &[&str]) -> Option<String> {
        self.problems.iter().find(|(c, _)| cats.contains(c)).map(|(c, s)| format!("[{}] {}", c, s))
    }
}

const MAGIC: &[u8] = b"MICROSOFT*XBOX*MEDIA";
fn u16le(b: &[u8]) -> u16 {
    b[0] as u16 | (b[1] as u16) << 8
}
fn u32le(b: &[u8]) -> u32 {
    b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24
}

pub fn parse(img: &dyn Src) -> Parsed {
    let mut p = Parsed::default();
    let Some(h) = img.get(32 * 2048, 2048) else {
        p.problems.push(("header", "no sector 32".into()));
        return p;
    };
    if &h[0..20] != MAGIC || &h[2028..2048] != MAGIC {
        p.problems.push(("header", "volume magic missing at sector 32".into()));
        return p;
    }
    p.root = (u32le(&h[20..24]), u32le(&h[24..28]));
    let mut work = vec![(String::new(), p.root.0, p.root.1)];
    let mut regions: Vec<(u64, u64, String)> = vec![(32, 33, "header".into())];
    while let Some((path, sector, size)) = work.pop() {
        if p.dirs.len() > 200_000 {
            p.problems.push(("struct", "runaway".into()));
            break;
        }
        let ents = table(&mut p, img, &path, sector, size);
        regions.push((sector as u64, sector as u64 + (size as u64).div_ceil(2048).max(1), format!("table of {:?}", path)));
        for e in &ents {
            let cp = format!("{}/{}", path, e.name);
            if p.all.insert(cp.clone(), e.clone()).is_some() {
                p.problems.push(("struct", format!("duplicate path {:?}", cp)));
            }
            if e.attr & 0x10 != 0 {
                if e.size == 0 || e.size % 2048 != 0 {
                    p.problems.push(("format", format!("directory {:?} has recorded size {}", cp, e.size)));
                }
                work.push((cp, e.sector, e.size));
            } else if e.size > 0 {
                regions.push((e.sector as u64, e.sector as u64 + (e.size as u64).div_ceil(2048), format!("data of {:?}", cp)));
                if (e.sector as u64) * 2048 + e.size as u64 > img.len() {
                    p.problems.push(("layout", format!("{:?} extends past the end of the image", cp)));
                }
            }
        }
        p.dirs.insert(path, PDir { sector, size, ents });
    }
    regions.sort();
    for w in regions.windows(2) {
        if w[0].1 > w[1].0 {
            p.problems.push(("layout", format!("{} (sectors {}..{}) overlaps {} (sectors {}..{})", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1)));
        }
    }
    if regions[0].0 < 32 {
        p.problems.push(("layout", format!("{} lies before the header", regions[0].2)));
    }
    if img.len() % 65536 != 0 {
        p.problems.push(("layout", format!("image length {} is not a multiple of 64 KiB", img.len())));
    }
    p
}

fn table(p: &mut Parsed, img: &dyn Src, path: &str, sector: u32, size: u32) -> Vec<PEnt> {
    let span = (size as u64).div_ceil(2048) * 2048;
    p.max_table = p.max_table.max(size as u64);
    let Some(t) = img.get(sector as u64 * 2048, span) else {
        p.problems.push(("struct", format!("table of {:?} unreadable", path)));
        return vec![];
    };
    if size == 0 {
        p.problems.push(("format", format!("table of {:?} has recorded size 0", path)));
        return vec![];
    }
    if t.iter().all(|&b| b == 0xff) {
        if size != 2048 {
            p.problems.push(("format", format!("empty table of {:?} recorded as {} bytes", path, size)));
        }
        return vec![];
    }
    // walk
    let mut out: Vec<PEnt> = vec![];
    let mut idx: BTreeMap<u32, usize> = BTreeMap::new();
    let mut stack = vec![0u32];
    let mut bad = false;
    while let Some(off) = stack.pop() {
        if idx.contains_key(&off) {
            p.problems.push(("struct", format!("{:?}: entry at {} has two parents or a cycle", path, off)));
            bad = true;
            continue;
        }
        let o = off as usize;
        if o + 14 > t.len() || off as u64 + 14 > size as u64 {
            p.problems.push(("struct", format!("{:?}: child offset {} out of the table (size {})", path, off, size)));
            bad = true;
            continue;
        }
        let e = &t[o..o + 14];
        if e.iter().all(|&b| b == 0xff) || e.iter().all(|&b| b == 0) {
            p.problems.push(("struct", format!("{:?}: child offset {} points at an empty record", path, off)));
            bad = true;
            continue;
        }
        let n = e[13] as usize;
        if o + 14 + n > t.len() || o + 14 + n > size as usize {
            p.problems.push(("struct", format!("{:?}: name at {} runs out of the table", path, off)));
            bad = true;
            continue;
        }
        let raw = t[o + 14..o + 14 + n].to_vec();
        let ent = PEnt { name: decode(&raw), raw, off, left: u16le(&e[0..2]), right: u16le(&e[2..4]), sector: u32le(&e[4..8]), size: u32le(&e[8..12]), attr: e[12] };
        idx.insert(off, out.len());
        if ent.left != 0 {
            stack.push(ent.left as u32 * 4);
        }
        if ent.right != 0 {
            stack.push(ent.right as u32 * 4);
        }
        out.push(ent);
    }
    if bad {
        return out;
    }
    // byte layout
    let mut pos = 0usize;
    let mut last_end = 0usize;
    for (&off, &i) in idx.iter() {
        let o = off as usize;
        let end = o + 14 + out[i].raw.len();
        if o % 4 != 0 {
            p.problems.push(("format", format!("{:?}: entry at {} is not 4-byte aligned", path, o)));
        }
        if o < pos {
            p.problems.push(("format", format!("{:?}: entry at {} overlaps its predecessor", path, o)));
        } else if t[pos..o].iter().any(|&b| b != 0xff) {
            p.problems.push(("format", format!("{:?}: gap before entry at {} is not filled with 0xff (or holds an unreachable entry)", path, o)));
        }
        if o / 2048 != (end - 1) / 2048 {
            p.problems.push(("format", format!("{:?}: entry at {}..{} crosses a sector boundary", path, o, end)));
        }
        let al = (last_end + 3) & !3;
        if o != al && o != (al + 2047) / 2048 * 2048 {
            p.problems.push(("format", format!("{:?}: entry at {} does not follow its predecessor (ending at {})", path, o, last_end)));
        }
        last_end = end;
        pos = end;
    }
    if t[pos..].iter().any(|&b| b != 0xff) {
        p.problems.push(("format", format!("{:?}: bytes after the last entry are not 0xff", path)));
    }
    let fin = (last_end + 3) & !3;
    let ok_size = if path.is_empty() { size as usize >= last_end && size as usize <= fin.div_ceil(2048) * 2048 } else { size as usize == fin.div_ceil(2048) * 2048 };
    if !ok_size {
        p.problems.push(("format", format!("{:?}: recorded size {} but entries end at {}", path, size, last_end)));
    }
    for e in &out {
        if e.attr != 0x10 && e.attr != 0x20 {
            p.problems.push(("format", format!("{:?}: entry {:?} has attributes {:#x}", path, e.name, e.attr)));
        }
    }
    // search order and balance
    fn go(path: &str, off: u32, idx: &BTreeMap<u32, usize>, out: &[PEnt], lo: Option<&Vec<char>>, hi: Option<&Vec<char>>, pr: &mut Vec<(&'static str, String)>) -> i32 {
        let e = &out[idx[&off]];
        let f = fold(&e.name);
        if lo.is_some_and(|l| *l >= f) || hi.is_some_and(|h| *h <= f) {
            pr.push(("order", format!("{:?}: entry {:?} is on the wrong side of an ancestor", path, e.name)));
        }
        let l = if e.left != 0 { go(path, e.left as u32 * 4, idx, out, lo, Some(&f), pr) } else { 0 };
        let r = if e.right != 0 { go(path, e.right as u32 * 4, idx, out, Some(&f), hi, pr) } else { 0 };
        if (l - r).abs() > 1 {
            pr.push(("balance", format!("{:?}: subtrees of {:?} have heights {} and {}", path, e.name, l, r)));
        }
        1 + l.max(r)
    }
    let mut pr = vec![];
    if out.len() < 100_000 {
        go(path, 0, &idx, &out, None, None, &mut pr);
    }
    p.problems.extend(pr);
    let folds: BTreeSet<_> = out.iter().map(|e| fold(&e.name)).collect();
    if folds.len() != out.len() {
        p.problems.push(("order", format!("{:?}: two names differ only by ASCII case", path)));
    }
    out
}
