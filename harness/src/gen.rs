//! Deterministic generation of source trees.
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, case: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ case.wrapping_mul(0xd1342543de82ef95));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

#[derive(Clone, Debug)]
pub enum Kind {
    File { len: u64, seed: u64 },
    Dir(Vec<Node>),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub name: String,
    pub kind: Kind,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Entry {
    Dir,
    File(u64, u64),
}

pub fn byte(seed: u64, i: u64) -> u8 {
    // never long runs of one value; every (seed, position) pair is distinctive
    let x = (i.wrapping_add(seed.wrapping_mul(0x9e3779b97f4a7c15))).wrapping_mul(0xbf58476d1ce4e5b9);
    ((x >> 29) ^ (x >> 43)) as u8
}

pub fn bytes(seed: u64, len: u64) -> Vec<u8> {
    (0..len).map(|i| byte(seed, i)).collect()
}

/// All paths below the root ("/a/b"), with what they are.
pub fn flatten(root: &[Node]) -> BTreeMap<String, Entry> {
    fn go(prefix: &str, l: &[Node], out: &mut BTreeMap<String, Entry>) {
        for n in l {
            let p = format!("{}/{}", prefix, n.name);
            match &n.kind {
                Kind::File { len, seed } => {
                    out.insert(p, Entry::File(*len, *seed));
                }
                Kind::Dir(c) => {
                    out.insert(p.clone(), Entry::Dir);
                    go(&p, c, out);
                }
            }
        }
    }
    let mut out = BTreeMap::new();
    go("", root, &mut out);
    out
}

pub fn describe(root: &[Node]) -> String {
    let m = flatten(root);
    let mut s = String::new();
    for (i, (p, e)) in m.iter().enumerate() {
        if i > 60 {
            s.push_str(&format!("  ... {} entries in all\n", m.len()));
            break;
        }
        match e {
            Entry::Dir => s.push_str(&format!("  dir  {:?}\n", p)),
            Entry::File(l, sd) => s.push_str(&format!("  file {:?} len {} content-seed {}\n", p, l, sd)),
        }
    }
    s
}

const ASCII: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.~[]{}^`!#$%&'()+,;=@ ";
pub const WIDE: &[char] = &[
    'é', 'É', 'ß', 'ÿ', 'Ÿ', '×', 'à', 'Æ', '€', 'Š', 'š', 'ž', 'Ž', '™', '‰', 'ƒ', '“', '”', '•', '…', 'þ', 'Þ', '÷', '¡',
    '\u{a0}', 'µ', '\u{81}', '\u{8d}', '\u{9d}',
];

pub fn fold(s: &str) -> Vec<char> {
    s.chars().map(|c| if c.is_ascii_lowercase() { ((c as u8) - 32) as char } else { c }).collect()
}

pub fn rand_name(r: &mut Rng, style: u64, len: u64) -> String {
    let mut s = String::new();
    let mut n = 0;
    while n < len {
        let wide = match style {
            0 => false,
            1 => r.chance(1, 6),
            _ => r.chance(1, 2),
        };
        let c = if wide { *r.pick(WIDE) } else { *r.pick(ASCII) as char };
        if s.len() + c.len_utf8() > 255 {
            break;
        }
        s.push(c);
        n += 1;
    }
    if s == "." || s == ".." || s.is_empty() || s.trim().is_empty() {
        s = format!("n{}", r.below(100000));
    }
    s
}

fn rand_len(r: &mut Rng, big: bool) -> u64 {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => 2047,
        3 => 2048,
        4 => 2049,
        5 => 4096,
        6 => r.range(1, 100),
        7 => r.range(1, 6000),
        8 => 2048 * r.range(1, 5),
        9 => 2048 * r.range(1, 5) + r.below(2048),
        10 if big => r.range(60_000, 140_000),
        _ => r.range(1, 3000),
    }
}

struct Ctx {
    style: u64,
    namelen: (u64, u64),
    big: bool,
}

fn unique_names(r: &mut Rng, c: &Ctx, n: usize) -> Vec<String> {
    let mut seen = std::collections::BTreeSet::new();
    let mut out = Vec::new();
    let mut tries = 0;
    let mut extra = 0;
    while out.len() < n {
        let len = r.range(c.namelen.0, c.namelen.1 + extra);
        let nm = rand_name(r, c.style, len);
        tries += 1;
        if tries % 50 == 0 && c.namelen.1 + extra < 200 {
            extra += 1;
        }
        if seen.insert(fold(&nm)) {
            out.push(nm);
        }
    }
    out
}

fn rand_dir(r: &mut Rng, c: &Ctx, depth: u64, budget: &mut i64, fan: u64) -> Vec<Node> {
    let n = r.below(fan + 1).min((*budget).max(0) as u64) as usize;
    *budget -= n as i64;
    let names = unique_names(r, c, n);
    let mut out = Vec::new();
    for name in names {
        let kind = if depth > 0 && r.chance(2, 5) {
            Kind::Dir(rand_dir(r, c, depth - 1, budget, fan))
        } else {
            Kind::File { len: rand_len(r, c.big), seed: r.next() >> 8 }
        };
        out.push(Node { name, kind });
    }
    out
}

fn file(name: String, len: u64, r: &mut Rng) -> Node {
    Node { name, kind: Kind::File { len, seed: r.next() >> 8 } }
}

/// Trees that packing must accept: unique (ASCII-case-insensitive) names of at most 255 UTF-8
/// bytes in the on-disk code page.
thread_local! {
    /// what the case under way was made of (reported as a sample)
    pub static DESC: std::cell::RefCell<String> = Default::default();
}
pub fn note(s: String) {
    DESC.with(|d| {
        let mut d = d.borrow_mut();
        if d.len() < 400 {
            if !d.is_empty() {
                d.push_str(" | ");
            }
            d.extend(s.chars().take(400));
        }
    })
}

pub fn tree(seed: u64, case: u64, size: u64) -> Vec<Node> {
    let t = tree_(seed, case, size);
    note(describe(&t));
    t
}

fn tree_(seed: u64, case: u64, size: u64) -> Vec<Node> {
    let mut r = Rng::new(seed, case);
    let r = &mut r;
    match case {
        0 => return vec![],
        1 => return vec![file("a".into(), 0, r)],
        2 => return vec![file("a".into(), 1, r), file("B".into(), 2048, r)],
        3 => {
            return vec![
                Node { name: "empty".into(), kind: Kind::Dir(vec![]) },
                file("z".into(), 10, r),
                Node { name: "A".into(), kind: Kind::Dir(vec![Node { name: "A".into(), kind: Kind::Dir(vec![file("A".into(), 5, r)]) }]) },
            ]
        }
        4 => {
            // names around the ASCII case gap, and prefixes of each other
            let ns = ["a", "A_", "_", "[", "a[", "Z", "z_", "^", "`", "{", "AB", "abC", "ab_", "ab-", "@", "a.b", "a b", "a~", "é", "É", "€"];
            return ns.iter().map(|n| file(n.to_string(), r.below(3000), r)).collect();
        }
        5 => {
            // directories whose path order interleaves unusually
            let d = |n: &str, r: &mut Rng| Node {
                name: n.into(),
                kind: Kind::Dir(vec![file("f".into(), r.below(5000), r), Node { name: "a".into(), kind: Kind::Dir(vec![file("g".into(), r.below(5000), r)]) }]),
            };
            return vec![d("a", r), d("a.b", r), d("a b", r), d("ab", r), d("B", r), d("b!", r), d("é", r)];
        }
        6 => {
            // deep nesting
            let mut n = vec![file("leaf".into(), 3000, r)];
            for i in 0..40 {
                n = vec![Node { name: format!("d{}", i), kind: Kind::Dir(n) }, file(format!("s{}", i), i * 100, r)];
            }
            return n;
        }
        _ => {}
    }
    match case % 8 {
        0 => {
            // wide directory, chosen insertion order
            let n = r.range(2, size.max(3)) as usize;
            let c = Ctx { style: r.below(3), namelen: (1, r.range(1, 12)), big: false };
            let mut names = unique_names(r, &c, n);
            match r.below(5) {
                0 => names.sort_by_key(|n| fold(n)),
                1 => {
                    names.sort_by_key(|n| fold(n));
                    names.reverse();
                }
                2 => {
                    names.sort_by_key(|n| fold(n));
                    let m: Vec<_> = (0..n).map(|i| if i % 2 == 0 { names[i / 2].clone() } else { names[n - 1 - i / 2].clone() }).collect();
                    names = m;
                }
                3 => {
                    names.sort_by_key(|n| fold(n));
                    let m: Vec<_> = (0..n).map(|i| if i % 2 == 0 { names[(n - 1) / 2 - i / 2].clone() } else { names[(n - 1) / 2 + i / 2 + 1].clone() }).collect();
                    names = m;
                }
                _ => {}
            }
            names.into_iter().map(|nm| { let l = if r.chance(1, 3) { rand_len(r, false) } else { 0 }; if r.chance(1, 10) { Node { name: nm, kind: Kind::Dir(vec![]) } } else { file(nm, l, r) } }).collect()
        }
        1 => {
            // all names of one length: entry sizes sweep the sector boundary
            let l = r.range(1, 255);
            let n = r.range(2, (20_000 / (l + 14)).clamp(3, size.max(3))) as usize;
            let c = Ctx { style: 0, namelen: (l, l), big: false };
            unique_names(r, &c, n).into_iter().map(|nm| file(nm, r.below(3), r)).collect()
        }
        2 => {
            // mixed name lengths, several sectors of entries, in a subdirectory
            let n = r.range(10, size.max(11)) as usize;
            let hi = r.range(2, 250);
            let c = Ctx { style: r.below(3), namelen: (1, hi), big: false };
            let inner: Vec<Node> = unique_names(r, &c, n).into_iter().map(|nm| file(nm, r.below(20), r)).collect();
            let k = r.below(3);
            let mut out = vec![Node { name: "Sub".into(), kind: Kind::Dir(inner) }];
            for i in 0..k {
                out.push(file(format!("x{}", i), 2048 * i + 7, r));
            }
            out
        }
        3 => {
            // a table that ends exactly on, just before, or just after a sector boundary
            let target = 2048 * r.range(1, 3) as i64 + [-16i64, -12, -8, -4, 0, 4, 16][r.below(7) as usize];
            let mut out = Vec::new();
            let mut left = target;
            let mut i = 0;
            while left > 0 {
                let e = if left >= 300 { (r.range(5, 60) * 4) as i64 } else if left >= 40 { (left / 2 + 3) & !3 } else { left.max(20) & !3 };
                let nl = ((e - 14).max(3)) as usize;
                let mut nm = format!("{:03}", i);
                while nm.len() < nl.min(250) {
                    nm.push((b'a' + r.below(26) as u8) as char);
                }
                left -= ((14 + nm.len() as i64) + 3) & !3;
                out.push(file(nm, r.below(5), r));
                i += 1;
            }
            if r.chance(1, 2) {
                r.shuffle(&mut out);
            }
            if r.chance(1, 2) {
                return vec![Node { name: "dir".into(), kind: Kind::Dir(out) }, file("after".into(), 2500, r)];
            }
            out
        }
        4 => {
            let c = Ctx { style: r.below(3), namelen: (1, 8), big: true };
            let mut b = 60;
            rand_dir(r, &c, 5, &mut b, 6)
        }
        5 => {
            // every small insertion order gets its turn: a permutation of up to 8 names
            let n = r.range(2, 9) as usize;
            let mut v: Vec<Node> = (0..n).map(|i| file(((b'a' + i as u8) as char).to_string(), i as u64, r)).collect();
            r.shuffle(&mut v);
            v
        }
        6 => {
            let c = Ctx { style: 1, namelen: (1, 3), big: false };
            let mut b = 120;
            rand_dir(r, &c, 3, &mut b, 12)
        }
        _ => {
            let c = Ctx { style: r.below(3), namelen: (1, r.range(1, 30)), big: r.chance(1, 4) };
            let mut b = r.range(1, 80) as i64;
            let fan = r.range(1, 20);
            let d = r.below(4);
            rand_dir(r, &c, d, &mut b, fan)
        }
    }
}
