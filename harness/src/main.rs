//! Runs the executable contracts of one property on the real code.
//!   harness PROP --tier quick|thorough --seed N --out FILE --cli PATH [--secs N] [--replay SUITE:CASE]
mod dev;
mod gen;
mod oracle;
mod props;
mod props2;
use props::{Env, R};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

type F = fn(&Env, u64) -> R;
/// (name, function, quick cases, thorough cases, needs the command-line program)
fn suites(p: &str) -> Vec<(&'static str, F, u64, u64, bool)> {
    use props::*;
    use props2::*;
    match p {
        "C01" => vec![("pack-read", c01 as F, 20000, 200000, false), ("too-large", c03_big, 24, 120, false), ("cli", c01_cli, 120, 1200, true)],
        "C02" => vec![("lookup", c02 as F, 60000, 600000, false)],
        "C03" => vec![("layout", c03 as F, 40000, 500000, false), ("huge-files", c03_big, 24, 120, false)],
        "C04" => vec![("table", c04 as F, 60000, 600000, false), ("limit", c04_limit, 36, 180, false)],
        "C05" => vec![("codec", c05 as F, 50000, 900000, false)],
        "C06" => vec![("library", c06 as F, 60000, 600000, false), ("cli", c06_cli, 250, 3000, true)],
        "C07" => vec![("listings", c07 as F, 40000, 400000, false), ("cli", c07_cli, 150, 1500, true)],
        "C08" => vec![("reads", c08 as F, 30000, 300000, false), ("cli", c08_cli, 120, 1200, true)],
        "C09" => vec![("faults", c09 as F, 3000, 30000, false), ("cli", c09_cli, 200, 2000, true), ("shrinking-source", c09_shrink, 1, 1, false)],
        "C10" => vec![("offsets", c10 as F, 12000, 120000, false), ("cli", c10_cli, 60, 600, true)],
        "C11" => vec![("names", c11 as F, 100000, 1500000, false)],
        "C12" => vec![("sectors", c12 as F, 12000, 120000, false), ("device", c12_direct, 40000, 400000, false), ("cli", c12_cli, 80, 800, true)],
        "C13" => vec![("checksum", c13 as F, 15000, 150000, false), ("cli", c13_cli, 60, 600, true)],
        "C14" => vec![("escape", c14 as F, 616, 3080, true), ("plain", c14_plain, 64, 320, true)],
        "C16" => vec![("overlay", c16 as F, 100000, 1000000, false), ("malformed", c16_bad, 24, 24, false), ("cli", c16_cli, 60, 600, true)],
        "C17" => vec![("balance", c17 as F, 30000, 300000, false), ("orders", c17_perm, 12, 60, false)],
        "C18" => vec![("rewrite", c18 as F, 600, 6000, true), ("full", c18_full, 120, 1200, true)],
        "C19" => vec![("guard", c19 as F, 500, 5000, true)],
        _ => vec![],
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn one(f: F, env: &Env, case: u64) -> R {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(env, case))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let at = PANIC.with(|p| p.borrow().clone());
            Err(format!("panic: {} {}", m, at))
        }
    }
}
thread_local! { static PANIC: std::cell::RefCell<String> = Default::default(); }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = a[1].clone();
    let thorough = get("--tier").as_deref() == Some("thorough");
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 120 });
    let scratch = std::path::PathBuf::from(get("--scratch").unwrap_or_else(|| format!("/tmp/xdvdfs-harness-{}", std::process::id())));
    let cli = get("--cli").map(std::path::PathBuf::from);
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).unwrap();
    props::open_up(&scratch);
    // the unprivileged user runs a copy of the program
    let cli = cli.map(|c| {
        let d = scratch.join("bin-xdvdfs");
        std::fs::copy(&c, &d).unwrap();
        props::open_up(&d);
        d
    });
    std::panic::set_hook(Box::new(|i| {
        let s = i.location().map(|l| format!("({}:{})", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let mk = || Env { seed, scratch: scratch.clone(), cli: cli.clone(), thorough };
    let ss = suites(&prop);
    if ss.is_empty() {
        eprintln!("no executable contract for {}", prop);
        std::process::exit(2);
    }
    if let Some(rp) = get("--replay") {
        let (s, c) = rp.split_once(':').unwrap();
        let f = ss.iter().find(|x| x.0 == s).unwrap().1;
        let r = one(f, &mk(), c.parse().unwrap());
        let _ = std::fs::remove_dir_all(&scratch);
        match r {
            Ok(n) => println!("holds (nontrivial: {})", n),
            Err(e) => {
                println!("FAILS: {}", e);
                std::process::exit(1);
            }
        }
        return;
    }
    // jobs of all suites, interleaved
    let mut jobs: Vec<(usize, u64)> = vec![];
    for (k, s) in ss.iter().enumerate() {
        if s.4 && cli.is_none() {
            continue;
        }
        for c in 0..if thorough { s.3 } else { s.2 } {
            jobs.push((k, c));
        }
    }
    let n = jobs.len().max(1);
    jobs.sort_by_key(|(k, c)| {
        let tot = if thorough { ss[*k].3 } else { ss[*k].2 };
        (*c * n as u64 / tot, *k)
    });
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let t0 = Instant::now();
    let nthreads = 8;
    let fails: Mutex<Vec<(usize, u64, String)>> = Mutex::new(vec![]);
    let counts: Mutex<Vec<(u64, u64)>> = Mutex::new(vec![(0, 0); ss.len()]);
    let busy: Vec<Mutex<Option<(usize, u64, Instant)>>> = (0..nthreads).map(|_| Mutex::new(None)).collect();
    let done = AtomicUsize::new(0);
    let samples: Mutex<Vec<(usize, u64, String)>> = Mutex::new(vec![]);
    let out = get("--out");
    let report = |fails: &Vec<(usize, u64, String)>, counts: &Vec<(u64, u64)>| {
        let mut o = String::from("{");
        o.push_str(&format!("\"property\":{},\"seed\":{},\"seconds\":{:.1},\"jobs\":{},\"evaluations\":{},\"distinct_nontrivial\":{},", js(&prop), seed, t0.elapsed().as_secs_f64(), jobs.len(), counts.iter().map(|c| c.0).sum::<u64>(), counts.iter().map(|c| c.1).sum::<u64>()));
        o.push_str("\"suites\":[");
        for (k, s) in ss.iter().enumerate() {
            if k > 0 {
                o.push(',');
            }
            o.push_str(&format!("{{\"name\":{},\"evaluations\":{},\"nontrivial\":{}}}", js(s.0), counts[k].0, counts[k].1));
        }
        o.push_str("],\"samples\":[");
        for (i, (k, c, m)) in samples.lock().unwrap().iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&format!("{{\"suite\":{},\"case\":{},\"made_of\":{}}}", js(ss[*k].0), c, js(m)));
        }
        o.push_str("],\"failures\":[");
        for (i, (k, c, m)) in fails.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&format!("{{\"suite\":{},\"case\":{},\"message\":{}}}", js(ss[*k].0), c, js(m)));
        }
        o.push_str("]}");
        if let Some(p) = &out {
            std::fs::write(p, &o).unwrap();
        } else {
            println!("{}", o);
        }
    };
    std::thread::scope(|sc| {
        for w in 0..nthreads {
            let (next, stop, fails, counts, busy, done, jobs, ss, mk, samples) = (&next, &stop, &fails, &counts, &busy, &done, &jobs, &ss, &mk, &samples);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    let env = mk();
                    while !stop.load(SeqCst) && t0.elapsed().as_secs() < secs {
                        let i = next.fetch_add(1, SeqCst);
                        let Some(&(k, c)) = jobs.get(i) else { break };
                        *busy[w].lock().unwrap() = Some((k, c, Instant::now()));
                        gen::DESC.with(|d| d.borrow_mut().clear());
                        let r = one(ss[k].1, &env, c);
                        if c % 5 == 3 && matches!(r, Ok(true)) {
                            let mut s = samples.lock().unwrap();
                            if s.iter().filter(|x| x.0 == k).count() < 2 {
                                s.push((k, c, gen::DESC.with(|d| d.borrow().clone())));
                            }
                        }
                        *busy[w].lock().unwrap() = None;
                        let mut cs = counts.lock().unwrap();
                        cs[k].0 += 1;
                        match r {
                            Ok(true) => cs[k].1 += 1,
                            Ok(false) => {}
                            Err(m) => {
                                let mut f = fails.lock().unwrap();
                                f.push((k, c, m));
                                if f.iter().filter(|x| !x.2.starts_with("finding ")).count() >= 3 {
                                    stop.store(true, SeqCst);
                                }
                            }
                        }
                    }
                    done.fetch_add(1, SeqCst);
                })
                .unwrap();
        }
        // watchdog
        while done.load(SeqCst) < nthreads {
            std::thread::sleep(Duration::from_millis(20));
            for b in &busy {
                let x = *b.lock().unwrap();
                if let Some((k, c, t)) = x {
                    if t.elapsed().as_secs() > 150 {
                        let mut f = fails.lock().unwrap();
                        f.push((k, c, "does not finish within 150 s".into()));
                        report(&f, &counts.lock().unwrap());
                        std::process::exit(1);
                    }
                }
            }
        }
    });
    let f = fails.into_inner().unwrap();
    let mut f2 = f.clone();
    f2.sort_by_key(|x| x.1);
    report(&f2, &counts.into_inner().unwrap());
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(if f2.is_empty() { 0 } else { 1 });
}
