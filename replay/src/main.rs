mod alloc;
mod gen;
mod oracle;
mod spec;
mod world;

use std::{collections::BTreeMap, fs::File, io::Write, os::fd::FromRawFd, time::Instant};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
/// The program logs to stdout when it runs natively: keep stdout for results
fn quiet() -> File {
    use std::os::fd::AsRawFd;
    let null = File::options().write(true).open("/dev/null").unwrap();
    unsafe {
        let out = dup(1);
        dup2(null.as_raw_fd(), 1);
        File::from_raw_fd(out)
    }
}

fn main() {
    let mut out = quiet();
    world::init();
    let a: Vec<String> = std::env::args().collect();
    let arg = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    match a.get(1).map(|s| s.as_str()) {
        // slashing-replay run CASE.json : judge one recorded case
        Some("run") => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let c = world::Case::from_json(v.get("case").unwrap_or(&v));
            let o = c.run();
            let _ = writeln!(out, "note: {}\noutcome: {:?}", c.note, o.res);
            let j = oracle::judge(&c, &o);
            for (p, m) in &j {
                let _ = writeln!(out, "FAIL {p}: {m}");
            }
            let only = arg("--property");
            let bad = j.iter().any(|(p, _)| only.as_deref().map_or(true, |q| q == *p));
            std::process::exit(bad as i32);
        }
        // slashing-replay search --properties C01,C02 --seconds N --seed S --dict FILE --out FILE
        Some("search") => {
            let props: Option<Vec<String>> =
                arg("--properties").map(|s| s.split(',').map(String::from).collect());
            let secs: f64 = arg("--seconds").map_or(10.0, |s| s.parse().unwrap());
            let seed: u64 = arg("--seed").map_or(1, |s| s.parse().unwrap());
            let max: u64 = arg("--cases").map_or(u64::MAX, |s| s.parse().unwrap());
            let dict: Vec<u64> = arg("--dict")
                .map(|f| {
                    std::fs::read_to_string(f).unwrap().split_whitespace().filter_map(|x| x.parse().ok()).collect()
                })
                .unwrap_or_default();
            let mut g = gen::Gen { r: gen::Rng(seed.wrapping_mul(0x1234567)), dict };
            let t = Instant::now();
            let mut n = 0u64;
            let mut accepted = std::collections::HashSet::new();
            let mut sample = None;
            let mut stats: BTreeMap<String, [u64; 5]> = BTreeMap::new();
            while t.elapsed().as_secs_f64() < secs && n < max {
                n += 1;
                let c = g.case();
                let o = c.run();
                let s = stats.entry(c.note.clone()).or_default();
                s[match o.res {
                    world::Res::Ok => 0,
                    world::Res::Err(_) => 1,
                    world::Res::Panic(_) => 2,
                    world::Res::NotRun(_) => 3,
                    world::Res::RuntimeReject(_) => 4,
                }] += 1;
                if matches!(o.res, world::Res::Ok) {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    c.to_json().to_string().hash(&mut h);
                    accepted.insert(h.finish());
                    sample.get_or_insert_with(|| c.note.clone());
                }
                let j = oracle::judge(&c, &o);
                for (p, m) in &j {
                    let client = c.note.contains("+client");
                    let p = if *p == "C03" && client && props.as_ref().map_or(false, |l| l.iter().any(|x| x == "C13")) { "C13" } else { p };
                    if props.as_ref().map_or(true, |l| l.iter().any(|x| x == p)) {
                        let _ = writeln!(out, "FOUND {p} after {n} cases ({}): {m}", c.note);
                        if let Some(f) = arg("--out") {
                            let v = serde_json::json!({"property": p, "message": m, "case": c.to_json()});
                            std::fs::write(f, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                        }
                        std::process::exit(1);
                    }
                }
            }
            let _ = writeln!(out, "searched {n} cases, nothing found, {} distinct accepted, e.g. {}", accepted.len(), sample.unwrap_or_default());
            if a.iter().any(|x| x == "--stats") {
                for (k, v) in stats {
                    let _ = writeln!(out, "{k:40} ok {} err {} panic {} notrun {} rt {}", v[0], v[1], v[2], v[3], v[4]);
                }
            }
        }
        _ => {
            eprintln!("usage: run CASE.json | search ...");
            std::process::exit(2);
        }
    }
}
