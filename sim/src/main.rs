#![feature(alloc_error_hook)]
#![allow(static_mut_refs, clippy::all)]
use dctinst::{alloc, engine, num, raw, refr, report, rng, ser, umem};
extern crate dctinst as inst;
mod drive;
mod props;
mod spec;
mod stream;
mod world;

use drive::*;

#[global_allocator]
static GLOB: alloc::Glob = alloc::Glob;

fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // identical addresses in every process: replays must not depend on address-space randomisation
    unsafe {
        let cur = raw::personality(0xffff_ffff);
        if cur & 0x0040_0000 == 0 && std::env::var_os("DCTSIM_ASLR").is_none() {
            raw::personality((cur | 0x0040_0000) as u64);
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new(std::env::current_exe().expect("exe")).args(&a[1..]).env("DCTSIM_ASLR", "1").exec();
            eprintln!("exec: {}", e);
            std::process::exit(3);
        }
    }
    engine::detect(&|| { std::hint::black_box(inst::probe(std::hint::black_box(&mut [1, 2, 3]))); });
    refr::init();
    report::init();
    world::base_init();
    world::install_hooks();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("part") => part(&a),
        Some("replay") => replay(&a),
        Some("selftest") => { println!("reference transforms agree within {:.3} envelopes", refr::selftest()); 0 }
        Some("digest") => {
            let c = cfg(&a);
            let (t, b) = batch(&c);
            println!("{} runs {} digest {:016x} distinct {} bad {:?} maxerr {:.3}", c.prop, t.runs, t.digest, t.traces.len(), b, t.maxerr);
            0
        }
        Some("calib") => {
            let n = arg(&a, "--max").map_or(1500, |s| s.parse().expect("number"));
            match arg(&a, "--num").as_deref() { Some("f64") => world::calibrate::<f64>(n), Some("f32") => world::calibrate::<f32>(n), _ => world::calibrate::<num::Sim64>(n) }
            0
        }
        Some("show") => { let c = cfg(&a); println!("{}", describe(&gen(&c.prop, c.seed, c.from, c.thorough))); 0 }
        _ => { eprintln!("usage: dctsim check|part|replay|digest|show ..."); 3 }
    };
    std::process::exit(code);
}
fn cfg(a: &[String]) -> Cfg {
    let prop = arg(a, "--prop").expect("--prop");
    let seed = arg(a, "--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = arg(a, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let dir = arg(a, "--dir").unwrap_or_else(|| "/verif".into());
    props::FIRST.store(arg(a, "--first").map_or(0, |s| s.parse().expect("number")), std::sync::atomic::Ordering::SeqCst);
    let num = |k: &str, d: u64| arg(a, k).map_or(d, |s| s.parse().expect("number"));
    let known = known(&format!("{}/known_findings.txt", dir), &prop).into_iter().map(|(a, b, _)| (a, b)).collect();
    Cfg { seed, thorough: tier == "thorough", from: num("--from", 0), runs: num("--runs", 1000), workers: num("--workers", std::thread::available_parallelism().map_or(8, |n| n.get() as u64)) as usize,
        max_secs: num("--max-secs", 300), dir, known, label: arg(a, "--label").unwrap_or_else(|| "release".into()), minimise: !a.iter().any(|x| x == "--raw"), prop }
}
/// report one violation: minimise, write the replay file, confirm it in a fresh process
fn confirm(c: &Cfg, index: u64, class: &str, msg: &str) -> i32 {
    let spec = gen(&c.prop, c.seed, index, c.thorough);
    let m = if c.minimise { minimise(&spec, class) } else { spec.clone() };
    let _ = std::fs::create_dir_all(format!("{}/replays", c.dir));
    let path = format!("{}/replays/{}-{:08x}.replay", c.dir, c.prop, selfhash(&m) as u32);
    let mut chosen = None;
    for s in [&m, &spec] {
        let (cl, ms) = match run_once(s, false) { Out::Violation(a, b) => (a, b), _ => continue };
        if cl != class { continue; }
        write_replay(&path, &c.label, &c.prop, c.seed, index, &cl, &ms, s);
        let st = std::process::Command::new(std::env::current_exe().expect("exe")).args(["replay", &path, "--quiet"]).stdout(std::process::Stdio::null()).status();
        if st.map_or(false, |s| s.code() == Some(1)) { chosen = Some(ms); break; }
    }
    let (note, ms) = match chosen { Some(m) => ("replayed in a fresh process", m), None => {
        write_replay(&path, &c.label, &c.prop, c.seed, index, class, msg, &spec);
        ("NOT reproduced in a fresh process", msg.to_string())
    } };
    println!("{} [{} build] seed {} run {}: {}: {}", c.prop, c.label, c.seed, index, class, ms);
    println!("replay file {}", note);
    println!("VIOLATION property={} replay={}", c.prop, path);
    1
}
/// a part of a check done by another build of the simulator; leaves its counters in a file
fn part(a: &[String]) -> i32 {
    let c = cfg(a);
    let (t, bad) = batch(&c);
    let out = arg(a, "--out").expect("--out");
    let mut s = format!("{} {} {} {} {} {} {} {} {}\n", t.runs, t.switches, t.inner, t.sim_time, t.steps, t.nontrivial, t.maxerr, t.digest, t.truncated as u8);
    for v in &t.stats { s += &format!("{} ", v); }
    s += "\n";
    for v in &t.known { s += &format!("{} ", v); }
    s += "\n";
    for v in &t.traces { s += &format!("{:x} ", v); }
    std::fs::write(&out, s).expect("write counters");
    match bad {
        None => 0,
        Some((i, Out::Violation(cl, m))) => confirm(&c, i, &cl, &m),
        Some((i, o)) => { eprintln!("{}: run {}: {:?}", c.prop, i, o); 3 }
    }
}
fn load(path: &str) -> Option<Total> {
    let s = std::fs::read_to_string(path).ok()?;
    let mut l = s.lines();
    let h: Vec<&str> = l.next()?.split_whitespace().collect();
    let n = |i: usize| h[i].parse::<u64>().unwrap_or(0);
    let mut t = Total { runs: n(0), switches: n(1), inner: n(2), sim_time: n(3), steps: n(4), nontrivial: n(5), maxerr: h[6].parse().unwrap_or(0.0), digest: n(7), truncated: n(8) == 1, ..Default::default() };
    t.stats = l.next()?.split_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
    t.known = l.next()?.split_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
    t.traces = l.next().unwrap_or("").split_whitespace().filter_map(|x| u64::from_str_radix(x, 16).ok()).collect();
    Some(t)
}
fn check(a: &[String]) -> i32 {
    let t0 = raw::now_ns();
    let c = cfg(a);
    println!("{} tier={} VERIF_SEED={} runs {}..{}", c.prop, if c.thorough { "thorough" } else { "quick" }, c.seed, c.from, c.from + c.runs);
    let st = refr::selftest();
    if !(st < 2.0) { eprintln!("reference transforms disagree: {}", st); return 3; }
    let mut parts = vec![];
    let mut code = 0;
    // the build with all assertions on takes its share first
    if let (Some(exe), Some(n)) = (arg(a, "--alt"), arg(a, "--alt-runs")) {
        let out = format!("{}/sim/target/part-{}-{}.txt", c.dir, c.prop, std::process::id());
        let st = std::process::Command::new(exe)
            .args(["part", "--prop", &c.prop, "--seed", &c.seed.to_string(), "--tier", if c.thorough { "thorough" } else { "quick" }, "--from", &(c.from + c.runs).to_string(), "--runs", &n,
                "--dir", &c.dir, "--first", &(c.from + c.runs).to_string(), "--label", "checked", "--out", &out, "--max-secs", &(c.max_secs / 2).to_string()]).status();
        code = st.ok().and_then(|s| s.code()).unwrap_or(3);
        if let Some(t) = load(&out) { parts.push(("checked (debug assertions, overflow checks, a callback at every branch, load and store of library code)".to_string(), t)); }
        let _ = std::fs::remove_file(&out);
    }
    if code == 0 {
        let (t, bad) = batch(&c);
        parts.push(("release".to_string(), t));
        code = match bad {
            None => 0,
            Some((i, Out::Violation(cl, m))) => confirm(&c, i, &cl, &m),
            Some((i, o)) => { eprintln!("{}: run {}: {:?}", c.prop, i, o); 3 }
        };
    }
    for (k, (cl, m, what)) in known(&format!("{}/known_findings.txt", c.dir), &c.prop).iter().enumerate() {
        let n: u64 = parts.iter().map(|p| p.1.known.get(k).copied().unwrap_or(0)).sum();
        let _ = (cl, m);
        println!("KNOWN-FINDING: property={} {} ({} runs)", c.prop, what, n);
    }
    let wall = (raw::now_ns() - t0) as f64 / 1e9;
    let _ = std::fs::create_dir_all(format!("{}/evidence", c.dir));
    let e = evidence(&c, &parts, wall, (code == 1) as u64, "");
    std::fs::write(format!("{}/evidence/{}.json", c.dir, c.prop), e).expect("write evidence");
    let runs: u64 = parts.iter().map(|p| p.1.runs).sum();
    println!("{}: {} runs in {:.1} s, exit {}", c.prop, runs, wall, code);
    code
}
fn replay(a: &[String]) -> i32 {
    let (prop, class, spec) = read_replay(&a[2]);
    match run_once(&spec, false) {
        Out::Violation(c, m) => {
            println!("{}: {}: {}", prop, c, m);
            if c == class { println!("VIOLATION property={} replay={}", prop, a[2]); 1 } else { println!("(the file was recorded for {})", class); 4 }
        }
        o => { println!("{}: {:?}", prop, o); 0 }
    }
}
