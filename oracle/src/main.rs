#![allow(dead_code)]
mod case; mod env; mod gen; mod html; mod props; mod refhtml; mod tree; mod rng;
use case::*;
use serde_json::{json, Value};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(60);
/// The parser backtracks, and nested markup that never closes takes time exponential
/// in its nesting. That is slow and not endless: a case with more openings than this
/// is dropped after SLOW, one with fewer has to finish within HANG.
const SLOW: Duration = Duration::from_secs(15);
const OPENINGS: usize = 8;

fn openings(t: &str) -> usize {
    ["[[", "**", "//", "__", "--", "^^", ",,", "{{", "@@", "##", "((", "$", "~~", "||", "\n>", "\n:", "\n*", "\n#", "\n+"].iter().map(|p| t.matches(p).count()).sum()
}

fn quiet() { std::panic::set_hook(Box::new(|_| {})); }

/// A small stack would hide nothing and a big one would hide overflow: use the
/// platform's usual 8 MiB main-thread size.
fn on_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().unwrap()
}

fn worker(a: Vec<String>) -> i32 {
    quiet();
    let (prop, seed, stream, streams, ms, dir) = (a[0].clone(), a[1].parse().unwrap(), a[2].parse::<usize>().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].clone());
    on_stack(move || {
        let subs = props::subs(&prop).expect("unknown property");
        let cur = format!("{dir}/cur-{stream}.json");
        let w = Worker { prop: &prop, subs: &subs, stream, streams, seed, cur: &cur };
        let (st, fail) = w.work(Duration::from_millis(ms));
        let out = json!({"evaluations": st.evaluations, "per": st.per, "distinct": st.distinct.iter().collect::<Vec<_>>(), "samples": st.samples});
        std::fs::write(format!("{dir}/stat-{stream}.json"), out.to_string()).unwrap();
        if let Some((c, e)) = fail {
            let mut v = c.json(); v["failure"] = json!(e);
            std::fs::write(format!("{dir}/fail-{stream}.json"), v.to_string()).unwrap();
            return 1;
        }
        0
    })
}

/// Runs one case in a process of its own. Some(message) when it fails.
fn isolated(c: &Case, dir: &str, limit: Duration) -> Option<String> {
    let f = format!("{dir}/one.json");
    std::fs::write(&f, c.json().to_string()).unwrap();
    let mut ch = Command::new(std::env::current_exe().unwrap()).args(["one", &f]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let start = Instant::now();
    loop {
        if let Some(s) = ch.try_wait().unwrap() {
            if s.success() { return None; }
            let mut out = String::new();
            use std::io::Read;
            ch.stdout.take().unwrap().read_to_string(&mut out).ok();
            return Some(if s.code() == Some(1) { out.trim().to_string() } else { format!("process ended abnormally ({s}): stack overflow or abort") });
        }
        if start.elapsed() > limit { ch.kill().ok(); ch.wait().ok(); return Some(format!("no result within {} s", limit.as_secs())); }
        std::thread::sleep(Duration::from_millis(3));
    }
}

fn load(path: &str) -> Case { Case::from_json(&serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap()).unwrap() }

fn one(path: &str) -> i32 {
    quiet();
    let c = load(path);
    on_stack(move || {
        let subs = props::subs(&c.prop).expect("unknown property");
        let sub = subs.iter().find(|s| s.name == c.sub).expect("unknown monitor");
        match execute(sub, &c.text, &c.args) { Ok(_) => 0, Err(e) => { println!("{e}"); 1 } }
    })
}

fn run(a: Vec<String>) -> i32 {
    let (prop, seed, ms, replay, stats) = (&a[0], &a[1], &a[2], &a[3], &a[4]);
    let streams: usize = std::env::var("ORACLE_STREAMS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let dir = format!("{}/oracle-{}-{}", std::env::temp_dir().display(), prop, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let start = Instant::now();
    let mut kids: Vec<_> = (0..streams).map(|i| Command::new(std::env::current_exe().unwrap()).args(["worker", prop, seed, &i.to_string(), &streams.to_string(), ms, &dir]).stderr(Stdio::null()).spawn().unwrap()).collect();
    let mut done = vec![false; streams];
    let mut ids: Vec<usize> = (0..streams).collect();
    let mut last: Vec<(std::time::SystemTime, Instant)> = (0..streams).map(|_| (std::time::UNIX_EPOCH, Instant::now())).collect();
    let mut failures: Vec<(Case, String)> = vec![];
    let mut slow = 0usize;
    let budget = Duration::from_millis(ms.parse().unwrap());
    while done.iter().any(|d| !d) {
        std::thread::sleep(Duration::from_millis(20));
        for i in 0..streams {
            if done[i] { continue; }
            let cur = format!("{dir}/cur-{}.json", ids[i]);
            if let Some(s) = kids[i].try_wait().unwrap() {
                done[i] = true;
                if s.code() == Some(1) {
                    let v: Value = serde_json::from_str(&std::fs::read_to_string(format!("{dir}/fail-{}.json", ids[i])).unwrap()).unwrap();
                    failures.push((Case::from_json(&v).unwrap(), v["failure"].as_str().unwrap().into()));
                } else if !s.success() && std::path::Path::new(&cur).exists() {
                    let c = load(&cur);
                    // trust only what happens again on its own
                    if let Some(e) = isolated(&c, &dir, HANG) { failures.push((c, e)); } else { eprintln!("worker {i} ended with {s}, not reproducible"); }
                }
                continue;
            }
            let m = std::fs::metadata(&cur).and_then(|m| m.modified()).unwrap_or(std::time::UNIX_EPOCH);
            if m != last[i].0 { last[i] = (m, Instant::now()); }
            else if last[i].1.elapsed() > SLOW && std::fs::read_to_string(&cur).ok().and_then(|t| serde_json::from_str(&t).ok()).and_then(|v| Case::from_json(&v)).map_or(false, |c| openings(&c.text) > OPENINGS) {
                kids[i].kill().ok(); kids[i].wait().ok();
                slow += 1;
                let left = budget.saturating_sub(start.elapsed());
                if left.as_millis() == 0 { done[i] = true; continue; }
                let stream = i + streams * slow;
                std::fs::remove_file(&cur).ok();
                let c = Command::new(std::env::current_exe().unwrap()).args(["worker", prop, seed, &stream.to_string(), &streams.to_string(), &left.as_millis().to_string(), &dir]).stderr(Stdio::null()).spawn().unwrap();
                kids[i] = c; ids[i] = stream; last[i] = (std::time::UNIX_EPOCH, Instant::now());
            }
            else if last[i].1.elapsed() > HANG {
                kids[i].kill().ok(); kids[i].wait().ok(); done[i] = true;
                if let Ok(t) = std::fs::read_to_string(&cur) {
                    if let Some(c) = serde_json::from_str(&t).ok().and_then(|v| Case::from_json(&v)) {
                        if let Some(e) = isolated(&c, &dir, HANG) { failures.push((c, e)); }
                    }
                }
            }
        }
        if !failures.is_empty() { for i in 0..streams { if !done[i] { kids[i].kill().ok(); kids[i].wait().ok(); done[i] = true; } } }
    }
    let (mut ev, mut distinct, mut samples) = (0u64, std::collections::HashSet::new(), vec![]);
    let mut per: std::collections::BTreeMap<String, (u64, u64)> = Default::default();
    for i in 0..streams * (slow + 1) {
        if let Some(v) = std::fs::read_to_string(format!("{dir}/stat-{i}.json")).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
            ev += v["evaluations"].as_u64().unwrap();
            for h in v["distinct"].as_array().unwrap() { distinct.insert(h.as_u64().unwrap()); }
            for s in v["samples"].as_array().unwrap() { if samples.len() < 8 { samples.push(s.clone()); } }
            for p in v["per"].as_array().unwrap() { let e = per.entry(p[0].as_str().unwrap().into()).or_default(); e.0 += p[1].as_u64().unwrap(); e.1 += p[2].as_u64().unwrap(); }
        }
    }
    let mut fail = Value::Null;
    let mut code = 0;
    if let Some((c, e)) = failures.into_iter().next() {
        let kind = |m: &str| m.chars().take_while(|c| *c != ':').collect::<String>();
        let want = kind(&e);
        let slow = e.starts_with("no result");
        let small = if c.args["expect"].is_string() { c.clone() } else { shrink(&c, |c| isolated(c, &dir, if slow { Duration::from_secs(10) } else { HANG }).map(|m| kind(&m) == want).unwrap_or(false), Duration::from_secs(if slow { 60 } else { 25 })) };
        let e = isolated(&small, &dir, HANG).unwrap_or(e);
        let mut v = small.json();
        v["failure"] = json!(e); v["original_input"] = json!(c.text);
        v["how"] = json!("replay with: python3 /verif/check.py replay <this file>");
        std::fs::create_dir_all(std::path::Path::new(replay).parent().unwrap()).ok();
        std::fs::write(replay, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        fail = v; code = 1;
    }
    let out = json!({"evaluations": ev, "distinct_nontrivial": distinct.len(), "samples": samples, "monitors": per, "dropped_slow": slow, "wall_s": start.elapsed().as_secs_f64(), "failure": fail});
    std::fs::write(stats, out.to_string()).unwrap();
    std::fs::remove_dir_all(&dir).ok();
    code
}

/// Development aid: the shortest failing cases found in the given time.
fn small(a: Vec<String>) -> i32 {
    std::panic::set_hook(Box::new(|i| { let m = i.to_string(); if m.contains("oracle/src") || m.contains(" src/") { eprintln!("{m}"); } }));
    let (ms, seed): (u64, u64) = (a[1].parse().unwrap(), a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1));
    let handles: Vec<_> = (0..8u64).map(|t| { let prop = a[0].clone(); std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let subs = props::subs(&prop).expect("unknown property");
        let mut rng = rng::Rng::new(seed * 1000 + t);
        let start = Instant::now(); let mut n = 0u64; let mut bad: Vec<(Case, String)> = vec![];
        while start.elapsed() < Duration::from_millis(ms) {
            for sub in &subs { if sub.weight == 0 { continue; } let (text, args) = (sub.gen)(&mut rng); n += 1;
                if let Err(e) = execute(sub, &text, &args) { bad.push((Case { prop: prop.clone(), sub: sub.name.into(), text, args }, e)); } }
        }
        (n, bad)
    }).unwrap() }).collect();
    let mut bad = vec![]; let mut n = 0;
    for h in handles { let (k, b) = h.join().unwrap(); n += k; bad.extend(b); }
    bad.sort_by_key(|b| b.0.text.len());
    println!("{} of {n} fail", bad.len());
    for (c, e) in bad.iter().take(std::env::var("N").ok().and_then(|s| s.parse().ok()).unwrap_or(3)) { println!("=== {}\n{}\n--- {:?}\n{}", c.sub, c.text, c.text, e); if c.args["expect"].is_string() { println!("want {}", c.args["expect"].as_str().unwrap()); } else { println!("{}", c.args); } }
    0
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let rest = a.get(1..).map(|x| x.to_vec()).unwrap_or_default();
    std::process::exit(match a.first().map(|s| s.as_str()) {
        Some("worker") => worker(rest),
        Some("run") => run(rest),
        Some("small") => small(rest),
        Some("one") => one(&rest[0]),
        Some("list") => { for p in props::ALL { let s = props::subs(p).unwrap(); println!("{p} {}", s.iter().map(|s| s.name).collect::<Vec<_>>().join(" ")); } 0 }
        _ => { eprintln!("usage: oracle run PROP SEED MS REPLAY STATS | one FILE | list"); 2 }
    });
}
