//! Workers run cases; the parent watches them, restarts after crashes, and writes the evidence
use crate::rng::Rng;
use crate::run::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Ctx {
    pub r: Rng,
    pub seed: u64,
    pub idx: u64,
    pub tier: Tier,
    pub run: Runner,
    pub counts: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
    /// what this case did, for a replay
    pub witness: String,
    /// identity of a non-trivial case
    pub key: Option<u64>,
    pub verbose: bool,
    pub subject: String,
}
impl Ctx {
    pub fn count(&mut self, k: &str, n: u64) { *self.counts.entry(k.into()).or_insert(0) += n; }
    pub fn max(&mut self, k: &str, v: f64) { let e = self.maxima.entry(k.into()).or_insert(0.0); if v > *e { *e = v; } }
    pub fn note(&mut self, s: &str) { if self.verbose { eprintln!("{}", s); } self.witness.push_str(s); if !s.ends_with('\n') { self.witness.push('\n'); } }
    pub fn nontrivial(&mut self, s: &str) { self.key = Some(crate::rng::hash(s)); }
}

/// Err: a violation. A known finding is Err with its signature.
pub enum Fail { Violation(String), Known(String, String) }
impl From<String> for Fail { fn from(s: String) -> Fail { Fail::Violation(s) } }
impl From<&str> for Fail { fn from(s: &str) -> Fail { Fail::Violation(s.to_string()) } }
pub type Verdict = Result<(), Fail>;

pub struct Check {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub level: &'static str,
    pub case: fn(&mut Ctx) -> Verdict,
    /// cpu seconds allowed for one case
    pub cpu: u64,
}

extern "C" { fn getrusage(who: i32, r: *mut [i64; 18]) -> i32; }
fn cpu_used() -> u64 {
    let mut r = [0i64; 18];
    unsafe { getrusage(0, &mut r); }
    (r[0] + r[2]) as u64
}

fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r") }
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' { match it.next() { Some('n') => o.push('\n'), Some('t') => o.push('\t'), Some('r') => o.push('\r'), Some(x) => o.push(x), None => {} } } else { o.push(c) }
    }
    o
}

pub fn run_case(c: &Check, ctx: &mut Ctx) -> Verdict {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.case)(ctx)));
    match r {
        Ok(v) => v,
        Err(e) => Err(Fail::Violation(format!("the monitor could not interpret what it saw: {}", panic_text(e)))),
    }
}

/// tsmon worker ID seed tier first step total dir cli subject
pub fn worker(checks: &[Check], a: &[String]) {
    let c = checks.iter().find(|c| c.id == a[0]).unwrap();
    let seed: u64 = a[1].parse().unwrap();
    let tier = if a[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let (first, step, total): (u64, u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
    let dir = PathBuf::from(&a[6]);
    let deadline = Instant::now() + Duration::from_secs(a[9].parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    limit(RLIMIT_CORE, 0, 0);
    limit(RLIMIT_AS, 6 << 30, 6 << 30);
    limit(RLIMIT_FSIZE, 2 << 30, 2 << 30);
    fs::create_dir_all(&dir).unwrap();
    let mut log = fs::OpenOptions::new().create(true).append(true).open(dir.join("log")).unwrap();
    let mut run = Some(Runner::new(&dir.join("s"), Path::new(&a[7])));
    let mut idx = first;
    while idx < total {
        if Instant::now() > deadline { let _ = writeln!(log, "CUT {}", idx); break; }
        let hard = u64::MAX;
        limit(RLIMIT_CPU, cpu_used() + c.cpu, hard);
        let _ = writeln!(log, "START {}", idx);
        let mut ctx = Ctx {
            r: Rng::new(seed, c.id, idx), seed, idx, tier, run: run.take().unwrap(), counts: BTreeMap::new(), maxima: BTreeMap::new(),
            witness: String::new(), key: None, verbose: false, subject: a[8].clone(),
        };
        let t0 = Instant::now();
        let v = run_case(c, &mut ctx);
        ctx.max("case_seconds", t0.elapsed().as_secs_f64());
        if std::env::var("TSMON_SLOW").is_ok() && t0.elapsed().as_secs_f64() > 1.0 { ctx.count(&format!("slow_{}_{:.0}", idx, t0.elapsed().as_secs_f64()), 1); }
        let mut line = String::new();
        match v {
            Ok(()) => line += &format!("OK {}\n", idx),
            Err(Fail::Violation(m)) => line += &format!("VIOL {}\t{}\t{}\n", idx, esc(&m), esc(&ctx.witness)),
            Err(Fail::Known(k, m)) => line += &format!("KNOWN {}\t{}\t{}\t{}\n", idx, esc(&k), esc(&m), esc(&ctx.witness)),
        }
        for (k, n) in &ctx.counts { line += &format!("N {}\t{}\n", k, n); }
        for (k, n) in &ctx.maxima { line += &format!("M {}\t{:e}\n", k, n); }
        if let Some(k) = ctx.key { line += &format!("K {}\n", k); if idx < 4 || idx % 997 == 0 { line += &format!("S {}\n", esc(&ctx.witness)); } }
        let _ = log.write_all(line.as_bytes());
        run = Some(ctx.run);
        idx += step;
    }
    let _ = writeln!(log, "END");
}

pub fn replay(checks: &[Check], id: &str, seed: u64, tier: Tier, idx: u64, cli: &Path, subject: &str) -> i32 {
    let c = checks.iter().find(|c| c.id == id).unwrap();
    let dir = std::env::temp_dir().join(format!("tsmon-replay-{}", std::process::id()));
    let saved = unsafe { extern "C" { fn dup(a: i32) -> i32; } dup(1) };
    std::panic::set_hook(Box::new(|i| eprintln!("[panic] {}", i)));
    let mut ctx = Ctx {
        r: Rng::new(seed, c.id, idx), seed, idx, tier, run: Runner::new(&dir, cli), counts: BTreeMap::new(), maxima: BTreeMap::new(),
        witness: String::new(), key: None, verbose: true, subject: subject.into(),
    };
    let v = run_case(c, &mut ctx);
    unsafe { extern "C" { fn dup2(a: i32, b: i32) -> i32; } dup2(saved, 1); }
    println!("{}", ctx.witness);
    println!("counts {:?} maxima {:?}", ctx.counts, ctx.maxima);
    let _ = fs::remove_dir_all(&dir);
    match v {
        Ok(()) => { println!("held"); 0 }
        Err(Fail::Violation(m)) => { println!("VIOLATION {}", m); 1 }
        Err(Fail::Known(k, m)) => { println!("KNOWN {} {}", k, m); 0 }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", '\r' => o += "\\r",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(s: &str, n: usize) -> String { s.chars().take(n).collect() }

/// returns the exit status
pub fn check(checks: &[Check], id: &str, root: &Path, cli: &Path, subject: &str) -> i32 {
    let c = match checks.iter().find(|c| c.id == id) { Some(c) => c, None => { println!("no check {}", id); return 0; } };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") { Tier::Thorough } else { Tier::Quick };
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut total = if tier == Tier::Quick { c.quick } else { c.thorough };
    if let Ok(n) = std::env::var("TSMON_CASES") { total = n.parse().unwrap(); }
    let wall: u64 = std::env::var("TSMON_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 300 } else { 3000 });
    let nw = std::thread::available_parallelism().map_or(8, |n| n.get()).min(8).min(total.max(1) as usize) as u64;
    let t0 = Instant::now();
    let scratch = std::env::temp_dir().join(format!("tsmon-{}-{}", id, std::process::id()));
    let _ = fs::remove_dir_all(&scratch);
    fs::create_dir_all(&scratch).unwrap();
    let me = std::env::current_exe().unwrap();
    let mut viols: Vec<(u64, String, String)> = vec![];
    let mut inconclusive: Vec<String> = vec![];
    let spawn_worker = |w: u64, first: u64| {
        let left = wall.saturating_sub(t0.elapsed().as_secs());
        Command::new(&me).arg("worker").arg(id).arg(seed.to_string()).arg(tname).arg(first.to_string()).arg(nw.to_string())
            .arg(total.to_string()).arg(scratch.join(format!("w{}", w))).arg(cli).arg(subject).arg(left.to_string())
            .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn()
    };
    let mut kids: Vec<(u64, Option<std::process::Child>, u32)> = vec![];
    for w in 0..nw { kids.push((w, spawn_worker(w, w).ok(), 0)); }
    let last_start = |w: u64| -> Option<(u64, bool)> {
        let t = fs::read(scratch.join(format!("w{}", w)).join("log")).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        let mut last = None;
        let mut ended = false;
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("START ") { last = x.parse().ok(); ended = false; }
            if l == "END" || l.starts_with("CUT") { ended = true; }
        }
        last.map(|x| (x, ended))
    };
    loop {
        let mut alive = false;
        for (w, kid, crashes) in kids.iter_mut() {
            let st = match kid { Some(k) => match k.try_wait() { Ok(None) => { alive = true; continue; } Ok(Some(s)) => s, Err(_) => { *kid = None; continue; } }, None => continue };
            *kid = None;
            use std::os::unix::process::ExitStatusExt;
            if st.success() { continue; }
            if let Some((idx, ended)) = last_start(*w) {
                if ended { continue; }
                let sig = st.signal();
                let what = match sig {
                    Some(24) => Some(format!("case used more than {} s of CPU time: endless loop", c.cpu)),
                    Some(9) | Some(15) | Some(2) | Some(1) => None,
                    Some(25) => Some("wrote a file without end".into()),
                    Some(s) => Some(format!("process killed by signal {} (crash, stack overflow or out of memory)", s)),
                    None => Some(format!("process exited with {:?}", st.code())),
                };
                match what {
                    Some(m) => viols.push((idx, m, String::from("(crashed: replay it by index)"))),
                    None => inconclusive.push(format!("case {} was killed from outside (signal {:?})", idx, sig)),
                }
                *crashes += 1;
                if *crashes <= 5 && t0.elapsed().as_secs() < wall {
                    *kid = spawn_worker(*w, idx + nw).ok();
                    alive = true;
                }
            } else {
                inconclusive.push(format!("worker {} ended with {:?} before its first case", w, st));
            }
        }
        if !alive { break; }
        if t0.elapsed().as_secs() > wall + 120 {
            for (_, k, _) in kids.iter_mut() { if let Some(k) = k { let _ = k.kill(); let _ = k.wait(); } }
            inconclusive.push("stopped at the wall clock limit".into());
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // collect
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<String, f64> = BTreeMap::new();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut known: BTreeMap<String, (u64, String, String, u64)> = BTreeMap::new();
    let mut evals = 0u64;
    let mut cut = 0;
    for w in 0..nw {
        let t = fs::read(scratch.join(format!("w{}", w)).join("log")).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        for l in t.lines() {
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "START" => evals += 1,
                "CUT" => cut += 1,
                "VIOL" => { let f: Vec<&str> = rest.split('\t').collect(); if f.len() >= 3 { viols.push((f[0].parse().unwrap_or(0), unesc(f[1]), unesc(f[2]))); } }
                "KNOWN" => { let f: Vec<&str> = rest.split('\t').collect(); if f.len() >= 4 { let e = known.entry(f[1].to_string()).or_insert((f[0].parse().unwrap_or(0), unesc(f[2]), unesc(f[3]), 0)); e.3 += 1; } }
                "N" => if let Some((a, b)) = rest.split_once('\t') { *counts.entry(a.into()).or_insert(0) += b.parse::<u64>().unwrap_or(0); },
                "M" => if let Some((a, b)) = rest.split_once('\t') { let e = maxima.entry(a.into()).or_insert(0.0); *e = e.max(b.parse().unwrap_or(0.0)); },
                "K" => { keys.insert(rest.parse().unwrap_or(0)); }
                "S" => if samples.len() < 4 { samples.push(clip(&unesc(rest), 1500)); },
                _ => {}
            }
        }
    }
    let _ = fs::remove_dir_all(&scratch);
    // known findings: only those listed, by signature
    let listed: BTreeSet<String> = fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default().lines()
        .filter_map(|l| l.strip_prefix("known: property=").and_then(|r| r.strip_prefix(&format!("{} ", id))).map(|s| s.split(" :: ").next().unwrap_or("").trim().to_string())).collect();
    for (sig, (idx, msg, wit, n)) in known {
        if listed.contains(&sig) { println!("KNOWN-FINDING: property={} {} ({} cases; {})", id, sig, n, clip(&msg, 300)); }
        else { viols.push((idx, format!("{}: {}", sig, msg), wit)); }
    }
    viols.sort_by_key(|v| v.0);
    for i in &inconclusive { println!("INCONCLUSIVE: property={} {}", id, i); }
    if cut > 0 { println!("INCONCLUSIVE: property={} {} workers stopped at the wall clock limit of {} s before finishing all {} cases", id, cut, wall, total); }
    let rep = root.join("replays");
    for (k, (idx, msg, wit)) in viols.iter().enumerate() {
        if k >= std::env::var("TSMON_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(3) { println!("... and {} more", viols.len() - 3); break; }
        let _ = fs::create_dir_all(&rep);
        let p = rep.join(format!("{}-{}-{}-{}.txt", id, tname, seed, idx));
        let _ = fs::write(&p, format!("property {}\nviolated: {}\nreplay: cd /verif && VERIF_TIER={} ./check.sh {} --replay {} {}\n\n{}\n", id, msg, tname, id, seed, idx, wit));
        println!("VIOLATION property={} replay={}", id, p.display());
        println!("  case {}: {}", idx, clip(msg, 600));
    }
    if viols.is_empty() && evals == 0 { println!("INCONCLUSIVE: property={} nothing was observed", id); }
    // evidence
    let mut cov = format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}]", evals, keys.len(), json_str(c.rule),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    for (k, n) in &counts { cov += &format!(",\n    {}: {}", json_str(&format!("observed_{}", k)), n); }
    for (k, n) in &maxima { cov += &format!(",\n    {}: {:e}", json_str(&format!("worst_{}", k)), n); }
    let ev = format!("{{\n  \"property\": \"{}\",\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"{}\",\n  \"coverage\": {{\n{}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
        id, tname, seed, c.level, cov, inconclusive.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "), t0.elapsed().as_secs_f64(), viols.len());
    let _ = fs::create_dir_all(root.join("evidence"));
    let _ = fs::write(root.join("evidence").join(format!("{}.json", id)), ev);
    println!("{}: {} cases, {} distinct non-trivial, {} violations, {:.1} s; {}", id, evals, keys.len(), viols.len(), t0.elapsed().as_secs_f64(),
        counts.iter().map(|(k, v)| format!("{} {}", v, k)).collect::<Vec<_>>().join(", "));
    if viols.is_empty() { 0 } else { 1 }
}
