//! C07, C16, C21, C22, C25, C26: the program as a whole
use crate::c_deck::*;
use crate::c_tran::check_rows;
use crate::deck::*;
use crate::driver::*;
use crate::gen::{self, HOpts, Opts};
use crate::model::*;
use crate::num;
use crate::rng::Rng;
use crate::run::*;
use std::collections::BTreeMap;
use std::fs;
use std::path::{Component, Path, PathBuf};
use tiny_spice::analysis::Configuration;
use tiny_spice::circuit::Circuit;
use tiny_spice::engine::Engine;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C07", quick: 9000, thorough: 100000, level: "exploration", cpu: 120, case: c07,
            rule: "runs of the program on random decks (hierarchies, hostile names) under random paths (relative, absolute, with .., ., doubled slashes, spaces, no or odd extensions) from random directories, into nothing, over older, longer files, or beside others; every file below the scratch directory is compared before and after, the data file parsed strictly and each of its columns judged by the circuit; non-trivial: three rows or more" },
        Check { id: "C16", quick: 12000, thorough: 120000, level: "exploration", cpu: 120, case: c16,
            rule: "pools of two to six circuits (linear, with diodes, singular, failing, other settings), analysed by a new engine each and then in random order by one engine, again on copies and originals, by engines in parallel threads, after reading the deck again, and some by two processes; everything printed and recorded compared bit for bit; non-trivial: two circuits or more with results" },
        Check { id: "C26", quick: 30000, thorough: 150000, level: "exploration", cpu: 120, case: c26,
            rule: "transients of random decks whose data file cannot be made (directory or file in the way, dangling or looping links, refused open or mkdir, no descriptors, read-only or full file system) or not written (full device, file size limit, error or short write at a random call, interruptions), in process and as a program; judged against the run without the fault: data that are not complete need a message, the end time and the iterations stay; non-trivial: the fault left the data incomplete" },
        Check { id: "C22", quick: 2000, thorough: 30000, level: "exploration", cpu: 120, case: c22,
            rule: "directories with one to five (3%: up to 30) data files written by the simulator (also from failed runs) among other files, under names in every order, shown by the viewer with random lists of expressions, with a stand-in for matplotlib that records what is drawn, and loaded directly; compared bit for bit with the columns of the files; a sixth with unusable arguments; non-trivial: two lines or more drawn" },
        Check { id: "C25", quick: 200000, thorough: 1500000, level: "exploration", cpu: 20, case: c25,
            rule: "texts of up to 64 KB (random bytes, words of the language in any order, valid decks truncated, spliced and mutated, thousands of digits, lines, names or definitions, circuits inside themselves, invalid UTF-8, comments only), read and expanded as a deck or as a library of one, small circuits also solved, some through the program, under limits of CPU time and memory; each ends with a circuit, a report or a panic with a message, with overflow checks on; non-trivial: the text is not refused at its first line" },
        Check { id: "C21", quick: 20000, thorough: 60000, level: "exploration", cpu: 100, case: c21,
            rule: "large circuits and hierarchies (ladders, meshes and random circuits of up to 400 nodes, hundreds of sources, thousands of parallel elements or PWL points, chains of up to 90 levels, trees of instances, hundreds of instances or definitions, tens of thousands of time steps), gaps in node numbers; and small circuits under extreme step and iteration settings (zero, negative, tiny, huge, not a number, infinite), whose iterations are bounded and which have to reach the end or report an error; non-trivial: all but those left out as ill-conditioned" },
    ]
}

/// every file below a directory with its contents
fn snapshot(d: &Path) -> BTreeMap<String, Vec<u8>> {
    files_below(d).into_iter().map(|f| { let t = fs::read(d.join(&f)).unwrap_or_default(); (f, t) }).collect()
}

/// where the data of a deck goes
fn data_path(deck: &str) -> PathBuf {
    let mut p = PathBuf::from("waves");
    for x in Path::new(deck).components() { if let Component::Normal(n) = x { p.push(n); } }
    p.join("tran.dat")
}

/// a linear deck with sources, for one transient
fn linear_deck(c: &mut Ctx) -> Deck {
    let scale = 1e-3;
    let mut d = if c.r.chance(0.5) { gen::hier(&mut c.r, &HOpts::ordinary()) } else {
        let mut o = Opts::linear();
        o.ptime = 0.5; o.weird_names = c.r.chance(0.7); o.wc = 2.0; o.c = (1e-9, 1e-6); o.pv = 0.4;
        let cards = gen::cards(&mut c.r, &o);
        flat_deck(cards, vec![])
    };
    d.ctl.push(short_tran(c, scale));
    d
}

const DIRS: [&str; 8] = ["decks", "a/b/c", "with space", "waves", "x.d", "..dots", "tran.dat", "\u{3a9}"];
const FILES: [&str; 16] = ["deck.spi", "deck", "deck.cir", "a.b.c.spi", "tran.dat", "waves", ".hidden", "with space.spi", "deck.spi.bak", "\u{e9}t\u{e9}.spi", "UPPER.SPI", "deck..spi", "-deck.spi", "1", "de(ck).spi", "x;y.spi"];

fn c07(c: &mut Ctx) -> Verdict {
    let base = c.run.subdir("e2e");
    let r = &mut c.r;
    // deck and start directory
    let dirs: Vec<PathBuf> = DIRS.iter().map(|d| base.join(d)).chain([base.clone()]).collect();
    for d in &dirs { fs::create_dir_all(d).unwrap(); }
    let home = r.pick(&dirs).clone();
    let cwd = r.pick(&dirs).clone();
    let name = r.pick(&FILES).to_string();
    if home.join(&name).is_dir() { return Ok(()); }
    let runs = if r.chance(0.3) { 2 } else { 1 };
    // how the path is written
    let rel = {
        let up = cwd.strip_prefix(&base).unwrap().components().count();
        let down = home.strip_prefix(&base).unwrap().join(&name);
        let mut p = String::new();
        if cwd == home && r.chance(0.8) { p = name.clone(); } else { for _ in 0..up { p += "../"; } p += down.to_str().unwrap(); }
        p
    };
    let mut path = match r.below(6) {
        0 => home.join(&name).to_str().unwrap().to_string(),
        1 => format!("./{}", rel),
        2 if !rel.starts_with("..") => rel.replace('/', "//"),
        3 => format!("{}/../{}/{}", home.to_str().unwrap(), home.file_name().unwrap().to_str().unwrap(), name),
        4 if rel.contains('/') => rel.replacen('/', "/./", 1),
        _ => rel.clone(),
    };
    if path.starts_with('-') && r.chance(0.5) { path = format!("./{}", path); }
    let target = data_path(&path);
    let full = cwd.join(&target);
    // what is there before
    if full.ancestors().any(|x| x == home.join(&name)) || full.exists() || full.ancestors().take_while(|x| *x != base.as_path()).any(|x| x.exists() && !x.is_dir()) { return Ok(()); }
    match r.below(4) {
        0 => {
            fs::create_dir_all(full.parent().unwrap()).unwrap();
            let n = r.urange(1, 60000);
            fs::write(&full, "9.9\t1\n".repeat(n)).unwrap();
        }
        1 => {
            fs::create_dir_all(full.parent().unwrap()).unwrap();
            for x in ["dc.dat", "tran.dat.old", "other.dat"] { fs::write(full.parent().unwrap().join(x), "something else\n").unwrap(); }
        }
        2 => { let p = cwd.join("waves"); if !p.exists() { fs::create_dir_all(&p).unwrap(); } fs::write(p.join("notes.txt"), "keep").unwrap(); }
        _ => {}
    }
    for k in 0..runs {
        let mut d = linear_deck(c);
        // digits: times that need all of them
        if c.r.chance(0.5) { if let Some(Ctl::Tran(a, b, _)) = d.ctl.last_mut() { let x = a.val * (1.0 + c.r.unit() * 0.1); *a = num::exact(x); let y = x * c.r.logu(1.0, 12.0); *b = num::exact(y); } }
        let f = d.flatten()?;
        if !solid(&f, &d.ctl[0]) { return Ok(()); }
        let text = d.plain();
        if k == 0 { c.note(&format!("started in {}, deck '{}'", cwd.strip_prefix(&base).unwrap().display(), path)); }
        c.note(&text);
        fs::write(home.join(&name), &text).unwrap();
        let before = snapshot(&base);
        let out = c.run.cli(&cwd, &path, Limits::default());
        if out.code != Some(0) || out.diagnosed() { return Err(format!("run failed: {}", out.brief()).into()); }
        let mut after = snapshot(&base);
        let key = full.strip_prefix(&base).unwrap().to_str().unwrap().to_string();
        let data = match after.remove(&key) { Some(x) => x, None => {
            let new: Vec<&String> = after.keys().filter(|k| !before.contains_key(*k)).collect();
            return Err(format!("no file {} (new files: {:?})", key, new).into());
        } };
        let mut b2 = before.clone();
        b2.remove(&key);
        if b2 != after {
            let odd: Vec<&String> = after.keys().filter(|k| b2.get(*k) != after.get(*k)).chain(b2.keys().filter(|k| !after.contains_key(*k))).take(5).collect();
            return Err(format!("other files changed: {:?}", odd).into());
        }
        let raw = String::from_utf8(data).map_err(|_| "the file is not text".to_string())?;
        let w = Wavefile::parse(&raw)?;
        if w.names[0] != "Time" || w.units[0] != "s" { return Err(format!("first column '{}' in '{}'", w.names[0], w.units[0]).into()); }
        for (n, u) in w.names.iter().zip(&w.units).skip(1) { if u != if n.starts_with("v(") { "V" } else { "A" } { return Err(format!("column {} has unit '{}'", n, u).into()); } }
        let g = w.model(&f)?;
        // columns mean what they say, and the numbers are good to many digits
        check_rows(c, &g, &w, &Tol::default())?;
        let stop = match d.ctl.last() { Some(Ctl::Tran(_, b, _)) => b.val, _ => 0.0 };
        let last = *w.t.last().unwrap_or(&0.0);
        if (last - stop).abs() > 1e-9 * stop { return Err(format!("the last time is {:e}, the analysis ends at {:e}", last, stop).into()); }
        let sim = c.run.run_with(&text, |c| c.kind = Some(tiny_spice::analysis::Kind::DcOperatingPoint));
        sim.ran()?;
        let x = sim.dc.clone().ok_or("no operating point")?;
        if x.len() != w.rows[0].len() { return Err(format!("{} columns, {} values at the operating point", w.rows[0].len(), x.len()).into()); }
        for (i, (a, b)) in x.iter().zip(&w.rows[0]).enumerate() { if (a - b).abs() > 1e-9 * a.abs() { return Err(format!("column {} starts with {:e}, the operating point is {:e}", w.names[i + 1], b, a).into()); } }
        c.count("files_checked", 1);
        c.count("numbers_checked", (w.rows.len() * w.names.len()) as u64);
        if w.rows.len() >= 3 { c.nontrivial(&format!("{}{}", path, text)); }
    }
    Ok(())
}

/// a circuit with settings, and where it came from
struct Job { text: String, ckt: Circuit, cfg: Configuration }

fn jobs(c: &mut Ctx) -> Result<Vec<Job>, String> {
    let n = c.r.urange(2, 6);
    let mut v: Vec<Job> = vec![];
    while v.len() < n {
        // sometimes the same circuit with other settings
        if !v.is_empty() && c.r.chance(0.2) {
            let k = c.r.below(v.len());
            let mut cfg = v[k].cfg.clone();
            tweak(&mut c.r, &mut cfg);
            let (text, ckt) = (v[k].text.clone(), v[k].ckt.clone());
            v.push(Job { text, ckt, cfg });
            continue;
        }
        let d = any_deck(c, 0.45);
        let nl = d.flatten()?.nonlinear();
        let mut text = d.plain();
        if c.r.chance(0.25) {
            // something that fails
            let at = text.find(".control").unwrap_or(text.len());
            text.insert_str(at, c.r.pick(&["V661 q661 0 1\nV662 q661 0 2\n", "V661 q661 q661 1\n", "I661 0 q661 1\n", "I661 q662 0 1m\nC661 q662 0 1n\n", "E661 q661 0 q661 0 1\n", "V661 q661 0 1000\nD661 q661 0\n", "V661 q661 0 SIN(0 1e308 1k)\nR661 q661 0 1e-300\n", "D661 0 q661\nI661 q661 0 1\n"]));
        }
        let (sim, x) = c.run.read(&text);
        sim.ran()?;
        let (ckt, mut cfg) = x.ok_or("no circuit")?;
        if nl || text.contains("D661") { cfg.RMIN = 1e-3; }
        if c.r.chance(0.2) { tweak(&mut c.r, &mut cfg); }
        v.push(Job { text, ckt, cfg });
    }
    Ok(v)
}
fn tweak(r: &mut Rng, g: &mut Configuration) {
    match r.below(8) {
        0 => g.ITL1 = r.urange(1, 4),
        1 => g.ITL4 = r.urange(1, 5),
        2 => g.RELTOL = r.logu(1e-7, 1e-2),
        3 => g.RMAX = r.logu(0.2, 10.0),
        4 => g.set_dc_operating_point(),
        5 => { let s = g.TSTEP; g.set_transient(s * r.logu(1.0, 20.0), s, 0.0) }
        6 => g.TSTART = g.TSTOP * r.unit(),
        _ => g.FS = r.logu(0.01, 1.0),
    }
}

/// all that one analysis on an engine gives, what it printed included
fn one(c: &mut Ctx, eng: &mut Engine, j: &Job, ckt: &Circuit) -> (String, bool) {
    let mut sim = Sim::default();
    c.run.analyse_on(eng, ckt, &j.cfg, &mut sim);
    let ok = sim.panic.is_none();
    (format!("{}{}", bits(&sim), sim.out), ok)
}
fn dc_bits(e: Engine) -> String { format!("{:?}", e.dc().map(|v| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>())) }

fn c16(c: &mut Ctx) -> Verdict {
    let v = jobs(c)?;
    for j in &v { c.note(&j.text); c.note(&format!("  {:?} ITL1 {} ITL4 {} RELTOL {:e} RMAX {:e} FS {:e} RMIN {:e} TSTOP {:e} TSTEP {:e} TSTART {:e}", j.cfg.kind.as_ref().map(|k| k.to_string()), j.cfg.ITL1, j.cfg.ITL4, j.cfg.RELTOL, j.cfg.RMAX, j.cfg.FS, j.cfg.RMIN, j.cfg.TSTOP, j.cfg.TSTEP, j.cfg.TSTART)); }
    // alone, on copies
    let mut want: Vec<(String, String)> = vec![];
    let mut good = 0;
    for j in &v {
        let mut e = Engine::new();
        let fresh = j.ckt.clone();
        let (a, ok) = one(c, &mut e, j, &fresh);
        let dc = if ok { dc_bits(e) } else { String::new() };
        if ok && (a.contains("Time") || dc != "None") { good += 1; }
        want.push((a, dc));
    }
    // one engine for all, in any order
    let mut e = Engine::new();
    let n = c.r.urange(v.len(), 2 * v.len() + 2);
    let mut last = None;
    for step in 0..n {
        let k = c.r.below(v.len());
        // the original, again and again, or a copy of it
        let (a, ok) = if c.r.chance(0.7) { one(c, &mut e, &v[k], &v[k].ckt) } else { let f = v[k].ckt.clone(); one(c, &mut e, &v[k], &f) };
        if a != want[k].0 { return Err(format!("analysis {} in a row (of circuit {}) differs from one alone: {}", step + 1, k, first_difference(&want[k].0, &a)).into()); }
        c.count("analyses_by_a_used_engine", 1);
        last = if ok { Some(k) } else { None };
    }
    if let Some(k) = last { let x = dc_bits(e); if x != want[k].1 { return Err(format!("operating point of circuit {} on a used engine: {} instead of {}", k, x, want[k].1).into()); } }
    // read again
    if c.r.chance(0.5) {
        let k = c.r.below(v.len());
        let (sim, x) = c.run.read(&v[k].text);
        sim.ran()?;
        let (ckt, _) = x.ok_or("no circuit")?;
        let mut e = Engine::new();
        let (a, _) = one(c, &mut e, &v[k], &ckt);
        if a != want[k].0 { return Err(format!("circuit {} read again differs: {}", k, first_difference(&want[k].0, &a)).into()); }
        c.count("decks_read_again", 1);
    }
    // engines in threads
    if c.r.chance(0.3) {
        let nt = c.r.urange(2, 4);
        let plans: Vec<Vec<usize>> = (0..nt).map(|_| (0..c.r.urange(2, 5)).map(|_| c.r.below(v.len())).collect()).collect();
        let shared = c.r.chance(0.7);
        let results: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
            let hs: Vec<_> = plans.iter().enumerate().map(|(t, p)| {
                let work: Vec<(usize, Circuit, Configuration)> = p.iter().map(|k| (*k, v[*k].ckt.clone(), v[*k].cfg.clone())).collect();
                let file = c.run.dir.join(format!("thread{}.dat", t));
                s.spawn(move || {
                    let mut out = vec![];
                    let mut e = Engine::new();
                    for (k, ckt, mut cfg) in work {
                        if !shared { e = Engine::new(); }
                        let _ = fs::remove_file(&file);
                        cfg.set_wavefile(file.to_str().unwrap());
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.go(&ckt, &cfg)));
                        let raw = fs::read_to_string(&file).unwrap_or_default();
                        out.push((k, match r { Ok(st) => format!("{:?}\n{}", st.map(|x| (x.end.to_bits(), x.iterations)), raw), Err(p) => format!("panic {}\n{}", panic_text(p), raw) }));
                    }
                    out
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        c.run.cap.clear();
        // the same by one thread
        let mut alone: BTreeMap<usize, String> = BTreeMap::new();
        for (k, got) in results.into_iter().flatten() {
            if !alone.contains_key(&k) {
                let file = c.run.dir.join("alone.dat");
                let _ = fs::remove_file(&file);
                let mut cfg = v[k].cfg.clone();
                cfg.set_wavefile(file.to_str().unwrap());
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Engine::new().go(&v[k].ckt, &cfg)));
                let raw = fs::read_to_string(&file).unwrap_or_default();
                alone.insert(k, match r { Ok(st) => format!("{:?}\n{}", st.map(|x| (x.end.to_bits(), x.iterations)), raw), Err(p) => format!("panic {}\n{}", panic_text(p), raw) });
                c.run.cap.clear();
            }
            if got != alone[&k] { return Err(format!("circuit {} analysed while others were differs: {}", k, first_difference(&alone[&k], &got)).into()); }
            c.count("analyses_in_threads", 1);
        }
        c.count("thread_groups", 1);
    }
    // processes
    if c.r.chance(0.03) {
        let k = c.r.below(v.len());
        let dir = c.run.subdir("proc");
        fs::write(dir.join("p.spi"), &v[k].text).unwrap();
        let go = |c: &mut Ctx| {
            let _ = fs::remove_dir_all(dir.join("waves"));
            let r = c.run.cli(&dir, "p.spi", Limits::default());
            (r.code, r.signal, r.out.lines().filter(|l| l.contains("*ERROR*") || l.contains("*FATAL*") || l.contains("Finished")).map(|l| l.to_string()).collect::<Vec<_>>(), snapshot(&dir))
        };
        let a = go(c);
        let b = go(c);
        if a != b { return Err(format!("two processes differ on circuit {}: exit {:?} and {:?}, {:?} and {:?}, data {}", k, a.0, b.0, a.2, b.2, if a.3 == b.3 { "equal" } else { "different" }).into()); }
        c.count("process_pairs", 1);
    }
    if good >= 2 { c.nontrivial(&v.iter().map(|j| j.text.as_str()).collect::<String>()); }
    Ok(())
}

fn messages(t: &str) -> usize { t.lines().filter(|l| l.contains("*ERROR*") || l.contains("*FATAL*") || l.contains("panicked")).count() }
fn finished(t: &str) -> Vec<String> { t.lines().filter(|l| l.contains("Finished")).map(s).collect() }

fn c26(c: &mut Ctx) -> Verdict {
    let as_program = c.r.chance(0.6);
    let d = if as_program || c.r.chance(0.5) { linear_deck(c) } else { loop { let d = any_deck(c, 0.6); if d.ctl.iter().any(|x| matches!(x, Ctl::Tran(..))) { break d; } } };
    let nl = d.flatten()?.nonlinear();
    let text = d.plain();
    c.note(&text);
    let dir = c.run.subdir("fault");
    fs::write(dir.join("deck.spi"), &text).unwrap();
    let (sim, x) = c.run.read(&text);
    sim.ran()?;
    let (ckt, mut cfg) = x.ok_or("no circuit")?;
    if nl { cfg.RMIN = 1e-3; }
    let good = c.run.analyse(&ckt, &cfg, Sim::default());
    // only what goes well without a fault
    if good.panic.is_some() || messages(&good.out) > 0 { c.count("failed_without_the_fault", 1); return Ok(()); }
    let raw = match &good.wave { Some(w) => w.raw.clone(), None => return Err(format!("no data without a fault: {}", good.last_error()).into()) };
    let calls = raw.lines().count() as u64;
    let r = &mut c.r;
    if as_program {
        let wd = dir.join("waves/deck.spi");
        let f = wd.join("tran.dat");
        let kind = r.below(16);
        let mut lim = Limits::default();
        let mut mode: &str = "";
        let mut at = r.range(1, calls as i64 + 1) as u64;
        match kind {
            0 => { fs::write(dir.join("waves"), "in the way").unwrap(); mode = "waves is a file"; }
            1 => { fs::create_dir(dir.join("waves")).unwrap(); fs::write(&wd, "in the way").unwrap(); mode = "waves/deck.spi is a file"; }
            2 => { fs::create_dir_all(&f).unwrap(); mode = "tran.dat is a directory"; }
            3 => { fs::create_dir_all(&wd).unwrap(); std::os::unix::fs::symlink("/dev/full", &f).unwrap(); mode = "tran.dat is /dev/full"; }
            4 => { fs::create_dir_all(&wd).unwrap(); std::os::unix::fs::symlink("nowhere/at/all", &f).unwrap(); mode = "tran.dat is a dangling link"; }
            5 => { fs::create_dir_all(&wd).unwrap(); std::os::unix::fs::symlink("tran.dat", &f).unwrap(); mode = "tran.dat links to itself"; }
            6 | 7 => { lim.fsize = if r.chance(0.8) { r.range(0, raw.len() as i64) as u64 } else { raw.len() as u64 + r.range(0, 5) as u64 }; lim.ignore_xfsz = true; mode = "file size limit"; at = lim.fsize; }
            _ => {}
        }
        let out = if mode.is_empty() {
            mode = *r.pick(&["short", "tiny", "eintr", "eio", "eio", "once", "once", "shortfull", "shortfull", "zero", "open_eacces", "open_enospc", "open_emfile", "open_erofs", "mkdir_eacces", "mkdir_enospc"]);
            let seed = r.u64() >> 20;
            c.run.cli_with_faults(&dir, "deck.spi", lim, mode, at, seed)
        } else { c.run.cli(&dir, "deck.spi", lim) };
        c.note(&format!("{} (at {})", mode, at));
        if out.signal.is_some() { return Err(format!("{}: {}", mode, out.brief()).into()); }
        let got = if f.is_symlink() { None } else { fs::read(&f).ok() };
        let complete = got.as_deref() == Some(raw.as_bytes());
        if !complete && messages(&out.text()) <= messages(&good.out) {
            return Err(format!("{} (at {}): {} of {} bytes are there and nothing says so; exit {:?}", mode, at, got.map_or(0, |x| x.len()), raw.len(), out.code).into());
        }
        // unless it stopped, it went on as if nothing had happened
        if !out.text().contains("panicked") && finished(&out.out) != finished(&good.out) { return Err(format!("{} (at {}): {:?} instead of {:?}", mode, at, finished(&out.out), finished(&good.out)).into()); }
        c.count(&format!("program_{}", mode.replace(' ', "_")), 1);
        if !complete { c.count("incomplete_and_reported", 1); c.nontrivial(&format!("{} {} {}", mode, at, text)); }
        // and a second run, without the fault, is complete
        if matches!(kind, 6..=15) && c.r.chance(0.2) {
            let out = c.run.cli(&dir, "deck.spi", Limits::default());
            if out.diagnosed() || fs::read(&f).ok().as_deref() != Some(raw.as_bytes()) { return Err(format!("after {}: the next run is not right: {}", mode, out.brief()).into()); }
            c.count("runs_after_a_fault", 1);
        }
        return Ok(());
    }
    // in process: what the analysis returns is that of the run without the fault
    let (what, file) = match r.below(5) {
        0 => ("/dev/full", PathBuf::from("/dev/full")),
        1 => { let p = dir.join("d.dat"); fs::create_dir_all(&p).unwrap(); ("a directory", p) }
        2 => { fs::write(dir.join("f"), "").unwrap(); ("below a file", dir.join("f/x/y.dat")) }
        3 => { let p = dir.join("l.dat"); std::os::unix::fs::symlink("/dev/full", &p).unwrap(); ("a link to /dev/full", p) }
        _ => { let p = dir.join("n.dat"); std::os::unix::fs::symlink("no/where", &p).unwrap(); ("a dangling link", p) }
    };
    c.note(&format!("wavefile is {}", what));
    cfg.set_wavefile(file.to_str().unwrap());
    c.run.cap.clear();
    let mut e = Engine::new();
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.go(&ckt, &cfg).map(|x| (x.end, x.iterations))));
    let out = c.run.cap.take();
    match got {
        Err(p) => if panic_text(p).is_empty() { return Err("panic without a message".into()); },
        Ok(st) => {
            let there = what != "/dev/full" && fs::symlink_metadata(&file).map_or(false, |m| m.is_file()) && fs::read(&file).ok().as_deref() == Some(raw.as_bytes());
            if !there && messages(&out) <= messages(&good.out) { return Err(format!("the data went to {} and nothing says so", what).into()); }
            if st != good.stats { return Err(format!("end and iterations are {:?} instead of {:?} when the data go to {}", st, good.stats, what).into()); }
            let dc = e.dc();
            if dc.as_ref().map(|v| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>()) != good.dc.as_ref().map(|v| v.iter().map(|x| x.to_bits()).collect()) { return Err(format!("another operating point when the data go to {}", what).into()); }
            c.count("statistics_compared", 1);
        }
    }
    c.count(&format!("in_process_{}", what.replace(' ', "_")), 1);
    c.count("incomplete_and_reported", 1);
    c.nontrivial(&format!("{} {}", what, text));
    Ok(())
}

/// what Python's float.hex gives
fn hexes(line: &str) -> Result<Vec<f64>, String> { line.split_whitespace().map(unhex).collect() }
fn unhex(x: &str) -> Result<f64, String> {
    let bad = || format!("not a number: {}", x);
    let (neg, y) = match x.strip_prefix('-') { Some(y) => (true, y), None => (false, x) };
    let y = y.strip_prefix("0x").ok_or_else(bad)?;
    let (m, e) = y.split_once('p').ok_or_else(bad)?;
    let e: i32 = e.parse().map_err(|_| bad())?;
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let mant = u64::from_str_radix(&format!("{}{}", i, f), 16).map_err(|_| bad())?;
    // up to 53 bits: exact in two steps even where the power alone would underflow
    let k = e - 4 * f.len() as i32;
    let v = mant as f64 * 2f64.powi(k / 2) * 2f64.powi(k - k / 2);
    Ok(if neg { -v } else { v })
}
fn same(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y) }

fn c22(c: &mut Ctx) -> Verdict {
    use std::process::Command;
    let base = c.run.subdir("view");
    let home = base.join(c.r.pick(&["waves", "a dir", "x.dat", "-dir", "d"]));
    fs::create_dir_all(&home).unwrap();
    let py = PathBuf::from(env!("CARGO_MANIFEST_DIR")).join("py");
    let viewer = PathBuf::from(&c.subject).join("bin/r8n");
    let log = base.join("log");
    let python = |a: &[String], cwd: &Path| -> Cli {
        let mut cmd = Command::new("python3");
        cmd.args(a).env("PYTHONPATH", &py).env("PYTHONDONTWRITEBYTECODE", "1").env("PYTHONPYCACHEPREFIX", base.join("pyc")).env("R8N_LOG", &log);
        spawn(&mut cmd, Limits::default(), cwd)
    };
    let drawn = || fs::read_to_string(&log).unwrap_or_default();
    let dirarg = |r: &mut Rng| -> (String, PathBuf) {
        let n = home.file_name().unwrap().to_str().unwrap().to_string();
        match r.below(4) { 0 => (home.to_str().unwrap().to_string(), base.clone()), 1 => (format!("{}/", home.to_str().unwrap()), base.clone()), 2 => (s("."), home.clone()), _ => (if n.starts_with('-') { format!("./{}", n) } else { n }, base.clone()) }
    };
    // arguments nothing can be drawn for
    if c.r.chance(0.17) {
        let other = ["readme.txt", "tran.dat.old", "dat", "tran_dat", "x.data", "x.DAT"];
        for f in other { if c.r.chance(0.4) { fs::write(home.join(f), "Time\tv(gnd)\tv(a)\ns\tV\tV\n0\t0\t1\n").unwrap(); } }
        let (d, cwd) = dirarg(&mut c.r);
        let h = home.to_str().unwrap().to_string();
        fs::write(base.join("file.dat"), "Time\tv(gnd)\tv(a)\ns\tV\tV\n0\t0\t1\n").unwrap();
        let kind = c.r.below(9);
        if kind >= 5 { fs::write(home.join("tran.dat"), "Time\tv(gnd)\tv(a)\ns\tV\tV\n0\t0\t1\n1\t0\t2\n").unwrap(); }
        let args: Vec<String> = match kind {
            0 => vec![],
            1 => vec![d],
            2 => vec![s("-expr"), s("1"), d],
            3 => vec![format!("{}/nosuch", h)],
            4 => vec![base.join("file.dat").to_str().unwrap().to_string()],
            5 => vec![d, s("-expr")],
            6 => vec![s("-expr")],
            7 => vec![s("-expr"), s("1")],
            _ => vec![home.join("tran.dat").to_str().unwrap().to_string(), s("-expr"), s("2")],
        };
        let mut a = vec![viewer.to_str().unwrap().to_string()];
        a.extend(args);
        c.note(&format!("in {}: {:?}", cwd.display(), &a[1..]));
        let r = python(&a, &cwd);
        if r.signal.is_some() || r.code == Some(0) || r.code.is_none() { return Err(format!("{:?} ends with {:?} {:?}", &a[1..], r.code, r.signal).into()); }
        if !drawn().is_empty() { return Err(format!("{:?} draws {}", &a[1..], drawn().chars().take(200).collect::<String>()).into()); }
        c.count("unusable_arguments_refused", 1);
        return Ok(());
    }
    // data of the simulator
    let mut names: Vec<&str> = vec!["tran.dat", "a.dat", "B.dat", "b.dat", "10.dat", "2.dat", "1.dat", "Z.dat", "_.dat", "run 1.dat", "x.y.dat", "dat.dat", "\u{e9}.dat", "-1.dat"];
    c.r.shuffle(&mut names);
    let more: Vec<String> = (0..20).map(|k| format!("w{}.dat", k)).collect();
    names.extend(more.iter().map(|x| x.as_str()));
    let n = if c.r.chance(0.03) { c.r.urange(6, 30) } else { c.r.urange(1, 5) };
    let mut waves: BTreeMap<String, Wavefile> = BTreeMap::new();
    while waves.len() < n {
        let mut text = linear_deck(c).plain();
        if waves.is_empty() && c.r.chance(0.05) {
            // a long one
            text = format!("title\nV1 a 0 SIN(0 1 {})\nR1 a b 1\nC1 b 0 1m\n.control\noption RMAX=1\ntran 1m {}m\n.endc\n", c.r.urange(1, 300), c.r.urange(1000, 20000));
            c.count("long_files", 1);
        }
        if c.r.chance(0.1) {
            // another time scale
            let h = c.r.logu(1e-18, 1e6);
            text = format!("title\nV1 a 0 SIN(0 1 {:e})\nR1 a b 1\nC1 b 0 {:e}\n.control\noption RMAX={}\ntran {:e} {:e}\n.endc\n", 0.1 / h, h * 3.0, c.r.range(1, 5), h, h * c.r.urange(5, 60) as f64);
            c.count("files_at_other_time_scales", 1);
        }
        if c.r.chance(0.15) { let at = text.find(".control").unwrap(); text.insert_str(at, "V661 q661 0 1\nV662 q661 0 2\n"); }
        let sim = c.run.run(&text);
        if let Some(e) = &sim.wave_err { return Err(format!("data file: {}", e).into()); }
        if let Some(w) = sim.wave { if w.names.len() < 3 { continue; } let k = names[waves.len()].to_string(); fs::write(home.join(&k), &w.raw).unwrap(); waves.insert(k, w); }
    }
    for f in ["notes.txt", "tran.dat.bak", "x.data", "adat", "y.DAT"] { if c.r.chance(0.3) { fs::write(home.join(f), "nothing to see\n").unwrap(); } }
    if c.r.chance(0.3) { fs::create_dir_all(home.join("sub")).unwrap(); fs::write(home.join("sub/inner.dat"), "no").unwrap(); }
    let cols = waves.values().map(|w| w.names.len()).min().unwrap();
    let r = &mut c.r;
    let ne = if r.chance(0.08) { r.urange(5, 14) } else { r.urange(1, 4) };
    let exprs: Vec<(usize, Option<usize>)> = (0..ne).map(|_| (r.below(cols), if r.chance(0.5) { Some(r.below(cols)) } else { None })).collect();
    let show = |r: &mut Rng, e: &(usize, Option<usize>)| match e.1 { None => e.0.to_string(), Some(j) => format!("{}{}{}", e.0, r.pick(&["-", " - ", "- ", " -"]), j) };
    let (d, cwd) = dirarg(r);
    let default = r.chance(0.12);
    let used = if default { vec![(2, None)] } else { exprs.clone() };
    let list = exprs.iter().map(|e| { let t = show(r, e); let pad = r.pick(&["", "", " "]); format!("{}{}", pad, t) }).collect::<Vec<_>>().join(",");
    let mut a = vec![viewer.to_str().unwrap().to_string()];
    if default { a.push(d); } else if r.chance(0.6) { a.extend([s("-expr"), list, d]); } else { a.extend([d, s("-expr"), list]); }
    c.note(&format!("in {}: {:?}; files {:?}", cwd.display(), &a[1..], waves.keys().collect::<Vec<_>>()));
    let out = python(&a, &cwd);
    if out.code != Some(0) { return Err(format!("the viewer ends with {:?} {:?}: {}", out.code, out.signal, out.err.lines().last().unwrap_or("")).into()); }
    let col = |w: &Wavefile, k: usize| -> Vec<f64> { if k == 0 { w.t.clone() } else { w.rows.iter().map(|r| r[k - 1]).collect() } };
    let value = |w: &Wavefile, e: &(usize, Option<usize>)| -> Vec<f64> { let y = col(w, e.0); match e.1 { None => y, Some(j) => y.iter().zip(col(w, j)).map(|(a, b)| a - b).collect() } };
    let mut lines = vec![];
    let mut shown = false;
    for l in drawn().lines() {
        if let Some(x) = l.strip_prefix("LINE ") {
            let (x, y) = x.split_once('|').ok_or("log")?;
            lines.push((hexes(x)?, hexes(y)?));
            if shown { return Err("something is drawn after it was shown".into()); }
        }
        if l == "SHOW" { shown = true; }
    }
    let mut want = vec![];
    for (f, w) in &waves { for e in &used { want.push((f, e, col(w, 0), value(w, e))); } }
    if lines.len() != want.len() { return Err(format!("{} lines are drawn for {} files and {} expressions", lines.len(), waves.len(), used.len()).into()); }
    for (k, ((x, y), (f, e, wx, wy))) in lines.iter().zip(&want).enumerate() {
        if !same(x, wx) { return Err(format!("line {}: the x values are not those of {}", k + 1, f).into()); }
        if !same(y, wy) { return Err(format!("line {}: the y values are not those of {} {:?}: {:?} instead of {:?}", k + 1, f, e, y.iter().take(4).collect::<Vec<_>>(), wy.iter().take(4).collect::<Vec<_>>()).into()); }
    }
    if !shown { return Err("it was drawn but never shown".into()); }
    c.count("lines_drawn", lines.len() as u64);
    c.count("points_drawn", lines.iter().map(|l| l.0.len() as u64).sum());
    // and loaded directly
    let mut a: Vec<String> = vec![py.join("loads.py").to_str().unwrap().into(), viewer.to_str().unwrap().into(), base.join("loads").to_str().unwrap().into()];
    let mut plan = vec![];
    for (f, w) in &waves { for _ in 0..3 { let cols = w.names.len(); let e = (c.r.below(cols), if c.r.chance(0.5) { Some(c.r.below(cols)) } else { None }); a.push(home.join(f).to_str().unwrap().into()); a.push(show(&mut c.r, &e)); plan.push((f, w, e)); } }
    let out = python(&a, &base);
    if out.code != Some(0) { return Err(format!("load fails: {:?} {}", out.code, out.err.lines().last().unwrap_or("")).into()); }
    let t = fs::read_to_string(base.join("loads")).unwrap_or_default();
    let l: Vec<&str> = t.lines().collect();
    if l.len() != 3 * plan.len() { return Err("some were not loaded".into()); }
    for (k, (f, w, e)) in plan.iter().enumerate() {
        let head = [&w.names[0], &w.units[0], &w.names[e.0], &w.units[e.0]].iter().map(|x| x.as_str()).collect::<Vec<_>>().join("\t");
        if l[3 * k] != head { return Err(format!("{} {:?}: names and units {:?} instead of {:?}", f, e, l[3 * k], head).into()); }
        if !same(&hexes(l[3 * k + 1])?, &col(w, 0)) || !same(&hexes(l[3 * k + 2])?, &value(w, e)) { return Err(format!("{} {:?}: other values are loaded", f, e).into()); }
    }
    c.count("waveforms_loaded", plan.len() as u64);
    if lines.len() >= 2 { c.nontrivial(&format!("{:?}{}", used, waves.values().map(|w| w.raw.as_str()).collect::<String>())); }
    Ok(())
}

fn c21(c: &mut Ctx) -> Verdict { if c.r.chance(0.12) { c21_large(c) } else { c21_settings(c) } }

fn r_card(id: String, a: &str, b: &str, ohm: f64) -> Card { Card::R { id, a: s(a), b: s(b), v: Val::Lit(num::exact(ohm)) } }
fn v_card(id: String, p: &str, n: &str, v: f64) -> Card { Card::V { id, p: s(p), n: s(n), s: Src::Dc(num::exact(v)) } }
fn sub(name: String, ports: &[&str], cards: Vec<Card>) -> Item { Item::Sub(SubDef { name, ports: ports.iter().map(|x| s(x)).collect(), params: vec![], cards }) }
fn inst(id: String, conns: &[String], sub: &str) -> Card { Card::X { id, conns: conns.to_vec(), sub: s(sub), over: vec![] } }

fn c21_large(c: &mut Ctx) -> Verdict {
    let r = &mut c.r;
    let kind = r.below(11);
    let mut items: Vec<Item> = vec![];
    let mut ctl = vec![Ctl::Op];
    let ohm = |r: &mut Rng| (r.logu(10.0, 1e4) * 10.0).round() / 10.0;
    let put = |items: &mut Vec<Item>, c: Card| items.push(Item::Card(c));
    let short = |r: &mut Rng| { let st = r.logu(1e-6, 1e-4); vec![Ctl::Tran(num::exact(st), num::exact(st * r.logu(1.0, 5.0)), None)] };
    put(&mut items, v_card(s("V0"), "in", "0", 5.0));
    match kind {
        0 => { // ladder
            let n = r.urange(60, 400);
            let mut last = s("in");
            // plain numbers for names too, in some order
            let mut nums: Vec<usize> = (1..=n).collect();
            let plain = r.chance(0.4);
            if r.chance(0.7) { r.shuffle(&mut nums); }
            for k in 0..n { let x = if plain { nums[k].to_string() } else { format!("n{}", k) }; let (a, b) = (ohm(r), ohm(r) * 100.0); put(&mut items, r_card(format!("R{}", k), &last, &x, a)); put(&mut items, r_card(format!("Rg{}", k), &x, "0", b)); if k % 3 == 0 { put(&mut items, Card::C { id: format!("C{}", k), a: x.clone(), b: s("gnd"), v: Val::Lit(num::exact(1e-9)) }); } last = x; }
            ctl = short(r);
        }
        1 => { // mesh
            let (w, h) = (r.urange(5, 15), r.urange(5, 15));
            let nm = |i: usize, j: usize| if i == 0 && j == 0 { s("in") } else { format!("m{}_{}", i, j) };
            for i in 0..w { for j in 0..h {
                if i + 1 < w { let x = ohm(r); put(&mut items, r_card(s("R1"), &nm(i, j), &nm(i + 1, j), x)); }
                if j + 1 < h { let x = ohm(r); put(&mut items, r_card(s("R2"), &nm(i, j), &nm(i, j + 1), x)); }
            } }
            put(&mut items, r_card(s("RL"), &nm(w - 1, h - 1), "0", 100.0));
        }
        2 => { // hundreds of sources, in series and to ground
            let n = r.urange(50, 180);
            let mut last = s("in");
            for k in 0..n {
                let x = format!("s{}", k);
                let v = r.range(-50, 50) as f64 / 10.0;
                match r.below(3) {
                    0 => { put(&mut items, v_card(format!("V{}", k), &x, &last, v)); let o = ohm(r); put(&mut items, r_card(format!("R{}", k), &x, "0", o)); last = x; }
                    1 => { put(&mut items, v_card(format!("V{}", k), &x, "0", v)); let o = ohm(r); put(&mut items, r_card(format!("R{}", k), &x, &last, o)); }
                    _ => { let o = ohm(r); put(&mut items, r_card(format!("R{}", k), &x, "0", o)); put(&mut items, Card::I { id: format!("I{}", k), p: s("0"), n: x.clone(), s: Src::Dc(num::exact(v * 1e-3)) }); put(&mut items, Card::E { id: format!("E{}", k), p: format!("e{}", k), n: s("0"), cp: x, cn: last.clone(), k: Val::Lit(num::exact(0.5)) }); }
                }
            }
            if r.chance(0.5) { r.shuffle(&mut items); }
            ctl = short(r);
        }
        3 => { // thousands of elements
            let n = r.urange(1000, 6000);
            put(&mut items, r_card(s("Rs"), "in", "out", 100.0));
            for k in 0..n { let x = ohm(r) * 1000.0; put(&mut items, r_card(format!("R{}", k), "out", "0", x)); }
        }
        4 => { // a chain of levels
            let depth = r.urange(10, 90);
            for k in 0..depth {
                let mut cards = vec![r_card(s("R1"), "a", "b", 10.0), r_card(s("R2"), "b", "0", 1000.0)];
                if k + 1 < depth { cards.push(inst(s("X1"), &[s("b")], &format!("level{}", k + 1))); }
                items.push(sub(format!("level{}", k), &["a"], cards));
            }
            if r.chance(0.5) { r.shuffle(&mut items); }
            put(&mut items, inst(s("X0"), &[s("in")], "level0"));
            if r.chance(0.3) { ctl = short(r); }
        }
        5 => { // a tree of instances
            let depth = r.urange(3, 7);
            for k in 0..depth {
                let mut cards = vec![r_card(s("R1"), "a", "b", 100.0)];
                if k + 1 < depth { for j in 0..2 { cards.push(inst(format!("X{}", j), &[s("b")], &format!("t{}", k + 1))); } } else { cards.push(r_card(s("R2"), "b", "0", 1000.0)); }
                items.push(sub(format!("t{}", k), &["a"], cards));
            }
            put(&mut items, inst(s("X0"), &[s("in")], "t0"));
        }
        6 => { // wide
            let n = r.urange(100, 300);
            items.push(sub(s("cell"), &["a", "b"], vec![r_card(s("R1"), "a", "m", 50.0), r_card(s("R2"), "m", "b", 50.0)]));
            let star = r.chance(0.5);
            for k in 0..n { let (a, b) = if star { (s("in"), s("0")) } else { (if k == 0 { s("in") } else { format!("w{}", k) }, if k + 1 == n { s("gnd") } else { format!("w{}", k + 1) }) }; put(&mut items, inst(format!("X{}", k), &[a, b], "cell")); }
        }
        7 => { // many definitions, most of them not used
            let n = r.urange(100, 500);
            for k in 0..n { items.push(sub(format!("d{}", k), &["p"], vec![r_card(s("R1"), "p", "0", 100.0 + k as f64), r_card(s("R2"), "p", "unused_outside", 5.0)])); }
            for k in 0..20 { let x = r.below(n); put(&mut items, inst(format!("X{}", k), &[s("in")], &format!("d{}", x))); }
        }
        8 => { // many points
            let n = r.urange(500, 5000);
            let pts = (0..n).map(|k| (num::exact(k as f64 * 1e-6), num::exact(((k * 37) % 100) as f64 / 10.0))).collect();
            put(&mut items, Card::V { id: s("V1"), p: s("p"), n: s("0"), s: Src::Pwl { pts, td: None, r: if r.chance(0.5) { Some(num::int(0)) } else { None } } });
            put(&mut items, r_card(s("R1"), "p", "in", 100.0));
            let m = r.urange(200, 2000) as f64;
            ctl = vec![Ctl::Tran(num::exact(1e-6), num::exact(m * 1e-6), None)];
        }
        9 => { // many steps
            put(&mut items, r_card(s("R1"), "in", "o", 1000.0));
            put(&mut items, Card::C { id: s("C1"), a: s("o"), b: s("0"), v: Val::Lit(num::exact(1e-6)) });
            let m = r.urange(20000, 100000) as f64;
            ctl = vec![Ctl::Option(s("RMAX"), num::int(1)), Ctl::Tran(num::exact(1e-6), num::exact(m * 1e-6), None)];
        }
        _ => { // random and large
            let mut o = Opts::linear();
            o.nodes = (60, 150); o.extra = (50, 300); o.r = (10.0, 1e5); o.c = (1e-9, 1e-7);
            items.clear();
            for x in gen::cards(r, &o) { put(&mut items, x); }
            ctl = short(r);
        }
    }
    let mut d = Deck { title: s("large"), items, ctl };
    // a long line
    if r.chance(0.1) { d.title = "x".repeat(r.urange(1000, 100000)); }
    let text = d.plain();
    c.note(&format!("kind {}, {} lines\n{}", kind, text.lines().count(), text.chars().take(3000).collect::<String>()));
    let f = d.flatten()?;
    let tran = matches!(d.ctl.last(), Some(Ctl::Tran(..)));
    let sim = c.run.run(&text);
    if tran {
        let w = sim.clean()?.clone();
        let g = w.model(&f)?;
        // all rows of a large matrix are dear
        let mut w2 = w.clone();
        if g.dim() > 40 { w2.t.truncate(3); w2.rows.truncate(3); }
        if w.t.len() > 3000 { let k = w.t.len(); w2.t = w.t[k - 3..].to_vec(); w2.rows = w.rows[k - 3..].to_vec();
            for j in 1..3 { check_point(&g, &Point { t: w2.t[j], slack: 4.0 * EPS * w2.t[j], x: &w2.rows[j], prev: Some((&w2.rows[j - 1], w2.t[j - 1])) }, &Tol::default()).map_err(|e| format!("near the end: {}", e))?; }
            if w.t.windows(2).any(|x| !(x[1] > x[0])) { return Err("times do not increase".into()); }
        } else { check_rows(c, &g, &w2, &Tol::default())?; }
        let stop = match d.ctl.last() { Some(Ctl::Tran(_, b, _)) => b.val, _ => 0.0 };
        if w.t.last() != Some(&stop) { return Err(format!("ends at {:?} instead of {:e}", w.t.last(), stop).into()); }
        c.max("time_steps", w.t.len() as f64);
    } else {
        sim.ran()?;
        if sim.errors() { return Err(format!("a large circuit fails: {}", sim.last_error()).into()); }
        let x = sim.dc.clone().ok_or("no solution")?;
        let g = sim.dc_model(&x, &f)?;
        check_point(&g, &Point { t: 0.0, slack: 0.0, x: &x, prev: None }, &Tol::default())?;
    }
    c.max("nodes", f.names.len() as f64);
    c.max("elements", f.els.len() as f64);
    c.max("sources", f.branches.len() as f64);
    c.count("large_circuits", 1);
    c.count(&format!("large_kind_{}", ["ladder", "mesh", "sources", "elements", "levels", "tree", "wide", "definitions", "points", "steps", "random"][kind]), 1);
    c.nontrivial(&text);
    // gaps in the numbers of nodes
    if c.r.chance(0.3) {
        use tiny_spice::circuit::*;
        let n = c.r.urange(2, 12);
        let mut ids: Vec<usize> = vec![0];
        for _ in 0..n { let k = ids[ids.len() - 1] + c.r.urange(1, 40); ids.push(k); }
        let mut ckt = Circuit::new();
        ckt.add_v(ids[1], 0, 10.0);
        for k in 1..n { ckt.add_r(format!("R{}", k), ids[k], ids[k + 1], 100.0); }
        ckt.add_r(s("RL"), ids[n], 0, 100.0);
        c.run.cap.clear();
        let mut e = Engine::new();
        let mut cfg = Configuration::new();
        cfg.set_dc_operating_point();
        let st = e.go(&ckt, &cfg);
        let out = c.run.cap.take();
        if st.is_none() || out.contains("*ERROR*") { return Err(format!("a circuit with node numbers {:?} fails", ids).into()); }
        let x = e.dc().ok_or("no solution")?;
        if x.len() < ids[n] + 2 { return Err(format!("{} values for node numbers {:?}", x.len(), ids).into()); }
        for k in 1..=n { let w = 10.0 * (n + 1 - k) as f64 / n as f64; if (x[ids[k]] - w).abs() > 1e-9 { return Err(format!("node {} of {:?} is at {} instead of {}", ids[k], ids, x[ids[k]], w).into()); } }
        c.count("circuits_with_gaps", 1);
    }
    Ok(())
}

fn c21_settings(c: &mut Ctx) -> Verdict {
    use tiny_spice::analysis::Kind;
    let r = &mut c.r;
    let mut o = Opts::linear();
    o.ptime = 0.4; o.wc = 2.0; o.c = (1e-9, 1e-6); o.nodes = (1, 5); o.extra = (0, 5);
    if r.chance(0.6) { o.wd = 3.0; o.r = (100.0, 1e6); o.v = (0.1, 10.0); o.i = (1e-6, 1e-2); }
    let cards = gen::cards(r, &o);
    let d = flat_deck(cards, vec![Ctl::Op]);
    let f = d.flatten()?;
    let nl = f.nonlinear();
    let text = d.plain();
    c.note(&text);
    let r = &mut c.r;
    let mut g = Configuration::new();
    let step = 1e-3 * r.logu(0.02, 0.2);
    let steps = r.logu(0.5, 60.0);
    g.set_transient(step * steps, step, 0.0);
    if r.chance(0.1) { g.kind = Some(Kind::DcOperatingPoint); }
    g.RMIN = if nl { r.logu(1e-4, 1e-1) } else { *r.pick(&[1e-9, 1e-3, 1e-30, 1e-300, 2.0]) };
    let mut odd = vec![];
    let odds = [0.0, -0.0, -1.0, -1e-9, f64::NAN, f64::NEG_INFINITY, 1e-320, 1e-300, 1e300, f64::INFINITY];
    for _ in 0..r.urange(1, 3) {
        match r.below(12) {
            0 => { g.TSTEP = *r.pick(&odds); odd.push("TSTEP"); }
            1 => { g.TSTOP = *r.pick(&odds); odd.push("TSTOP"); }
            2 => { g.RMAX = if r.chance(0.5) { *r.pick(&odds) } else { r.logu(0.02, 100.0) }; odd.push("RMAX"); }
            3 => { g.FS = if r.chance(0.5) { *r.pick(&odds) } else { r.logu(1e-12, 10.0) }; odd.push("FS"); }
            4 => { g.FT = if r.chance(0.5) { *r.pick(&[0.0, -0.5, 1.0, 1.5, f64::NAN, f64::INFINITY, 1e-300, 1e-3]) } else { r.logu(0.01, 0.95) }; odd.push("FT"); }
            5 => { g.RMIN = if r.chance(0.5) { *r.pick(&[0.0, -1.0, f64::NAN, 1e9, f64::INFINITY]) } else { r.logu(1e-4, 1e3) }; odd.push("RMIN"); }
            6 => { g.ITL3 = *r.pick(&[0, 1, 2, 3, 50, 1000]); odd.push("ITL3"); }
            7 | 8 => { g.ITL4 = *r.pick(&[0, 1, 2, 3, 4, 8, 200]); odd.push("ITL4"); }
            9 => { g.ITL1 = *r.pick(&[0, 1, 2, 3, 10, 1000]); odd.push("ITL1"); }
            10 => { g.RELTOL = *r.pick(&[0.0, -1.0, 1.0, 1e-15, f64::NAN]); g.VNTOL = *r.pick(&[0.0, 1e-6, 1e-15]); odd.push("RELTOL"); }
            _ => { g.TSTART = *r.pick(&[-1.0, 1e300, f64::NAN, g.TSTOP, g.TSTOP * 0.5]); odd.push("TSTART"); }
        }
    }
    // nothing that means very many steps if it is done right
    let most = (g.TSTOP / g.TSTEP) / g.RMAX.min(1e300);
    let first = g.FS.min(g.RMAX);
    if most > 2e4 && g.TSTOP.is_finite() && g.RMAX > 0.0 && g.TSTEP > 0.0 { c.count("skipped_too_many_steps", 1); return Ok(()); }
    // diodes and tiny limits: every step may have to be small
    let tight = !(g.RELTOL > 1e-6) || g.ITL4 < 8;
    if g.ITL3 <= 2 || tight {
        // steps never grow again
        let low = if nl || tight { g.RMIN.min(first).max(1e-4 * first) } else { first };
        if g.RMIN < low { g.RMIN = low; }
        if (g.TSTOP / g.TSTEP) / low > 2e4 && g.TSTOP.is_finite() { c.count("skipped_too_many_steps", 1); return Ok(()); }
    }
    c.note(&format!("{:?}: TSTEP {:e} TSTOP {:e} TSTART {:e} FS {:e} FT {:e} RMIN {:e} RMAX {:e} ITL1 {} ITL3 {} ITL4 {} RELTOL {:e} VNTOL {:e}", odd, g.TSTEP, g.TSTOP, g.TSTART, g.FS, g.FT, g.RMIN, g.RMAX, g.ITL1, g.ITL3, g.ITL4, g.RELTOL, g.VNTOL));
    let (sim, x) = c.run.read(&text);
    sim.ran()?;
    let (ckt, _) = x.ok_or("no circuit")?;
    // an end to it all comes from the CPU limit of the case
    let sim = c.run.analyse(&ckt, &g, Sim::default());
    c.count("settings_tried", 1);
    if let Some(p) = &sim.panic { if p.is_empty() { return Err("panic without a message".into()); } c.count("stopped_with_a_message", 1); return Ok(()); }
    let (end, it) = match sim.stats { Some(x) => x, None => if sim.errors() { return Ok(()) } else { return Err("no result and no error".into()) } };
    if matches!(g.kind, Some(Kind::DcOperatingPoint)) {
        if it > g.ITL1 + 1 { return Err(format!("{} iterations with ITL1 = {}", it, g.ITL1).into()); }
        if sim.dc.is_none() && !sim.errors() { return Err("no solution and no error".into()); }
        c.nontrivial(&format!("{:?}{}", odd, text));
        return Ok(());
    }
    if !sim.errors() && end != g.TSTOP { return Err(format!("ended at {:e} without an error, TSTOP is {:e}", end, g.TSTOP).into()); }
    if sim.errors() { c.count("ended_with_an_error", 1); }
    let rows = sim.wave.as_ref().map_or(0, |w| w.t.len());
    if !(g.TSTART > 0.0) && !g.TSTART.is_nan() {
        // accepted steps, and as many reductions as they can make good, each at most ITL4 (or one) iterations
        let steps = rows as f64 + 1.0;
        let floor = if g.RMIN > 0.0 { (first / g.RMIN).ln().max(0.0) } else { 0.0 };
        let cuts = if g.FT > 0.0 && g.FT < 1.0 { (steps * 2f64.ln() + floor) / (1.0 / g.FT).ln() + 2.0 } else { 2.0 };
        let bound = (g.ITL1 as f64 + 1.0) + (steps + cuts) * (g.ITL4.max(1) as f64 + 1.0);
        if bound.is_finite() && it as f64 > bound { return Err(format!("{} iterations for {} rows (ITL1 {} ITL4 {} FT {}): more than {}", it, rows, g.ITL1, g.ITL4, g.FT, bound).into()); }
        c.count("iteration_bounds_checked", 1);
    }
    c.count("rows_with_odd_settings", rows as u64);
    c.nontrivial(&format!("{:?}{}", odd, text));
    Ok(())
}

// ---- C25

const WORDS: [&[u8]; 78] = [b"R1", b"V1", b"I1", b"C1", b"D1", b"E1", b"G1", b"X1", b"X2", b"R", b"V", b"I", b"C", b"D", b"E", b"G", b"X", b"0", b"gnd", b"GND", b"1", b"2", b"a", b"b", b"out",
    b"1k", b"10.5u", b"1e3", b"-1", b"1e", b"1e-", b".", b"..", b"1.", b".5", b"-", b"+", b"1e999", b"1e99999999999999999999", b"NaN", b"inf", b"{r}", b"{", b"}", b"{}", b"{ r }", b"{r", b"r}", b"{{r}}", b"r=1", b"r={r}", b"r=", b"=", b"==",
    b"PWL(0,0", b"PWL(", b"SIN(0", b"SIN(0,1,1k)", b"SIN", b")", b"(", b",", b"td=1u", b"r=0", b".subckt", b".ends", b".control", b".endc", b".lib", b".endl", b".foo", b"*", b";", b"op", b"tran", b"option", b"RELTOL=1e-3", b"s"];

fn words(r: &mut Rng, max: usize) -> Vec<u8> {
    let mut t = vec![];
    while t.len() < max {
        for _ in 0..r.urange(0, 8) {
            let w = *r.pick(&WORDS);
            t.extend_from_slice(w);
            if !r.chance(0.04) { t.extend_from_slice(*r.pick(&[&b" "[..], b" ", b" ", b"  ", b"\t", b"\x0b", b"\xc2\xa0"])); }
        }
        t.extend_from_slice(if r.chance(0.95) { b"\n" } else { b"\r\n" });
    }
    t
}

fn valid(r: &mut Rng) -> Vec<u8> {
    let mut d = if r.chance(0.5) {
        gen::hier(r, &HOpts { diodes: 0.1, ..HOpts::ordinary() })
    } else {
        flat_deck(gen::cards(r, &Opts { wd: 1.5, we: 0.7, wg: 0.7, ..Opts::linear() }), vec![])
    };
    d.ctl = vec![if r.chance(0.5) { Ctl::Op } else { Ctl::Tran(num::near(r, 1e-6), num::near(r, 1e-5), None) }];
    let seed = r.u64();
    d.text(&mut if r.chance(0.5) { Layout::plain() } else { Layout::random(seed, 0.3, true) }).into_bytes()
}

/// pieces of a line that could be a field
fn fields(t: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut s = None;
    for (i, c) in t.iter().enumerate() {
        let w = c.is_ascii_whitespace();
        if let (true, Some(a)) = (w, s) { v.push((a, i)); s = None; }
        if !w && s.is_none() { s = Some(i); }
    }
    if let Some(a) = s { v.push((a, t.len())); }
    v
}

fn mutate(r: &mut Rng, t: &mut Vec<u8>) {
    if t.is_empty() { return; }
    let n = t.len();
    match r.below(15) {
        13 | 14 => {
            // one field, or all fields like it, becomes long and repetitive
            let f = fields(t);
            if f.is_empty() { return; }
            let unit: Vec<u8> = match r.below(4) {
                0 => b"_".to_vec(),
                1 => vec![*r.pick(b"0aZ9(){}.,=-+*;'\"/x")],
                2 => r.pick(&WORDS).to_vec(),
                _ => (0..r.urange(1, 3)).map(|_| *r.pick(b"_a0A9")).collect(),
            };
            let k = if r.chance(0.8) { r.urange(20, 120) } else { r.urange(120, 5000) };
            let mut long = unit.repeat(k);
            if r.chance(0.3) { long.push(*r.pick(b"_a0!(}")); }
            let (a, b) = *r.pick(&f);
            let w = t[a..b].to_vec();
            if r.chance(0.3) { t.splice(a..b, long); } else { for (x, y) in f.iter().rev() { if t[*x..*y] == w[..] { t.splice(*x..*y, long.iter().cloned()); } } }
        }
        0 => { let i = r.below(n); t[i] = r.u64() as u8; }
        1 => { let i = r.below(n); t[i] ^= 1 << r.below(8); }
        2 => { let a = r.below(n); let b = (a + r.urange(1, 40)).min(n); t.drain(a..b); }
        3 => { let a = r.below(n); let b = (a + r.urange(1, 60)).min(n); let piece = t[a..b].to_vec(); let at = r.below(n + 1); t.splice(at..at, piece); }
        4 => t.truncate(r.below(n)),
        5 | 6 => { let f = fields(t); if !f.is_empty() { let (a, b) = *r.pick(&f); let w = r.pick(&WORDS).to_vec(); t.splice(a..b, w); } }
        7 => { let f = fields(t); if f.len() > 1 { let (a, b) = *r.pick(&f); let (c, d) = *r.pick(&f); let w = t[c..d].to_vec(); t.splice(a..b, w); } }
        8 => { let f = fields(t); if !f.is_empty() { let (a, b) = *r.pick(&f); t.drain(a..b); } }
        9 | 10 | 11 => {
            let mut l: Vec<Vec<u8>> = t.split(|c| *c == b'\n').map(|x| x.to_vec()).collect();
            let i = r.below(l.len());
            match r.below(5) {
                0 => { l.remove(i); }
                1 => { let x = l[i].clone(); let j = r.below(l.len() + 1); l.insert(j, x); }
                2 => { let j = r.below(l.len()); l.swap(i, j); }
                3 => { let x = words(r, 1); l.insert(i, x); }
                _ => { if i + 1 < l.len() { let x = l.remove(i + 1); l[i].extend_from_slice(&x); } }
            }
            *t = l.join(&b'\n');
        }
        _ => { let w: &[u8] = *r.pick(&[&b"\0"[..], b"\xff", b"\xc3\xa9", b"\xf0\x9f\x98\x80", b"\r", b"\xef\xbb\xbf", b"\xe2\x80\x83", b"\x1a", b"\xc2\xb5", b"\xe2\x84\xa6", b"\xd9\xa1"]); let at = r.below(n + 1); t.splice(at..at, w.to_vec()); }
    }
}

fn digits(r: &mut Rng, n: usize) -> String { (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect() }

/// much of one thing
fn lots(r: &mut Rng) -> Vec<u8> {
    let n = if r.chance(0.1) { r.urange(2000, 60000) } else { r.urange(100, 3000) };
    let mut t = String::from("title\n");
    match r.below(12) {
        0 => { let d = digits(r, n); t += &format!("R1 1 0 {}{}{}\n", if r.chance(0.5) { "." } else { "" }, d, r.pick(&["", "k", "u", "e3", "e-5"])); }
        1 => { let d = digits(r, n); t += &format!("R1 1 0 1e{}{}\n", if r.chance(0.5) { "-" } else { "" }, d); }
        2 => { t += "V1 1 0 PWL("; for i in 0..n / 5 { t += &format!("{}{},{}", if i > 0 { "," } else { "" }, i, r.below(9)); } t += ")\n"; }
        3 => { let name = "n".repeat(n); t += &format!("R1 {} 0 1k\nV1 {} 0 1\n", name, name); }
        4 => { t += &format!("R1 1 0 {}r{}\n", "{".repeat(r.urange(1, n)), "}".repeat(n)); }
        5 => for i in 0..n / 12 { t += &format!("R{} {} {} 1\n", i, i, i + 1); },
        6 => { t += "X1 "; for i in 0..n / 5 { t += &format!("{} ", i); } t += &format!("s{}\n.subckt s", if r.chance(0.5) { " r=1" } else { "" }); for i in 0..n / 5 + r.below(2) { t += &format!(" p{}", i); } t += "\n.ends\n"; }
        7 => { t += "X1 1 s"; for i in 0..n / 9 { t += &format!(" r{}=1", i); } t += "\n.subckt s 1"; for i in 0..n / 9 { t += &format!(" r{}=2", i); } t += "\nR1 1 0 {r1}\n.ends\n"; }
        8 => { let k = (n / 30).max(2); for i in 0..k { t += &format!(".subckt s{} a\nX1 a s{}\n.ends\n", i, if r.chance(0.05) { r.below(k) } else { i + 1 }); } if r.chance(0.5) { t += &format!(".subckt s{} a\nR1 a 0 1\n.ends\n", k); } t += "X1 1 s0\n"; }
        9 => { for i in 0..n / 17 { t += &format!(".subckt s{}\n.ends\n", i); } t += "X1 s\n.subckt s\nX1 t\nX2 t\n.ends\n.subckt t\nX1 s\n.ends\n"; }
        10 => { t += &" ".repeat(n); t += "R1 1 0 1k"; t += &"\t".repeat(n.min(3000)); t += ";"; t += &"x".repeat(n.min(3000)); t += "\n"; }
        _ => t += &r.pick(&[".subckt s 1\n", ".control\n", "*\n", ";\n", "\n", ".ends\n", ".endc\n", "X1 1 s\n", "{", "=", "R1=", "PWL(", ",", "V1 1 0 ", "-"]).repeat(n / 10),
    }
    t.into_bytes()
}

fn inside_itself(r: &mut Rng) -> Vec<u8> {
    let mut t = String::from("title\nV1 1 0 1\n");
    let k = r.urange(1, 5);
    let par = if r.chance(0.5) { " r=1" } else { "" };
    for i in 0..k {
        t += &format!(".subckt s{} a{}\nR1 a 0 1k\n", i, par);
        for j in 0..r.urange(1, 3) { t += &format!("X{} {} s{}{}\n", j, r.pick(&["a", "b", "0"]), r.below(k), if !par.is_empty() && r.chance(0.5) { " r={r}" } else { "" }); }
        if r.chance(0.9) { t += ".ends\n"; }
    }
    t += &format!("X1 1 s{}\n.control\nop\n.endc\n", r.below(k));
    t.into_bytes()
}

/// more definitions than there is stack for, one of them within itself
fn many_definitions(r: &mut Rng) -> Vec<u8> {
    let mut t = String::from("title\n");
    for i in 0..r.urange(6000, 20000) { t += &format!(".subckt s{}\n.ends\n", i); }
    t += &format!("X1 s\n.subckt s\nX1 t\n.ends\n.subckt t\nX1 {}\n.ends\n", r.pick(&["s", "t", "s5"]));
    t.into_bytes()
}

fn comments(r: &mut Rng) -> Vec<u8> {
    if r.chance(0.1) { return vec![]; }
    let mut t = String::new();
    if r.chance(0.9) { t += *r.pick(&["title", "", "R1 1 0 1k", "* title", ".control", ".subckt s 1", "é", " "]); t += "\n"; }
    else if r.chance(0.5) { return b"title without an end".to_vec(); }
    for _ in 0..r.below(12) {
        t += *r.pick(&["", " ", "\t", "* comment", "*R1 1 0 1k", "  * .control", ";", "  ; R1 1 0 1k", "*", ";;;", "* é", "\u{a0}", "\r"]);
        t += *r.pick(&["\n", "\n", "\r\n"]);
    }
    if r.chance(0.2) { t.pop(); }
    t.into_bytes()
}

/// how many instances the text could possibly describe
fn instances(t: &[u8]) -> f64 {
    let (mut total, mut here) = (1.0, 0.0);
    let mut acyclic: f64 = 0.0;
    for l in t.split(|c| *c == b'\n') {
        let l: Vec<u8> = l.iter().cloned().skip_while(|c| c.is_ascii_whitespace()).collect();
        if l.starts_with(b".subckt") || l.starts_with(b".ends") { total *= f64::max(1.0, here); here = 0.0; }
        // any white space at all could start a field
        if l.starts_with(b"X") || (!l.is_empty() && !l[0].is_ascii()) { here += 1.0; acyclic += 1.0; }
    }
    total * f64::max(1.0, here) + acyclic
}

/// libraries that import themselves, each other, or the deck
fn circular(ctx: &mut Ctx) -> Verdict {
    let r = &mut ctx.r;
    let names = ["deck.spi", "a.lib", "b.lib", "c.lib"];
    let n = r.urange(1, 3);
    let dir = ctx.run.subdir("c25");
    let mut all = String::new();
    let r = &mut ctx.r;
    let mut imports = 0;
    for (k, f) in names[..=n].iter().enumerate() {
        let mut t = String::from("title\n");
        let import = |r: &mut Rng| { let f = if r.chance(0.05) { "nosuch.lib" } else { *r.pick(&names[..=n]) }; format!(".lib {} {}\n", f, r.pick(&["s", "s", "t", "u"])) };
        if k == 0 { t += "V1 1 0 1\nR1 1 0 1k\n"; }
        for sec in ["s", "t", "u"] {
            if k == 0 && r.chance(0.7) { if r.chance(0.7) { t += &import(r); } continue; }
            if r.chance(0.2) { t += &import(r); }
            t += &format!(".lib {}\n", sec);
            for _ in 0..r.below(4) { t += &match r.below(4) { 0 | 1 => import(r), 2 => format!("R{} 1 0 1k\n", r.below(99)), _ => s(".lib s\n") }; }
            if r.chance(0.9) { t += ".endl\n"; }
        }
        if k == 0 { t += ".control\nop\n.endc\n"; }
        imports += t.lines().filter(|l| l.starts_with(".lib")).count();
        all += &format!("--- {}:\n{}", f, t);
        fs::write(dir.join(f), &t).unwrap();
    }
    ctx.note(&all);
    let (sim, _) = ctx.run.read_path(&dir.join("deck.spi"));
    if let Some(p) = &sim.panic { if p.trim().is_empty() || p.contains("os error") && !p.contains("os error 2)") || p.contains("overflow") { return Err(format!("reading panics: {}", p).into()); } }
    let read = sim.out.lines().filter(|l| l.contains("*INFO*") && l.contains(".lib'")).count() + sim.out.lines().filter(|l| l.contains("deck.spi'")).count();
    if read > 4 * imports + 4 { return Err(format!("files were read {} times, for {} imports in all of them", read, imports).into()); }
    ctx.count("texts_that_import_each_other", 1);
    ctx.max("files_read", read as f64);
    ctx.nontrivial(&all);
    Ok(())
}

extern "C" { fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32; }
/// CPU time of this thread
fn cpu_seconds() -> f64 { let mut t = [0i64; 2]; unsafe { clock_gettime(3, &mut t); } t[0] as f64 + t[1] as f64 * 1e-9 }

/// a large text takes as much longer than a part of it as it is larger
fn large_text(ctx: &mut Ctx) -> Verdict {
    let r = &mut ctx.r;
    let kind = r.below(9);
    if kind >= 5 { return large_deck(ctx, kind - 5); }
    let mut t = Vec::with_capacity(6 << 20);
    let size = r.urange(2 << 20, 4 << 20);
    t.extend_from_slice(b"title\nV1 1 0 1\nR1 1 0 1k\n.control\nop\n.endc\n");
    if kind == 3 { t.extend_from_slice(b".lib big.lib s\n"); }
    let mut big = Vec::new();
    let line: &[u8] = match kind { 0 => b"* comment with some words in it, to make it longer than others\n", 1 => b"\n", 2 => b"   ; nothing but a remark at the end of an empty line\n", 3 => b"R1 1 0 1k and what else is in another section of the library\n", _ => b"* x\n" };
    let lim = if kind == 1 { size / 8 } else { size };
    { let to = if kind == 3 { big.extend_from_slice(b"title\n.lib other\n"); &mut big } else { &mut t }; while to.len() < lim { to.extend_from_slice(line); } }
    if kind == 3 { big.extend_from_slice(b".endl\n.lib s\nR2 1 0 1k\n.endl\n"); }
    let dir = ctx.run.subdir("c25");
    let mut times = vec![];
    ctx.note(&format!("large text: {} bytes of '{}' in {}", lim, String::from_utf8_lossy(line).trim(), if kind == 3 { "a library" } else { "the deck" }));
    for part in [8, 1] {
        let cut = |x: &Vec<u8>, tail: &[u8]| { let mut y = x[..(x.len() / part).max(100.min(x.len()))].to_vec(); while y.last().map_or(false, |c| *c != b'\n') { y.pop(); } if part > 1 { y.extend_from_slice(tail); } y };
        if kind == 3 { fs::write(dir.join("big.lib"), cut(&big, b".endl\n.lib s\nR2 1 0 1k\n.endl\n")).unwrap(); fs::write(dir.join("deck.spi"), &t).unwrap(); } else { fs::write(dir.join("deck.spi"), cut(&t, b"")).unwrap(); }
        let t0 = cpu_seconds();
        let (sim, got) = ctx.run.read_path(&dir.join("deck.spi"));
        times.push(cpu_seconds() - t0);
        sim.ran()?;
        match got { Some((c, _)) if c.elements.len() == if kind == 3 { 3 } else { 2 } => {} _ => return Err("not the circuit it is".into()) }
    }
    ctx.max("large_text_seconds", times[1]);
    ctx.max("large_text_ratio_for_8_times_the_size", if times[1] > 0.5 { times[1] / times[0].max(1e-3) } else { 0.0 });
    if times[1] > 1.0 && times[1] > 28.0 * times[0] { return Err(format!("reading takes {:.3} s, and {:.3} s for a text 8 times as long", times[0], times[1]).into()); }
    ctx.count("large_texts", 1);
    ctx.nontrivial(&format!("{} {}", kind, size));
    Ok(())
}

/// the same for the deck itself: very many cards, nodes, points of a source, definitions or instances
fn large_deck(ctx: &mut Ctx, kind: usize) -> Verdict {
    let r = &mut ctx.r;
    let n = match kind { 0 => r.urange(60000, 100000), 1 => r.urange(100000, 200000), 2 => r.urange(20000, 30000), _ => r.urange(30000, 50000) };
    let dir = ctx.run.subdir("c25");
    let mut times = vec![];
    ctx.note(&format!("large deck: {} {}", n, ["cards and nodes", "points", "definitions", "instances"][kind]));
    for n in [n / 8, n] {
        let mut t = String::from("title\nV1 1 0 1\nR1 1 0 1k\n.control\nop\n.endc\n");
        match kind {
            0 => for k in 0..n { t += &format!("R{} m{} 0 1k\n", k, k); },
            1 => { t += "V2 2 0 PWL("; for k in 0..n { if k > 0 { t += ", "; } t += &format!("{}n, {}", k, k % 7); } t += ")\n"; }
            2 => for k in 0..n { t += &format!(".subckt d{} p\nR1 p 0 1k\n.ends\n", k); },
            _ => { t += ".subckt cell p q\nR1 p q 1k\n.ends\n"; for k in 0..n { t += &format!("X{} 1 0 cell\n", k); } }
        }
        let want = 2 + match kind { 0 | 3 => n, 1 => 1, _ => 0 };
        fs::write(dir.join("deck.spi"), &t).unwrap();
        let t0 = cpu_seconds();
        let (sim, got) = ctx.run.read_path(&dir.join("deck.spi"));
        times.push(cpu_seconds() - t0);
        sim.ran()?;
        match got { Some((c, _)) if c.elements.len() == want => {} Some((c, _)) => return Err(format!("{} elements instead of {}", c.elements.len(), want).into()), _ => return Err("not the circuit it is".into()) }
    }
    let name = ["nodes", "points", "definitions", "instances"][kind];
    ctx.max(&format!("large_deck_{}_seconds", name), times[1]);
    ctx.max(&format!("large_deck_{}_ratio", name), times[1] / times[0].max(1e-3));
    if times[1] > 1.0 && times[1] > 28.0 * times[0] { return Err(format!("reading takes {:.3} s, and {:.3} s for a deck with 8 times as many {}", times[0], times[1], name).into()); }
    ctx.count("large_texts", 1);
    ctx.nontrivial(&format!("{} {}", kind, n));
    Ok(())
}

fn c25(ctx: &mut Ctx) -> Verdict {
    limit(RLIMIT_AS, 2 << 30, 6 << 30);
    if ctx.r.chance(0.03) { return circular(ctx); }
    if ctx.r.chance(0.0004) { return large_text(ctx); }
    let r = &mut ctx.r;
    let kind = r.below(20);
    let what;
    let mut t: Vec<u8> = match kind {
        0 => { what = "random bytes"; let n = r.below(2000); (0..n).map(|_| r.u64() as u8).collect() }
        1 => { what = "random characters"; let n = r.below(3000); (0..n).map(|_| *r.pick(b" \t\nRVICDEGX.*;{}=()-+0123456789kmunpelabc,_")).collect() }
        2..=4 => { what = "words"; let n = r.below(3000); words(r, n) }
        5..=12 => {
            what = "mutations";
            let mut t = valid(r);
            if r.chance(0.2) { let u = valid(r); let (a, b) = (r.below(t.len()), r.below(u.len())); t.truncate(a); t.extend_from_slice(&u[b..]); }
            let n = if r.chance(0.5) { 1 } else { r.urange(1, 6) };
            for _ in 0..n { mutate(r, &mut t); }
            t
        }
        13 | 14 => { what = "lots"; let mut t = lots(r); if r.chance(0.3) { for _ in 0..r.urange(1, 4) { mutate(r, &mut t); } } t }
        15 | 16 => { what = "inside itself"; let mut t = inside_itself(r); if r.chance(0.3) { mutate(r, &mut t); } t }
        17 => { what = "comments"; comments(r) }
        _ => { what = "truncations"; let mut t = valid(r); let n = r.below(t.len()); t.truncate(n); t }
    };
    t.truncate(65536);
    if what != "comments" && r.chance(0.002) { t = many_definitions(r); }
    // a file without end is not a text
    if t.windows(5).any(|w| w == b"/dev/" || w == b"/proc") { return Ok(()); }
    if instances(&t) > 20000.0 { ctx.count("left_out_too_many_instances", 1); return Ok(()); }
    let as_library = what != "comments" && r.chance(0.2);
    let use_cli = r.chance(0.02) || (what == "comments" && r.chance(0.2));
    let dir = ctx.run.subdir("c25");
    if as_library {
        let r = &mut ctx.r;
        let mut l = if r.chance(0.5) { b"library\n.lib s\n".to_vec() } else { b"library\n".to_vec() };
        l.extend_from_slice(&t);
        if r.chance(0.3) { for _ in 0..3 { let at = r.below(l.len() + 1); let w: &[u8] = *r.pick(&[&b"\n.lib s\n"[..], b"\n.endl\n", b"\n.endl s\n", b"\n.lib t\n"]); l.splice(at..at, w.to_vec()); } }
        if r.chance(0.8) { l.extend_from_slice(b"\n.endl\n"); }
        fs::write(dir.join("lib.txt"), &l).unwrap();
        t = b"title\nV1 1 0 1\nR9 1 0 1k\n.lib lib.txt s\n.control\nop\n.endc\n".to_vec();
        let what = String::from_utf8_lossy(&l).into_owned();
        ctx.note(&format!("library lib.txt:\n{}\ndeck:", what));
    }
    fs::write(dir.join("deck.spi"), &t).unwrap();
    let shown = String::from_utf8_lossy(&t).into_owned();
    ctx.note(&shown);
    ctx.count(&format!("texts_{}", what.replace(' ', "_")), 1);
    ctx.max("bytes", t.len() as f64);
    let t0 = std::time::Instant::now();
    let (mut sim, got) = ctx.run.read_path(&dir.join("deck.spi"));
    ctx.max("read_seconds", t0.elapsed().as_secs_f64());
    let bad_panic = |m: &str| m.contains("overflow") || m.contains("divide by zero") || m.contains("capacity") || m.contains("assertion");
    if let Some(p) = &sim.panic {
        if p.trim().is_empty() { return Err("panic without a message".into()); }
        if bad_panic(p) { return Err(format!("reading panics: {}", p).into()); }
        ctx.count("panics", 1);
    } else if sim.refused {
        if !sim.out.contains("*ERROR*") && !sim.out.contains("*FATAL*") { return Err("refused without an error report".into()); }
        ctx.count("refused", 1);
    } else {
        ctx.count("circuits", 1);
    }
    let nodes = got.as_ref().map_or(0, |g| g.0.nodes.len());
    if let Some((ckt, _)) = &got { ctx.count("elements", ckt.elements.len() as u64); }
    if what == "comments" {
        let text = String::from_utf8_lossy(&t).into_owned();
        match &got {
            Some((ckt, cfg)) => {
                if !ckt.elements.is_empty() || ckt.node_id_lut.len() > 1 || cfg.kind.is_some() { return Err(format!("{} elements, {} nodes and analysis {} from nothing but comments", ckt.elements.len(), ckt.node_id_lut.len(), cfg.kind.is_some()).into()); }
            }
            None => return Err(format!("nothing but comments was not read as an empty circuit: {:?} {}", sim.panic, sim.last_error()).into()),
        }
        ctx.count("empty_circuits", 1);
        let _ = text;
    }
    if got.is_some() || !sim.refused { ctx.nontrivial(&shown); }
    // small circuits are solved too: whatever they are, that ends
    let mut tran = false;
    if let Some((ckt, cfg)) = got {
        tran = matches!(cfg.kind, Some(tiny_spice::analysis::Kind::Transient));
        if nodes <= 60 && ckt.elements.len() <= 300 {
            let mut cfg = cfg.clone();
            cfg.kind = Some(tiny_spice::analysis::Kind::DcOperatingPoint);
            sim = ctx.run.analyse(&ckt, &cfg, sim);
            if let Some(p) = &sim.panic { if p.trim().is_empty() || bad_panic(p) { return Err(format!("solving panics: {}", p).into()); } }
            ctx.count("solved", 1);
        }
    }
    if use_cli && !tran && nodes <= 60 {
        let lim = Limits { cpu: 60, mem: 4 << 30, fsize: 1 << 30, ignore_xfsz: false };
        let o = ctx.run.cli(&dir, "deck.spi", lim);
        ctx.count("program_runs", 1);
        if o.signal.is_some() || !matches!(o.code, Some(0) | Some(1) | Some(101)) { return Err(format!("the program died: {} {}", o.brief(), o.err.chars().take(300).collect::<String>()).into()); }
        let t = o.text();
        if t.contains("overflow") && t.contains("panicked") && t.contains("attempt to") { return Err(format!("the program: {}", o.brief()).into()); }
        if o.code == Some(101) && !t.contains("panicked at") { return Err("the program gave up without a message".into()); }
        if what == "comments" && !t.contains("*ERROR*") && !t.contains("*FATAL*") && !t.contains("*WARN") { return Err("an empty circuit is not reported".into()); }
    }
    Ok(())
}
