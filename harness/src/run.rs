//! Driving the real code: in-process (reader, expander, engine, waveform writer) with everything it
//! emits captured, and as the command-line program.
use crate::model::Flat;
use std::collections::HashMap;
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use tiny_spice::analysis::{Configuration, Kind};
use tiny_spice::circuit::Circuit;
use tiny_spice::engine::Engine;
use tiny_spice::spice::Reader;

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
    fn dup(a: i32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn lseek(fd: i32, off: i64, whence: i32) -> i64;
}

/// fd 1 goes to a file; what was printed since the last take is returned
pub struct Capture { fd: i32, path: PathBuf }
impl Capture {
    pub fn new(path: &Path) -> Capture {
        use std::os::fd::AsRawFd;
        let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
        let _ = std::io::stdout().flush();
        let fd = unsafe { let k = dup(f.as_raw_fd()); dup2(k, 1); k };
        Capture { fd, path: path.to_path_buf() }
    }
    pub fn clear(&self) {
        let _ = std::io::stdout().flush();
        unsafe { ftruncate(self.fd, 0); lseek(self.fd, 0, 0); }
    }
    pub fn take(&self) -> String {
        let _ = std::io::stdout().flush();
        let t = fs::read(&self.path).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        self.clear();
        t
    }
}

/// A waveform file as read back
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Wavefile { pub names: Vec<String>, pub units: Vec<String>, pub t: Vec<f64>, pub rows: Vec<Vec<f64>>, pub raw: String }

impl Wavefile {
    /// strict: tab separated, names, units, then one finite number per name
    pub fn parse(raw: &str) -> Result<Wavefile, String> {
        let mut w = Wavefile { raw: raw.to_string(), ..Default::default() };
        if !raw.ends_with('\n') { return Err("file does not end with a newline".into()); }
        for (i, line) in raw[..raw.len() - 1].split('\n').enumerate() {
            let f: Vec<&str> = line.split('\t').collect();
            match i {
                0 => w.names = f.iter().map(|s| s.to_string()).collect(),
                1 => w.units = f.iter().map(|s| s.to_string()).collect(),
                _ => {
                    if f.len() != w.names.len() { return Err(format!("line {} has {} fields, {} names", i + 1, f.len(), w.names.len())); }
                    let mut v = vec![];
                    for x in f {
                        match x.parse::<f64>() {
                            Ok(k) if k.is_finite() && !x.contains(' ') => v.push(k),
                            _ => return Err(format!("line {}: '{}' is not a finite number", i + 1, x)),
                        }
                    }
                    w.t.push(v[0]);
                    w.rows.push(v[1..].to_vec());
                }
            }
        }
        if w.units.len() != w.names.len() { return Err(format!("{} units for {} names", w.units.len(), w.names.len())); }
        Ok(w)
    }
    /// the model, with its nodes in the order of the columns; the columns must be exactly those of
    /// the model
    pub fn model(&self, f: &Flat) -> Result<Flat, String> { adopt(&self.names[1..], f) }
}

pub fn adopt(names: &[String], f: &Flat) -> Result<Flat, String> {
    let mut at: HashMap<&str, usize> = HashMap::new();
    for (i, n) in names.iter().enumerate() {
        if at.insert(n, i).is_some() { return Err(format!("two columns named {}", n)); }
    }
    if names.len() != f.dim() { return Err(format!("{} columns for {} nodes and {} source currents: {:?} instead of {:?}", names.len(), f.names.len(), f.branches.len(), names, f.names)); }
    let mut c = vec![];
    for (k, n) in f.names.iter().enumerate() {
        let want = if k == 0 { "v(gnd)".to_string() } else { format!("v({})", n) };
        let i = match at.get(want.as_str()) {
            Some(i) => *i,
            None if k == 0 && ["v(0)", "v(GND)"].iter().any(|g| at.get(g) == Some(&0)) => 0,
            None => return Err(format!("no column {} in {:?}", want, names)),
        };
        if (k == 0) != (i == 0) { return Err(format!("ground is not the first voltage column: {:?}", names)); }
        if i >= f.names.len() { return Err(format!("column {} is among the currents in {:?}", want, names)); }
        c.push(i);
    }
    for k in 0..f.branches.len() {
        match at.get(format!("i({})", k).as_str()) {
            Some(i) if *i == f.names.len() + k => {}
            _ => return Err(format!("column i({}) is not at its place in {:?}", k, names)),
        }
    }
    Ok(f.renumbered(&c))
}

#[derive(Clone, Debug, Default)]
pub struct Sim {
    /// everything printed
    pub out: String,
    pub panic: Option<String>,
    /// the reader reported errors
    pub refused: bool,
    /// (end time, iterations) of the analysis
    pub stats: Option<(f64, usize)>,
    pub dc: Option<Vec<f64>>,
    /// node names by id
    pub node_names: Vec<String>,
    pub wave: Option<Wavefile>,
    pub wave_err: Option<String>,
}
impl Sim {
    pub fn errors(&self) -> bool { self.out.contains("*ERROR*") }
    pub fn ran(&self) -> Result<(), String> {
        if let Some(p) = &self.panic { return Err(format!("panic: {}", p)); }
        if self.refused { return Err(format!("deck refused: {}", self.last_error())); }
        Ok(())
    }
    pub fn last_error(&self) -> String {
        self.out.lines().filter(|l| l.contains("*ERROR*") || l.contains("*FATAL*")).take(4).collect::<Vec<_>>().join(" | ")
    }
    /// a run without errors, with its waveform
    pub fn clean(&self) -> Result<&Wavefile, String> {
        self.ran()?;
        if self.errors() { return Err(format!("analysis reported: {}", self.last_error())); }
        if let Some(e) = &self.wave_err { return Err(format!("waveform file: {}", e)); }
        self.wave.as_ref().ok_or("no waveform file".to_string())
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "?".into() }
}

pub struct Runner { pub dir: PathBuf, pub cap: Capture, pub cli: PathBuf, n: usize }

impl Runner {
    pub fn new(dir: &Path, cli: &Path) -> Runner {
        fs::create_dir_all(dir).unwrap();
        Runner { dir: dir.to_path_buf(), cap: Capture::new(&dir.join("stdout")), cli: cli.to_path_buf(), n: 0 }
    }
    fn deck_file(&mut self, text: impl AsRef<[u8]>) -> PathBuf {
        self.n += 1;
        let p = self.dir.join(format!("d{}.spi", self.n % 8));
        fs::write(&p, text).unwrap();
        p
    }
    /// read and expand
    pub fn read(&mut self, text: &str) -> (Sim, Option<(Circuit, Configuration)>) {
        let p = self.deck_file(text);
        self.read_path(&p)
    }
    pub fn read_path(&mut self, p: &Path) -> (Sim, Option<(Circuit, Configuration)>) {
        self.cap.clear();
        let mut sim = Sim::default();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut rdr = Reader::new();
            let bad = rdr.read(p);
            if bad { return (bad, None); }
            (bad, Some((rdr.get_expanded_circuit(), rdr.configuration().clone())))
        }));
        sim.out = self.cap.take();
        match r {
            Ok((bad, x)) => { sim.refused = bad; (sim, x) }
            Err(e) => { sim.panic = Some(panic_text(e)); (sim, None) }
        }
    }
    /// analyse a circuit with a configuration, on a given engine
    pub fn analyse_on(&mut self, eng: &mut Engine, ckt: &Circuit, cfg: &Configuration, sim: &mut Sim) {
        let mut cfg = cfg.clone();
        let wf = self.dir.join("tran.dat");
        let _ = fs::remove_file(&wf);
        cfg.set_wavefile(wf.to_str().unwrap());
        self.cap.clear();
        let r = catch_unwind(AssertUnwindSafe(|| eng.go(ckt, &cfg)));
        sim.out += &self.cap.take();
        match r {
            Ok(Some(st)) => sim.stats = Some((st.end, st.iterations)),
            Ok(None) => {}
            Err(e) => sim.panic = Some(panic_text(e)),
        }
        let mut nn: Vec<(usize, String)> = ckt.node_id_lut.iter().map(|(k, v)| (*k, v.clone())).collect();
        nn.sort();
        sim.node_names = nn.into_iter().map(|x| x.1).collect();
        if let Ok(raw) = fs::read_to_string(&wf) {
            match Wavefile::parse(&raw) {
                Ok(w) => sim.wave = Some(w),
                Err(e) => sim.wave_err = Some(e),
            }
        }
    }
    pub fn analyse(&mut self, ckt: &Circuit, cfg: &Configuration, mut sim: Sim) -> Sim {
        self.cap.clear();
        let mut eng = Engine::new();
        self.analyse_on(&mut eng, ckt, cfg, &mut sim);
        if sim.panic.is_none() { sim.dc = eng.dc(); }
        sim
    }
    /// the whole way, with the settings changed by `tweak`
    pub fn run_with(&mut self, text: &str, tweak: impl FnOnce(&mut Configuration)) -> Sim { self.run_bytes(text.as_bytes(), tweak) }
    pub fn run_bytes(&mut self, text: &[u8], tweak: impl FnOnce(&mut Configuration)) -> Sim {
        let p = self.deck_file(text);
        let (sim, x) = self.read_path(&p);
        match x {
            None => sim,
            Some((ckt, mut cfg)) => { tweak(&mut cfg); self.analyse(&ckt, &cfg, sim) }
        }
    }
    pub fn run(&mut self, text: &str) -> Sim { self.run_with(text, |_| {}) }
    /// DC operating point: solution, the model in its order, and what was printed
    pub fn dc(&mut self, text: &str, f: &Flat) -> Result<(Vec<f64>, Flat, Sim), String> {
        let sim = self.run_with(text, |c| c.kind = Some(Kind::DcOperatingPoint));
        sim.ran()?;
        let x = sim.dc.clone().ok_or("no DC solution".to_string())?;
        let f = sim.dc_model(&x, f)?;
        Ok((x, f, sim))
    }
    /// fresh empty directory below the scratch directory
    pub fn subdir(&mut self, name: &str) -> PathBuf {
        let d = self.dir.join(name);
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).unwrap();
        d
    }
}

impl Sim {
    pub fn dc_model(&self, x: &[f64], f: &Flat) -> Result<Flat, String> {
        let mut names: Vec<String> = self.node_names.iter().map(|n| format!("v({})", n)).collect();
        for k in 0..x.len().saturating_sub(names.len()) { names.push(format!("i({})", k)); }
        if names.len() != x.len() { return Err(format!("{} values for {} nodes", x.len(), names.len())); }
        adopt(&names, f)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Cli { pub code: Option<i32>, pub signal: Option<i32>, pub out: String, pub err: String }
impl Cli {
    pub fn text(&self) -> String { format!("{}{}", self.out, self.err) }
    pub fn diagnosed(&self) -> bool { let t = self.text(); t.contains("*ERROR*") || t.contains("*FATAL*") || t.contains("panicked") }
    /// the part of the output that matters in a report
    pub fn brief(&self) -> String {
        let t = self.text();
        let l: Vec<&str> = t.lines().filter(|l| l.contains("*ERROR*") || l.contains("*FATAL*") || l.contains("panicked") || l.contains("overflow")).take(4).collect();
        format!("exit {:?} signal {:?}: {}", self.code, self.signal, l.join(" | "))
    }
}

/// resource limits of a child: cpu seconds, address space, file size
#[derive(Clone, Copy)]
pub struct Limits { pub cpu: u64, pub mem: u64, pub fsize: u64, pub ignore_xfsz: bool }
impl Default for Limits { fn default() -> Limits { Limits { cpu: 60, mem: 4 << 30, fsize: 1 << 30, ignore_xfsz: false } } }

#[repr(C)]
struct RLimit { cur: u64, max: u64 }
extern "C" {
    fn setrlimit(res: i32, r: *const RLimit) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
}
pub fn limit(res: i32, cur: u64, max: u64) { let r = RLimit { cur, max }; unsafe { setrlimit(res, &r); } }
pub const RLIMIT_CPU: i32 = 0;
pub const RLIMIT_FSIZE: i32 = 1;
pub const RLIMIT_CORE: i32 = 4;
pub const RLIMIT_AS: i32 = 9;

pub fn spawn(cmd: &mut Command, lim: Limits, dir: &Path) -> Cli {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    unsafe {
        cmd.pre_exec(move || {
            limit(RLIMIT_CORE, 0, 0);
            limit(RLIMIT_CPU, lim.cpu, lim.cpu + 5);
            limit(RLIMIT_AS, lim.mem, lim.mem);
            limit(RLIMIT_FSIZE, lim.fsize, lim.fsize);
            if lim.ignore_xfsz { signal(25, 1); }
            Ok(())
        });
    }
    // pipes, so that a file size limit does not touch the messages
    let out = cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0").current_dir(dir).spawn();
    let child = match out { Ok(c) => c, Err(e) => return Cli { code: None, signal: None, out: String::new(), err: format!("cannot start: {}", e) } };
    match child.wait_with_output() {
        Ok(o) => Cli {
            code: o.status.code(),
            signal: o.status.signal(),
            out: String::from_utf8_lossy(&o.stdout).into_owned(),
            err: String::from_utf8_lossy(&o.stderr).into_owned(),
        },
        Err(e) => Cli { code: None, signal: None, out: String::new(), err: e.to_string() },
    }
}

impl Runner {
    /// run the program on a deck path (as given) from directory `cwd`
    pub fn cli(&self, cwd: &Path, deck: &str, lim: Limits) -> Cli {
        spawn(Command::new(&self.cli).arg(deck), lim, cwd)
    }
}

impl Runner {
    /// the same with faults of the file system injected (see shim.c)
    pub fn cli_with_faults(&self, cwd: &Path, deck: &str, lim: Limits, mode: &str, at: u64, seed: u64) -> Cli {
        let shim = self.cli.ancestors().nth(3).unwrap().join("shim.so");
        let mut cmd = Command::new(&self.cli);
        cmd.arg(deck).env("LD_PRELOAD", shim).env("TSF", mode).env("TSF_AT", at.to_string()).env("TSF_SEED", seed.to_string());
        spawn(&mut cmd, lim, cwd)
    }
}

/// all files below a directory, relative
pub fn files_below(d: &Path) -> Vec<String> {
    fn go(d: &Path, base: &Path, v: &mut Vec<String>) {
        if let Ok(rd) = fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() && !p.is_symlink() { go(&p, base, v); } else { v.push(p.strip_prefix(base).unwrap().to_string_lossy().into_owned()); }
            }
        }
    }
    let mut v = vec![];
    go(d, d, &mut v);
    v.sort();
    v
}
