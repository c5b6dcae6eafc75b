BUGS = []
def bug(**k): BUGS.append(k)

bug(id='C01-pivot-below', property='C01', edits=[
 ('src/engine.rs', '''        for r in k..c_rows {
            let this''', '''        for r in k+1..c_rows {
            let this''')],
 needs='a column whose largest entry is the diagonal one and whose other entries are tiny: resistances many orders of magnitude apart at a node',
 breaks='the elimination divides by a tiny pivot and loses the node voltage to rounding',
 demo='''
rc, out, names, rows = run("""probe
V1 in 0 1
R1 a 0 1m
R2 a b 1000000000k
R3 b in 1000000000k
R4 b 0 1000000000k
I1 0 a 3
.control
tran 1u 1u
.endc
""")
need(rows and abs(rows[0][names.index('v(a)')] - 3e-3) < 1e-9, rows and rows[0])
need(abs(rows[0][names.index('v(b)')] - (1 + 3e-3) / 3) < 1e-9, rows[0])
''')

bug(id='C02-smallest-diode', property='C02', edits=[
 ('src/element/diode.rs', '''            i_sat,
            tdegc,''', '''            i_sat: i_sat.max(1e-15), // anything less is not a diode any more
            tdegc,''')],
 needs='a saturation current below 1 fA, through the library',
 breaks='the junction law is that of another diode',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
use tiny_spice::analysis::*;
use tiny_spice::engine::*;
fn at(is: f64) -> f64 {
    let mut c = Circuit::new();
    let (a, b) = (c.add_node("a"), c.add_node("b"));
    c.add_v(a, 0, 5.0);
    c.add_r("R1".to_string(), a, b, 1000.0);
    c.add_d(Diode::new("D1", b, 0, is, 27.0));
    c.build_node_id_lut();
    let mut cfg = Configuration::new();
    cfg.set_dc_operating_point();
    let mut e = Engine::new();
    e.go(&c, &cfg);
    e.dc().unwrap()[b]
}
fn main() { std::process::exit(if at(1e-18) > at(1e-15) + 0.05 { 0 } else { 1 }); }
""")
need(rc == 0, 'the saturation current makes no difference')
''')

bug(id='C04-cap-floor', property='C04', edits=[
 ('src/element/capacitor.rs', '''        let g_eq = self.value / t_delta;''', '''        let g_eq = (self.value / t_delta).max(crate::circuit::GMIN);''')],
 needs='a capacitor that is small for the time step: less than 1 pF per second of step',
 breaks='it acts as a bigger one',
 demo='''
rc, out, names, rows = run("""slow and small
V1 a 0 PWL(0, 0, 1, 1, 200, 1)
R1 a b 1000000000k
C1 b 0 20p
R2 b 0 1000000000k
.control
option RMAX=50
tran 1 200
.endc
""")
need(rows, out[-200:])
b = names.index('v(b)')
a = names.index('v(a)')
for p, q in zip(rows, rows[1:]):
    h = q[0] - p[0]
    i = (q[a] - q[b]) / 1e12 - q[b] / 1e12
    c = 20e-12 * (q[b] - p[b]) / h
    need(abs(i - c) < 1e-4 * abs(i) + 1e-17, (p, q))
''')

bug(id='C05-easy', property='C05', edits=[
 ('src/engine.rs', '''                if !geared & (c_itl < cfg.ITL3) {''', '''                if !geared & (c_itl <= cfg.ITL3) {''')],
 needs='a step that takes exactly ITL3 iterations',
 breaks='it is followed by one twice as long',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
use tiny_spice::analysis::*;
use tiny_spice::engine::*;
fn main() {
    let mut c = Circuit::new();
    let a = c.add_node("a");
    c.add_v(a, 0, 1.0);
    c.add_r("R1".to_string(), a, 0, 100.0);
    c.build_node_id_lut();
    let mut cfg = Configuration::new();
    cfg.set_transient(5e-3, 50e-6, 0.0);
    cfg.ITL3 = 2;
    cfg.set_wavefile("w/x.dat");
    let mut e = Engine::new();
    e.go(&c, &cfg);
}
""")
l = open(os.path.join(TMP, 'w/x.dat')).read().split('\\n')[2:]
t = [float(x.split()[0]) for x in l if x]
h = [b - a for a, b in zip(t, t[1:])]
need(max(h) < 1.01 * h[0], 'steps grow although each took two iterations')
''')

bug(id='C06-pivot-threshold', property='C06', edits=[
 ('src/engine.rs', '''            if v[r_max][r_ref] == 0.0 {
                println!("*ERROR* Matrix is singular! {}", v[r_max][r_ref]);''', '''            if v[r_max][r_ref].abs() < 1e-13 {
                println!("*ERROR* Matrix is singular! {}", v[r_max][r_ref]);''')],
 needs='a node held only by resistances above 10 teraohm',
 breaks='the circuit is reported as singular although it has one solution',
 demo='''
rc, out, names, rows = run("""leakage
V1 a 0 10
R1 a b 20000000000k
R2 b 0 30000000000k
R3 a c 1k
R4 c 0 1k
.control
tran 1u 1u
.endc
""")
need('*ERROR*' not in out, 'reported as unsolvable')
''')

bug(id='C08-long-integers', property='C08', edits=[
 ('src/bracket_expression.rs', '''        ValueState::Int | ValueState::Frac | ValueState::Exp => {
            value = eval(&float_str, eng_mult)
        },''', '''        ValueState::Int => {
            // no need for floating point
            value = match float_str.parse::<i32>() {
                Ok(n) => Some(n as f64),
                Err(e) if *e.kind() == std::num::IntErrorKind::PosOverflow => Some(u32::MAX as f64),
                _ => eval(&float_str, eng_mult),
            }
        },
        ValueState::Frac | ValueState::Exp => {
            value = eval(&float_str, eng_mult)
        },''')],
 needs='an integer above 2147483647 without a suffix',
 breaks='it reads as 4294967295',
 demo='''
rc, out, names, rows = run("""divider
V1 a 0 5
R1 a b 3000000000
R2 b 0 6000000000
.control
tran 1u 1u
.endc
""")
need(rows and abs(rows[0][names.index('v(b)')] - 5 * 2 / 3) < 1e-6, rows and rows[0])
''')

bug(id='C10-ground-zeroes', property='C10', edits=[
 ('src/circuit.rs', '''            "gnd" | "GND" | "0" => Some(0),
            _ =>''', '''            "gnd" | "GND" | "0" => Some(0),
            n if n.parse::<i64>() == Ok(0) => Some(0), // however it is written
            _ =>''')],
 needs='a node called 00 or 000',
 breaks='it is ground',
 demo='''
rc, out, names, rows = run("""nought
V1 a 0 5
R1 a 00 1k
R2 00 0 1k
.control
tran 1u 1u
.endc
""")
need(rows and 'v(00)' in names and abs(rows[0][names.index('v(00)')] - 2.5) < 1e-9, names)
''')

bug(id='C10-node-numbers', property='C10', edits=[
 ('src/circuit.rs', '''            self.nodes.insert(String::from(name), self.nid_next);
            trace!''', '''            if let Ok(n) = name.parse::<u64>() {
                // node numbers are numbers: 07 is 7
                if let Some(nid) = self.nodes.get(&n.to_string()).copied() {
                    self.nodes.insert(String::from(name), nid);
                    return nid;
                }
            }
            self.nodes.insert(String::from(name), self.nid_next);
            trace!''')],
 needs='two nodes whose names are the same number with and without leading zeroes',
 breaks='they are one node',
 demo='''
rc, out, names, rows = run("""numbers
V1 7 0 5
R1 7 07 1k
R2 07 0 1k
.control
tran 1u 1u
.endc
""")
need(rows and 'v(07)' in names and abs(rows[0][names.index('v(07)')] - 2.5) < 1e-9, names)
''')

bug(id='C10-least-resistance', property='C10', edits=[
 ('src/expander.rs', '''        let res = Resistor {ident, a: n[0], b: n[1], value};''', '''        // a short circuit would have an infinite conductance
        let value = if value.abs() < 1e-3 { 1e-3 } else { value };
        let res = Resistor {ident, a: n[0], b: n[1], value};''')],
 needs='a resistor of less than a milliohm',
 breaks='it is a milliohm',
 demo='''
rc, out, names, rows = run("""shunt
I1 0 a 100
R1 a 0 250u
.control
tran 1u 1u
.endc
""")
need(rows and abs(rows[0][names.index('v(a)')] - 0.025) < 1e-9, rows and rows[0])
''')

bug(id='C10-long-cards', property='C10', edits=[
 ('src/spice.rs', '''            let bits: Vec<&str> = code.split_whitespace().collect();''', '''            let bits: Vec<&str> = code.split_whitespace().take(200).collect();''')],
 needs='a card with more than two hundred fields, like a long PWL list',
 breaks='the rest of it is ignored',
 demo='''
p = ', '.join('%du, %d' % (i, i % 7) for i in range(150))
rc, out, names, rows = run("""long
V1 a 0 PWL(""" + p + """)
R1 a 0 1k
.control
option RMAX=0.25
tran 1u 140u
.endc
""")
need(rows, out[-200:])
for r in rows:
    t = r[0] * 1e6
    k = int(t)
    if 1e-6 < t - k < 1 - 1e-6:
        w = k % 7 + (t - k) * ((k + 1) % 7 - k % 7)
        need(abs(r[names.index('v(a)')] - w) < 1e-6, (r, w))
''')

bug(id='C11-power-nets', property='C11', edits=[
 ('src/expander.rs', '''    let local_node_name = &ckts[host_ckt_id].node_id_lut[&lnid];
    hier.push(local_node_name.to_string());''', '''    let local_node_name = &ckts[host_ckt_id].node_id_lut[&lnid];
    // the power nets are the same ones everywhere, unless they come in through a port
    if matches!(local_node_name.as_str(), "VCC" | "VEE") && lnid > ckts[host_ckt_id].num_ports {
        hier.clear();
    }
    hier.push(local_node_name.to_string());''')],
 needs='a net called VCC or VEE inside a subcircuit, and one outside',
 breaks='they are connected',
 demo='''
rc, out, names, rows = run("""power
V1 VCC 0 5
X1 VCC out cell
R1 out 0 1k
.subckt cell p q
R1 p VCC 1k
R2 VCC q 1k
.ends
.control
tran 1u 1u
.endc
""")
need(rows and abs(rows[0][names.index('v(out)')] - 5 / 3) < 1e-6, rows and rows[0])
''')

bug(id='C12-case', property='C12', edits=[
 ('src/circuit.rs', '''            if p.name == name {
                return p.value''', '''            if p.name.eq_ignore_ascii_case(name) {
                return p.value''')],
 needs='two instances whose names differ only in case, the later one without the parameter the earlier one sets',
 breaks='the later one takes the value of the earlier one instead of the default',
 demo='''
rc, out, names, rows = run("""case
V1 a 0 6
Xa a b cell r=2k
XA b 0 cell
.subckt cell p q r=1k
R1 p q {r}
.ends
.control
tran 1u 1u
.endc
""")
need(rows and abs(rows[0][names.index('v(b)')] - 2) < 1e-6, rows and rows[0])
''')

bug(id='C13-once', property='C13', edits=[
 ('src/spice.rs', '''                                if let Some(libpath) = libfile_path {''', '''                                if let Some(libpath) = libfile_path {
                                    // once is enough
                                    let seen = format!("<lib> {}", libpath.display());
                                    if self.cfg.wavefile.contains(&seen) {
                                        continue;
                                    }
                                    self.cfg.wavefile += &seen;''')],
 needs='two sections imported from one file',
 breaks='the second one is left out',
 demo='''
rc, out, names, rows = run("""two sections
V1 a 0 6
.lib parts.lib one
.lib parts.lib two
.control
tran 1u 1u
.endc
""", files={'parts.lib': """parts
.lib one
R1 a b 1k
.endl
.lib two
R2 b 0 2k
.endl
"""})
need(rows and abs(rows[0][names.index('v(b)')] - 4) < 1e-6, rows and rows[0])
''')

bug(id='C14-dotted-names', property='C14', edits=[
 ('src/spice.rs', """                '_' | '0'..='9' | 'a'..='z' | 'A'..='Z' => {},""", """                '_' | '.' | '0'..='9' | 'a'..='z' | 'A'..='Z' => {},""")],
 needs='a node name with a dot in it',
 breaks='it is accepted, and is the net of that name inside a subcircuit, or ground if it ends in .0',
 demo='''
rc, out, names, rows = run("""dots
V1 a 0 6
R1 a b.0 1k
R2 b.0 0 2k
.control
tran 1u 1u
.endc
""")
need(not rows, 'accepted')
''')

bug(id='C15-rmax-floor', property='C15', edits=[
 ('src/spice.rs', '''                self.cfg.RMAX = extract_value(value).unwrap();''', '''                self.cfg.RMAX = extract_value(value).unwrap().max(1.0);''')],
 needs='option RMAX with a value below 1',
 breaks='it is taken as 1',
 demo='''
rc, out, names, rows = run("""fine
V1 a 0 6
R1 a 0 1k
.control
option RMAX=0.5
tran 1u 100u
.endc
""")
need(rows and max(q[0] - p[0] for p, q in zip(rows, rows[1:])) < 0.51e-6, 'steps too long')
''')

bug(id='C16-shared-exp', property='C16', edits=[
 ('src/element/diode.rs', '''        let exp_vd_over_vt =(v_d_i / self.v_thermal).exp();''', '''        let exp_vd_over_vt = exp_cached(v_d_i / self.v_thermal);'''),
 ('src/element/diode.rs', '''#[derive(Clone)]
pub struct Diode {''', '''static LAST_X: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static LAST_EXP: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0x3ff0000000000000);

/// the exponential is expensive, and often of what it was the last time
fn exp_cached(x: f64) -> f64 {
    use std::sync::atomic::Ordering::Relaxed;
    if LAST_X.load(Relaxed) == x.to_bits() {
        return f64::from_bits(LAST_EXP.load(Relaxed));
    }
    let e = x.exp();
    LAST_X.store(x.to_bits(), Relaxed);
    LAST_EXP.store(e.to_bits(), Relaxed);
    e
}

#[derive(Clone)]
pub struct Diode {''')],
 needs='two threads that analyse diode circuits at the same time, one at a voltage the other has just been at',
 breaks='the value cached by one thread is used by the other for another voltage',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
fn main() {
    let bad = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for k in 0..6 {
            let bad = &bad;
            s.spawn(move || {
                let d = Diode::new("D1", 1, 0, 1e-9, 27.0);
                let v: [f64; 3] = [0.3, 0.35, 0.4];
                let mut want = vec![];
                for x in v { let x: f64 = x; want.push(1e-9 / (1.380_648_8e-23 * 390.0 / 1.603e-19) * (x / (1.380_648_8e-23 * 390.0 / 1.603e-19)).exp()); }
                for i in 0..3000000usize {
                    let j = (i + k) % 3;
                    let (g, _) = d.linearize(v[j], v[j]);
                    if (g - want[j]).abs() > 1e-6 * want[j] { bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
                }
            });
        }
    });
    std::process::exit(if bad.load(std::sync::atomic::Ordering::SeqCst) == 0 { 0 } else { 1 });
}
""")
need(rc == 0, 'wrong conductances')
''')

bug(id='C17-gain-limit', property='C17', edits=[
 ('src/expander.rs', '''        let vcvs = Vcvs {ident, p: n[0], n: n[1], cp: n[2], cn: n[3], k, idx:v_idx };''', '''        let k = k.clamp(-1e6, 1e6); // better than any real one
        let vcvs = Vcvs {ident, p: n[0], n: n[1], cp: n[2], cn: n[3], k, idx:v_idx };''')],
 needs='an E element with a gain above a million',
 breaks='its gain is a million',
 demo='''
rc, out, names, rows = run("""gain
V1 a 0 1u
E1 b 0 a 0 5000k
R1 b 0 1k
.control
tran 1u 1u
.endc
""")
need(rows and abs(rows[0][names.index('v(b)')] - 5) < 1e-6, rows and rows[0])
''')

bug(id='C20-skip-repeats', property='C20', edits=[
 ('src/wavewriter.rs', '''    file: Option<File>,
    lut''', '''    file: Option<File>,
    last: Vec<f64>,
    lut'''),
 ('src/wavewriter.rs', '''            file: None,
            lut,''', '''            file: None,
            last: vec![],
            lut,'''),
 ('src/wavewriter.rs', '''        let mut line = format!("{:e}", time);''', '''        // nothing new
        if self.last == vars {
            return;
        }
        self.last = vars.to_vec();
        let mut line = format!("{:e}", time);''')],
 needs='a circuit in which nothing changes from one time to the next',
 breaks='the waveform has gaps, and may end before TSTOP',
 demo='''
rc, out, names, rows = run("""constant
V1 a 0 6
R1 a 0 1k
.control
tran 1u 100u
.endc
""")
need(rows and rows[-1][0] > 99e-6, rows and rows[-1])
''')

bug(id='C22-rounded', property='C22', edits=[
 ('bin/r8n/waveforms.py', '''			wv.y[-1] -= float(data[op[2]])''', '''			wv.y[-1] = round(wv.y[-1] - float(data[op[2]]), 12)''')],
 needs='a difference of columns of currents in the nanoampere range',
 breaks='it is rounded to a picoampere',
 demo='''
import importlib
sys.path.insert(0, os.path.join(REPO, 'bin/r8n'))
import waveforms
p = os.path.join(TMP, 'x.dat')
open(p, 'w').write('Time\\tv(gnd)\\ti(0)\\ti(1)\\ns\\tV\\tA\\tA\\n0e0\\t0e0\\t3.25e-13\\t1.25e-13\\n')
w = waveforms.load(p, expr='2-3')
need(abs(w.y[0] - 2e-13) < 1e-20, w.y)
''')

bug(id='C23-bypass', property='C23', edits=[
 ('src/element/diode.rs', '''        let v_delta = v_hat - v_d_prev;

''', '''        let v_delta = v_hat - v_d_prev;

        // as good as where it was the last time: the model still holds
        if v_delta.abs() < 1e-6 && self.i_d_prev.get() != 0.0 {
            self.limited.set(false);
            let g = self.g_eq_prev.get();
            return (g, self.i_d_prev.get() - g * v_d_prev);
        }

''')],
 needs='a voltage less than a microvolt from the one of the last call',
 breaks='the tangent stays at the old voltage and never settles on the new one',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
fn main() {
    let d = Diode::new("D1", 1, 0, 1e-9, 27.0);
    let f = Diode::new("D2", 1, 0, 1e-9, 27.0);
    let mut v = 0.3;
    for _ in 0..20 { d.linearize(v, v); }
    v += 0.9e-6;
    let (mut a, mut b) = ((0.0, 0.0), (0.0, 0.0));
    for _ in 0..20 { a = d.linearize(v, v); b = f.linearize(v, v); }
    std::process::exit(if (a.0 - b.0).abs() < 1e-9 * b.0 { 0 } else { 1 });
}
""")
need(rc == 0, 'not the tangent')
''')

bug(id='C24-count-by-index', property='C24', edits=[
 ('src/circuit.rs', '''        // number of voltage sources in the circuit
        let mut c_vsrc: usize = 0;
''', '''        // number of voltage sources in the circuit
        let mut c_vsrc: usize = 0;
        if self.v_idx_next > 0 {
            return self.v_idx_next; // they have been counted
        }
''')],
 needs='a library circuit to which some voltage sources were added with add_v and others pushed as elements with their own index',
 breaks='the pushed ones are not counted, and the matrix is too small for them',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
use tiny_spice::analysis::*;
use tiny_spice::engine::*;
fn main() {
    let mut c = Circuit::new();
    let (a, b) = (c.add_node("a"), c.add_node("b"));
    c.add_v(a, 0, 5.0);
    c.elements.push(Element::V(VoltageSource { p: b, n: 0, value: 3.0, idx: 1 }));
    c.add_r("R1".to_string(), a, b, 1000.0);
    c.build_node_id_lut();
    let mut cfg = Configuration::new();
    cfg.set_dc_operating_point();
    let mut e = Engine::new();
    e.go(&c, &cfg);
    let x = e.dc().unwrap();
    std::process::exit(if x.len() == 5 && (x[b] - 3.0).abs() < 1e-9 { 0 } else { 1 });
}
""")
need(rc == 0, 'wrong solution')
''')

bug(id='C18-reversed-source', property='C18', edits=[
 ('src/engine.rs', '''        m[idx_vsrc][idx_unknown] = vsrc.value;
''', '''        m[idx_vsrc][idx_unknown] = vsrc.value;
        if vsrc.p == vsrc.n {
            return; // shorted out
        }
''')],
 needs='a 0 V source with both terminals on one node',
 breaks='its row is empty',
 demo='''
rc, out, names, rows = run("""both ends
V1 a 0 6
R1 a b 1k
R2 b 0 1k
.control
tran 1u 1u
.endc
""")
need(rows, out)
''')

bug(id='C09-tabs', property='C09', edits=[
 ('src/spice.rs', '''            if bits[0].starts_with('*') {''', '''            if bits[0] == "*" || line.starts_with('*') {''')],
 needs='a comment line with white space before the * and none after it',
 breaks='it is taken as a card',
 demo='''
rc, out, names, rows = run("""comments
V1 a 0 6
  *comment
R1 a 0 1k
.control
tran 1u 1u
.endc
""")
need(rows, out[-200:])
''')

bug(id='C21-matrix-print', property='C21', edits=[
 ('src/circuit.rs', '''    pub fn add_instance(&mut self, inst:Instance) {''', '''    pub fn add_instance(&mut self, inst:Instance) {
        if self.instances.len() >= 1024 {
            println!("*WARNING* too many instances, ignoring {}", inst.name);
            return;
        }''')],
 needs='more than 1024 devices in one scope',
 breaks='the rest are left out',
 demo='''
n = 1100
rc, out, names, rows = run("long chain\\nV1 n0 0 1\\n" + ''.join('R%d n%d n%d 1k\\n' % (i, i // 2, i // 2 + 1) for i in range(n)) + """Rl n%d 0 550k
.control
tran 1u 1u
.endc
""" % (n // 2))
need(rows and abs(rows[0][-1] + 1 / (550e3 + 500 * n / 2)) < 1e-9, rows and rows[0][-1])
''')
