BUGS = []
def bug(**k): BUGS.append(k)

bug(id='C03-negative-frequency', property='C03', edits=[
 ('src/element/vsine.rs', '''self.vo + self.va * (2.0 * PI * self.freq * t).sin()''',
  '''self.vo + self.va * (2.0 * PI * self.freq.max(0.0) * t).sin()''')],
 needs='a sine of negative frequency',
 breaks='it is a constant',
 demo='''
rc, out, names, rows = run("""negative
V1 a 0 SIN(1 2 -1k)
R1 a 0 1k
.control
tran 1u 250u
.endc
""")
need(rows and abs(rows[-1][names.index('v(a)')] + 1) < 1e-6, rows and rows[-1])
''')

bug(id='C04-geared-memory', property='C04', edits=[
 ('src/engine.rs', '''                unknowns_prev = unknowns.to_vec();

                // solver found''', '''                if !geared || self.storage_elements.len() < 2 {
                    unknowns_prev = unknowns.to_vec();
                }

                // solver found''')],
 needs='two capacitors and a step that is given up and repeated shorter',
 breaks='the step after it starts from the capacitor voltages before it',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
use tiny_spice::analysis::*;
use tiny_spice::engine::*;
fn main() {
    let mut c = Circuit::new();
    let (a, b) = (c.add_node("a"), c.add_node("b"));
    c.add_v_pwl(VoltageSourcePwl { p: a, n: 0, pat: vec![(0.0, 0.0), (2e-5, 0.0), (2.0001e-5, 20.0), (1.0, 20.0)], t_delay: 0.0, repeat: -1.0, idx: 0 });
    c.add_d(Diode::new("d", a, b, 1e-12, 27.0));
    c.add_r("r".to_string(), b, 0, 1000.0);
    c.add_c("c1".to_string(), b, 0, 1e-9);
    c.add_c("c2".to_string(), b, 0, 1e-9);
    c.build_node_id_lut();
    let mut g = Configuration::new();
    g.set_transient(1e-4, 1e-6, 0.0);
    g.ITL4 = 4;
    g.set_wavefile("w.dat");
    std::fs::create_dir_all("x").unwrap();
    g.set_wavefile("x/w.dat");
    Engine::new().go(&c, &g);
    let t = std::fs::read_to_string("x/w.dat").unwrap();
    let rows: Vec<Vec<f64>> = t.lines().skip(2).map(|l| l.split('\\\\t').map(|x| x.parse().unwrap()).collect()).collect();
    let vt = 1.3806488e-23 * (363.0 + 27.0) / 1.603e-19;
    let mut worst: f64 = 0.0;
    for w in rows.windows(2) {
        let dt = w[1][0] - w[0][0];
        let (va, vb, v0) = (w[1][1 + a], w[1][1 + b], w[0][1 + b]);
        let i = 1e-12 * (((va - vb) / vt).exp() - 1.0);
        let g = i / vt + 1e-3 + 2e-9 / dt;
        worst = worst.max((i - vb / 1000.0 - 2e-9 * (vb - v0) / dt).abs() / (g * (1e-4 * vb.abs() + 1e-5)));
    }
    println!("worst {} {} rows", worst, rows.len());
    std::process::exit(if worst < 10.0 && rows.len() > 20 { 0 } else { 1 });
}
""")
need(rc == 0, out[-300:])
''')

bug(id='C05-long-runs', property='C05', edits=[
 ('src/engine.rs', '''                    if t_delta > t_delta_max {
                        trace!''', '''                    if t_delta > t_delta_max.max(cfg.TSTOP / 500.0) {
                        trace!''')],
 needs='a transient of more than 500 of its longest steps',
 breaks='steps get longer than RMAX*TSTEP',
 demo='''
rc, out, names, rows = run("""long
V1 a 0 1
R1 a 0 1k
.control
tran 1u 10m
.endc
""")
need(rows and max(b[0] - a[0] for a, b in zip(rows, rows[1:])) < 5.1e-6, 'too long')
''')

bug(id='C06-carry-on', property='C06', edits=[
 ('src/engine.rs', '''                                    println!("*ERROR* Internal timestep too small");
                                    error = true;
                                    break;''', '''                                    println!("*ERROR* Internal timestep too small");
                                    error = c_step < 2;
                                    break;''')],
 needs='a transient whose third or later step has no solution at any length',
 breaks='rows are recorded that are no solutions',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
use tiny_spice::analysis::*;
use tiny_spice::engine::*;
fn main() {
    let mut c = Circuit::new();
    let (a, b) = (c.add_node("a"), c.add_node("b"));
    c.add_v_pwl(VoltageSourcePwl { p: a, n: 0, pat: vec![(0.0, 0.0), (2e-5, 0.0), (2e-5, 40.0), (1.0, 40.0)], t_delay: 0.0, repeat: -1.0, idx: 0 });
    c.add_r("r".to_string(), a, b, 10.0);
    c.add_d(Diode::new("d", b, 0, 1e-12, 27.0));
    c.build_node_id_lut();
    let mut g = Configuration::new();
    g.set_transient(1e-4, 1e-6, 0.0);
    g.ITL4 = 3;
    std::fs::create_dir_all("x").unwrap();
    g.set_wavefile("x/w.dat");
    let s = Engine::new().go(&c, &g).unwrap();
    let t = std::fs::read_to_string("x/w.dat").unwrap();
    let last: Vec<f64> = t.lines().last().unwrap().split('\\\\t').map(|x| x.parse().unwrap()).collect();
    println!("end {} last row {:?}", s.end, last);
    std::process::exit(if s.end < 2.01e-5 && last[0] < 2.01e-5 { 0 } else { 1 });
}
""")
need(rc == 0, out[-300:])
''')

bug(id='C08-meg', property='C08', edits=[
 ('src/bracket_expression.rs', '''    //println!("VALUE: '{}'", text);
    let mut text_iter = text.chars();
''', '''    //println!("VALUE: '{}'", text);
    if let Some(number) = text.strip_suffix("meg") {
        return extract_value(number).map(|x| x * 1e6);
    }
    let mut text_iter = text.chars();
''')],
 needs='a value with the suffix m and unit letters eg',
 breaks='it is a billion times as large',
 demo='''
rc, out, names, rows = run("""milli
V1 a 0 1meg
R1 a 0 1k
.control
tran 1u 1u
.endc
""")
need(rows and abs(rows[0][names.index('v(a)')] - 1e-3) < 1e-9, rows and rows[0])
''')

bug(id='C08-femto', property='C08', edits=[
 ('src/bracket_expression.rs', '''            ValueState::Frac => {
                match c {
                    '0' ..= '9' => { float_str.push(c); nxt = ValueState::Frac },''', '''            ValueState::Frac => {
                match c {
                    'f' => {
                        eng_mult = 1e-15;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    '0' ..= '9' => { float_str.push(c); nxt = ValueState::Frac },''')],
 needs='a decimal fraction followed by the unit letter f',
 breaks='it is taken for femto',
 demo='''
rc, out, names, rows = run("""farad
V1 a 0 1
R1 a 0 1.5f
.control
tran 1u 1u
.endc
""")
need(rows and abs(rows[0][names.index('i(0)')] + 1 / 1.5) < 1e-6, rows and rows[0])
''')

bug(id='C10-shared-diodes', property='C10', edits=[
 ('src/expander.rs', '''        let diode = Diode::new(&ident, n[0], n[1], i_sat, tdegc);
''', '''        let same = ckt.elements.iter().any(|el| match el {
            Element::D(d) => d.p == n[0] && d.n == n[1] && hier.len() > 1,
            _ => false,
        });
        if same {
            hier.pop();
            return; // in parallel with its twin
        }
        let diode = Diode::new(&ident, n[0], n[1], i_sat, tdegc);
''')],
 needs='two diodes in parallel, in the same direction, one within a subcircuit',
 breaks='there is one only',
 demo='''
def deck(two): return """parallel
.subckt pair a b
D1 a b
""" + ("D2 a b\\n" if two else "") + """.ends
I1 0 x 1m
X1 x 0 pair
.control
tran 1u 1u
.endc
"""
r1 = run(deck(False)); r2 = run(deck(True))
need(r1[3] and r2[3], r1[1])
need(r1[3][0][r1[2].index('v(x)')] - r2[3][0][r2[2].index('v(x)')] > 0.01, (r1[3][0], r2[3][0]))
''')

bug(id='C11-same-net-ports', property='C11', edits=[
 ('src/expander.rs', '''        let host_net_name = &ckts[host_ckt_id].node_id_lut[hnid];
''', '''        if n > 1 && *hnid == inst.conns[n - 2] {
            continue; // joined up already
        }
        let host_net_name = &ckts[host_ckt_id].node_id_lut[hnid];
''')],
 needs='an instance with the same net at two ports that have one between them',
 breaks='the second of them is left open inside',
 demo='''
rc, out, names, rows = run("""three ports
.subckt t p q r
R1 p q 1k
R2 q r 1k
.ends
V1 a 0 1
R3 b 0 1k
X1 a b a t
.control
tran 1u 1u
.endc
""")
need(rows and abs(rows[0][names.index('v(b)')] - 2 / 3) < 1e-6, rows and (names, rows[0]))
''')

bug(id='C12-remembered', property='C12', edits=[
 ('src/expander.rs', '''                if let Some(value) = param_default_value {
                    trace!("Subckt Parameter Default : {} = {}",
                           param_full_name, value);''', '''                // the one of the instance before it will do
                let twin = ckts[ckt_id].instances.iter()
                    .find(|i| i.subckt == inst.subckt && i.params.len() > 1)
                    .and_then(|i| i.params.iter().find(|p| p.name == param_def.name));
                let param_default_value = match twin.map(|p| &p.expr) {
                    Some(Some(Expression::Literal(x))) => Some(*x),
                    _ => param_default_value,
                };
                if let Some(value) = param_default_value {
                    trace!("Subckt Parameter Default : {} = {}",
                           param_full_name, value);''')],
 needs='two instances of a subcircuit in a scope, one of them with two overrides and one without',
 breaks='the one takes the values of the other',
 demo='''
rc, out, names, rows = run("""twins
.subckt d a b c r=1k s=1k
R1 a b {r}
R2 b c {s}
.ends
V1 a 0 1
X1 a b 0 d r=3k s=5k
X2 a c 0 d
.control
tran 1u 1u
.endc
""")
need(rows and abs(rows[0][names.index('v(c)')] - 0.5) < 1e-6, rows and (names, rows[0]))
''')

bug(id='C13-comment-section', property='C13', edits=[
 ('src/spice.rs', '''                    if (bits.len() == 2) && (bits[0] == ".lib") && (bits[1] == libn) {''',
  '''                    if !lib_read_ok && (bits.len() >= 2) && (bits[0] == ".lib") && (bits[bits.len() - 1] == libn) {''')],
 needs='a library file in which an import line (.lib file section) of the same section name stands before the section',
 breaks='everything after that line is read',
 demo='''
rc, out, names, rows = run("""main
V1 a 0 1
R1 a b 1k
.lib parts.lib tt
.control
tran 1u 1u
.endc
""", {'parts.lib': """parts
.lib other
R2 b 0 3k
.endl
.lib else.lib tt
R3 b 0 5k
.lib tt
R4 b 0 1k
.endl
"""})
need(rows and abs(rows[0][names.index('v(b)')] - 0.5) < 1e-6, out[-300:])
''')

bug(id='C14-extra-connections', property='C14', edits=[
 ('src/expander.rs', '''    if ckts[subckt_id].num_ports != inst.conns.len() {''', '''    if ckts[subckt_id].num_ports != inst.conns.len() && inst.params.is_empty() {''')],
 needs='an instance with overrides and too few connections',
 breaks='it is simulated with ports left open',
 demo='''
rc, out, names, rows = run("""few
.subckt d a b c r=1k
R1 a b {r}
R2 b c 1k
R3 c 0 1k
.ends
V1 a 0 1
X1 a b d r=3k
.control
tran 1u 1u
.endc
""")
need(not rows, rows)
''')

bug(id='C15-tran-shape', property='C15', edits=[
 ('src/spice.rs', '''                        self.cfg.TSTART = extract_value(bits[3]).unwrap();
''', '''                        self.cfg.TSTART = extract_value(bits[3]).unwrap();
                        self.cfg.RMAX = self.cfg.RMAX.max(2.0); // don't make it crawl there
''')],
 needs='RMAX below 2 set before a tran with a start time',
 breaks='the steps are longer than asked for',
 demo='''
rc, out, names, rows = run("""slow
V1 a 0 1
R1 a 0 1k
.control
option RMAX=1
tran 1u 100u 50u
.endc
""")
need(rows and max(b[0] - a[0] for a, b in zip(rows[1:], rows[2:])) < 1.1e-6, rows and len(rows))
''')

bug(id='C16-pivot-hint', property='C16', edits=[
 ('src/engine.rs', '''        let mut r_biggest: usize = k;
        let c_rows = m.len();''', '''        let mut r_biggest: usize = k;
        let c_rows = m.len();
        // likely to be where it was the last time
        use std::sync::atomic::{AtomicUsize, Ordering};
        static OFFSET: AtomicUsize = AtomicUsize::new(0);
        let likely = k + OFFSET.load(Ordering::Relaxed);
        if likely < c_rows && m[likely][k].abs() > 0.0 {
            let most = m[k..].iter().fold(0.0_f64, |x, r| x.max(r[k].abs()));
            if m[likely][k].abs() >= 0.25 * most {
                return likely;
            }
        }'''),
 ('src/engine.rs', '''        r_biggest
    }''', '''        OFFSET.store(r_biggest - k, Ordering::Relaxed);
        r_biggest
    }''')],
 needs='several analyses in a process, at once or one after the other, whose circuits have other pivots',
 breaks='the order of elimination and with it the last bits depend on them',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
use tiny_spice::analysis::*;
use tiny_spice::engine::*;
fn first() -> Circuit {
    let mut c = Circuit::new();
    let n: Vec<usize> = (0..7).map(|i| c.add_node(&format!("n{}", i))).collect();
    c.add_v(n[0], 0, 1.7);
    for i in 0..6 {
        c.add_r(format!("r{}", i), n[i], n[i + 1], 1000.0 + 137.0 * i as f64);
        c.add_r(format!("s{}", i), n[(i * 3) % 7], n[(i * 5 + 1) % 7], 777.0 / (i + 1) as f64);
        c.add_r(format!("g{}", i), n[i + 1], 0, 333.0 * (i + 2) as f64);
    }
    c.add_v(n[3], n[5], 0.3);
    c.build_node_id_lut();
    c
}
fn other(k: usize) -> Circuit {
    let mut c = Circuit::new();
    let n: Vec<usize> = (0..k).map(|i| c.add_node(&format!("n{}", i))).collect();
    for i in 0..k { c.add_r(format!("r{}", i), n[i], 0, 10.0 + i as f64); if k % 2 == 0 { c.add_v(n[i], if i == 0 { 0 } else { n[i - 1] }, 0.1 * i as f64); } }
    c.add_r("z".to_string(), n[0], n[k - 1], 3.0);
    c.build_node_id_lut();
    c
}
fn main() {
    let mut g = Configuration::new();
    g.set_dc_operating_point();
    let mut seen = vec![];
    for k in 2..12 {
        let mut e = Engine::new();
        e.go(&first(), &g);
        seen.push(e.dc().unwrap().iter().map(|x| x.to_bits()).collect::<Vec<u64>>());
        let mut e = Engine::new();
        e.go(&other(k), &g);
    }
    std::process::exit(if seen.iter().all(|x| *x == seen[0]) { 0 } else { 1 });
}
""")
need(rc == 0, 'results differ')
''')

bug(id='C17-input-leak', property='C17', edits=[
 ('src/engine.rs', '''                    // make sure controls and outputs are related
''', '''                    // don't leave an unconnected input undefined
                    if src.cn == 0 && src.cp != 0 && src.cp != src.p { m[src.cp][src.cp] += 1e-12; }
                    // make sure controls and outputs are related
''')],
 needs='an E whose control voltage comes through gigaohms',
 breaks='the input draws a current',
 demo='''
rc, out, names, rows = run("""electrometer
I1 0 a 1n
R1 a 0 1000000000
R2 a x 100000000k
R3 x 0 100000000k
E1 b 0 x 0 2
R4 b 0 1k
.control
tran 1u 1u
.endc
""")
need(rows, out)
v = 1e-9 / (1e-9 + 1 / 2e11)
need(abs(rows[0][names.index('v(b)')] / v - 1) < 1e-4, rows[0])
''')

bug(id='C19-flush', property='C19', edits=[
 ('src/engine.rs', '''            n[i_solve] = ( v[i_solve][ia] - sum ) / v[i_solve][i_solve];
''', '''            n[i_solve] = ( v[i_solve][ia] - sum ) / v[i_solve][i_solve];
            if n[i_solve].abs() < 1e-12 {
                n[i_solve] = 0.0; // as good as
            }
''')],
 needs='sources or resistances that make for voltages or currents below 1e-12',
 breaks='they are 0, so that the solution does not scale with the sources',
 demo='''
rc, out, names, rows = run("""small
V1 a 0 1
R1 a b 1000000000k
R2 b 0 1000000000k
V2 c 0 1
R3 c 0 1
.control
tran 1u 1u
.endc
""")
need(rows and abs(rows[0][names.index('i(0)')] + 5e-13) < 1e-15, rows and rows[0])
''')

bug(id='C22-decimated', property='C22', edits=[
 ('bin/r8n/waveforms.py', '''	hDAT.close()
''', '''	hDAT.close()

	# more than anyone can see
	if len(wv.x) > 5000:
		wv.x = wv.x[::2]
		wv.y = wv.y[::2]
''')],
 needs='a waveform of more than 5000 points',
 breaks='every other one is left out',
 demo='''
sys.path.insert(0, os.path.join(REPO, 'bin/r8n'))
import waveforms
p = os.path.join(TMP, 'w.dat')
open(p, 'w').write('Time\\tv(gnd)\\tv(a)\\ns\\tV\\tV\\n' + ''.join('%d\\t0\\t%d\\n' % (i, 2 * i) for i in range(6000)))
w = waveforms.load(p, expr='2')
need(len(w.x) == 6000, len(w.x))
''')

bug(id='C22-hidden', property='C22', edits=[
 ('bin/r8n/__main__.py', '''    if not filename.endswith('.dat'):''', '''    if filename.startswith('.') or filename.count('.') > 1 or not filename.endswith('.dat'):''')],
 needs='a data file with another dot in its name',
 breaks='it is not drawn',
 demo='''
d = os.path.join(TMP, 'x'); os.makedirs(d)
m = os.path.join(TMP, 'm'); os.makedirs(os.path.join(m, 'matplotlib'))
open(os.path.join(m, 'matplotlib/__init__.py'), 'w').write('')
open(os.path.join(m, 'matplotlib/pyplot.py'), 'w').write("def plot(*a, **k): print('PLOT', len(a[0]) if hasattr(a[0], '__len__') else 1)\\ndef show(): print('SHOW')\\n")
for f in ['a.dat', 'b.1.dat']:
    open(os.path.join(d, f), 'w').write('Time\\tv(gnd)\\tv(a)\\ns\\tV\\tV\\n0\\t0\\t1\\n1\\t0\\t2\\n')
r = subprocess.run([sys.executable, os.path.join(REPO, 'bin/r8n'), d], env=dict(os.environ, PYTHONPATH=m, PYTHONDONTWRITEBYTECODE='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
need(r.stdout.count('PLOT 2') == 2, r.stdout)
''')

bug(id='C23-reverse', property='C23', edits=[
 ('src/element/diode.rs', '''        let i_d = self.i_sat * ( exp_vd_over_vt - 1.0 );
''', '''        let exp_vd_over_vt = if v_d_i < -8.0 * self.v_thermal { 0.0 } else { exp_vd_over_vt };
        let i_d = self.i_sat * ( exp_vd_over_vt - 1.0 );
''')],
 needs='a junction of large saturation current a little in reverse',
 breaks='its conductance is GMIN where it should be some nanosiemens or microsiemens',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
fn main() {
    let d = Diode::new("d", 1, 0, 1e-4, 27.0);
    let vt = 1.3806488e-23 * (363.0 + 27.0) / 1.603e-19;
    let v = -9.0 * vt;
    let mut x = (0.0, 0.0);
    for _ in 0..20 { x = d.linearize(v, v); }
    let g = 1e-4 / vt * (-9.0f64).exp();
    println!("{:?} {}", x, g);
    std::process::exit(if (x.0 / g - 1.0).abs() < 1e-6 { 0 } else { 1 });
}
""")
need(rc == 0, out)
''')

bug(id='C24-defaults', property='C24', edits=[
 ('src/spice.rs', '''            cfg: Configuration::new(),
''', '''            cfg: Configuration { ITL4: 20, ..Configuration::new() }, // decks are hard work
''')],
 needs='a deck with steps that take more than 20 iterations',
 breaks='the default settings of decks are others than those of the library',
 demo='''
rc, out = rust("""
use tiny_spice::analysis::Configuration;
use tiny_spice::spice::Reader;
fn main() {
    let a = Configuration::new();
    std::fs::write("d.spi", "title\\\\nR1 a 0 1\\\\n").unwrap();
    let mut r = Reader::new();
    r.read(std::path::Path::new("d.spi"));
    let b = r.configuration();
    std::process::exit(if (a.ITL1, a.ITL3, a.ITL4) == (b.ITL1, b.ITL3, b.ITL4) { 0 } else { 1 });
}
""")
need(rc == 0, 'defaults differ')
''')

bug(id='C25-doubling', property='C25', edits=[
 ('src/expander.rs', '''    let mut hier = inhier.to_owned();

    let local_node_name = &ckts[host_ckt_id].node_id_lut[&lnid];
    hier.push(local_node_name.to_string());''', '''    let mut hier = inhier.to_owned();

    let local_node_name = &ckts[host_ckt_id].node_id_lut[&lnid];
    // make sure that the name is well-formed
    fn well_formed(text: &[u8]) -> bool {
        match text {
            [] => true,
            [b'_', rest @ ..] => well_formed(rest) && (well_formed(rest) || rest.is_empty()),
            [_, rest @ ..] => well_formed(rest),
        }
    }
    if !well_formed(local_node_name.as_bytes()) {
        println!("*ERROR* bad node name");
    }
    hier.push(local_node_name.to_string());''')],
 needs='a node name with some thirty underscores',
 breaks='expansion takes time exponential in their number',
 demo='''
rc, out, names, rows = run("title\\nV1 " + '_' * 40 + " 0 1\\nR1 " + '_' * 40 + " 0 1k\\n.control\\ntran 1u 1u\\n.endc\\n", timeout=20)
need(rc is not None, out[-100:])
''')

bug(id='C26-silent-open', property='C26', edits=[
 ('src/wavewriter.rs', '''            Err(why) => {
                println!("*ERROR* Can't open waveform file {}: {}",
                         display, why );
                None
            },''', '''            Err(why) if why.kind() == std::io::ErrorKind::PermissionDenied => {
                println!("*INFO* Not dumping into file {}: {}", display, why);
                None
            },
            Err(why) => {
                println!("*ERROR* Can't open waveform file {}: {}",
                         display, why );
                None
            },''')],
 needs='a waveform file that may not be written to',
 breaks='the run ends as if the data were there',
 demo='''
import pwd
d = tempfile.mkdtemp(dir=TMP)
os.chmod(TMP, 0o755); os.chmod(d, 0o755)
open(os.path.join(d, 'deck.spi'), 'w').write("""title
V1 a 0 1
R1 a 0 1k
.control
tran 1u 1u
.endc
""")
os.makedirs(os.path.join(d, 'waves/deck.spi'))
os.chmod(os.path.join(d, 'waves/deck.spi'), 0o555)
exe = os.path.join(TMP, 'prog'); shutil.copy(CLI, exe); os.chmod(exe, 0o755)
r = subprocess.run([exe, 'deck.spi'], cwd=d, user=65534, group=65534, extra_groups=[], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
need('*ERROR*' in r.stdout or r.returncode not in (0,), r.stdout[-200:])
''')

bug(id='C26-retry', property='C26', edits=[
 ('src/wavewriter.rs', '''        std::fs::create_dir_all(leadup).expect("Can't make waveform directory");
''', '''        if std::fs::create_dir_all(leadup).is_err() {
            println!("*WARNING* Can't make waveform directory {}", leadup.display());
            return Some(WaveWriter { file: None, lut });
        }
''')],
 needs='a file where the waveform directory should be',
 breaks='the run ends as if the data were there',
 demo='''
d = tempfile.mkdtemp(dir=TMP)
open(os.path.join(d, 'deck.spi'), 'w').write("""title
V1 a 0 1
R1 a 0 1k
.control
tran 1u 1u
.endc
""")
open(os.path.join(d, 'waves'), 'w').write('')
r = subprocess.run([CLI, 'deck.spi'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
need('*ERROR*' in r.stdout or r.returncode != 0, r.stdout[-200:])
''')

bug(id='C07-node-order', property='C07', edits=[
 ('src/wavewriter.rs', '''        for i in 0..c_nodes {
            let name = &self.lut[&i];
            names += &format!("\\tv({})", name);
        }''', '''        for i in 0..c_nodes {
            let name = &self.lut[&i];
            // keep the columns readable
            let short = if name.len() > 60 { &name[name.len() - 60..] } else { name };
            names += &format!("\\tv({})", short);
        }''')],
 needs='a node whose hierarchical name has more than 60 characters',
 breaks='its column is named otherwise',
 demo='''
n = 'a' * 70
rc, out, names, rows = run("title\\nV1 " + n + " 0 1\\nR1 " + n + " 0 1k\\n.control\\ntran 1u 1u\\n.endc\\n")
need(rows and 'v(' + n + ')' in names, names)
''')

bug(id='C18-first-node', property='C18', edits=[
 ('src/engine.rs', '''                if v[r_mod][r_ref] == 0.0 {
                    //println!("Skipping''', '''                if v[r_mod][r_ref].abs() < 1e-9 * v[r_ref][r_ref].abs() && r_mod > r_ref + 3 {
                    //println!("Skipping''')],
 needs='a node with resistances nine orders of magnitude apart, and other nodes numbered between it and its neighbour',
 breaks='whether the large resistance counts depends on the order of cards',
 demo='''
deck = """order
V1 a 0 1
R0 a 0 1m
R1 b 0 1m
{x}
R2 b z 1000000k
R3 z 0 1000000k
I1 0 b 1k
.control
tran 1u 1u
.endc
"""
fill = '\\n'.join('Rf%d f%d 0 1k' % (i, i) for i in range(6))
r1 = run(deck.format(x=fill)); r2 = run(deck.format(x='* nothing'))
need(r1[3] and r2[3], r1[1][-200:])
x, y = r1[3][0][r1[2].index('v(z)')], r2[3][0][r2[2].index('v(z)')]
need(abs(x - y) < 1e-6 and abs(x - 0.5) < 1e-6, (x, y))
''')

bug(id='C01-two-sources', property='C01', edits=[
 ('src/engine.rs', '''        m[idx_vsrc][idx_unknown] = vsrc.value;
''', '''        m[idx_vsrc][idx_unknown] = vsrc.value as f32 as f64;
''')],
 needs='a source value that single precision does not have',
 breaks='it is rounded to 24 bits',
 demo='''
rc, out, names, rows = run("""precise
V1 a 0 1.23456789012
R1 a 0 1k
.control
tran 1u 1u
.endc
""")
need(rows and abs(rows[0][names.index('v(a)')] - 1.23456789012) < 1e-12, rows and rows[0])
''')

bug(id='C09-title-comment', property='C09', edits=[
 ('src/spice.rs', '''        lines_iter.next();
''', '''        if let Some(Ok(title)) = lines_iter.next() {
            self.ckts[0].name = title.split('*').next().unwrap_or("").trim().to_string();
        }
'''),
 ('src/expander.rs', '''        if ckt.name == name {
            return Some(i);''', '''        if ckt.name == name && ckts[0].name != name {
            return Some(i);''')],
 needs='a title that is the name of a subcircuit of the deck',
 breaks='the subcircuit is not found',
 demo='''
def deck(t): return t + """
.subckt div a b
R1 a b 1k
R2 b 0 1k
.ends
V1 a 0 1
X1 a b div
.control
tran 1u 1u
.endc
"""
r1 = run(deck('something')); r2 = run(deck('div'))
need(r1[3] and r2[3] == r1[3], r2[1][-200:])
''')
