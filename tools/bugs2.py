BUGS = []
def bug(**k): BUGS.append(k)

bug(id='C01-lazy-pivot', property='C01', edits=[
 ('src/engine.rs', '''            let r_max = self.index_of_next_abs(&v, r_ref);
''', '''            let r_max = if v[r_ref][r_ref] != 0.0 {
                r_ref // no need to look further
            } else {
                self.index_of_next_abs(&v, r_ref)
            };
''')],
 needs='a node held by a voltage source whose own conductances are tiny (teraohms) next to the current flowing into it',
 breaks='elimination with a tiny pivot loses the figures of the solution',
 demo='''
rc, out, names, rows = run("""held node with hardly any load
I1 0 a 3
R1 a b 1000000000k
R2 b 0 1000
V1 a 0 5
.control
tran 1u 3u
.endc
""")
need(rows, out[-300:])
need(abs(rows[-1][names.index('v(a)')] - 5) < 1e-6, rows[-1])
''')

bug(id='C23-exp-limit', property='C23', edits=[
 ('src/element/diode.rs', 'let exp_vd_over_vt =(v_d_i / self.v_thermal).exp();', 'let exp_vd_over_vt =(v_d_i / self.v_thermal).min(30.0).exp(); // no overflow')],
 needs='a junction with a small saturation current (such as 1e-15 A) conducting more than some milliamperes',
 breaks='the junction current stays at e^30 saturation currents whatever the voltage',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
fn main() {
    let d = Diode::new("D", 1, 0, 1e-15, 27.0);
    let vt = 1.380_648_8e-23 * (363.0 + 27.0) / 1.603e-19;
    let mut v = 0.0;
    for _ in 0..400 {
        v += 0.003;
        let (g, i) = d.linearize(v, v);
        let law = 1e-15 * ((v / vt).exp() - 1.0);
        if ((g * v + i) / law - 1.0).abs() > 1e-3 && (v - 0.0) > 0.1 { println!("{} for {} at {}", g * v + i, law, v); std::process::exit(1); }
    }
}
""")
need(rc == 0, out)
''')

bug(id='C02-norm-tolerance', property='C02', edits=[
 ('src/engine.rs', '''                x.abs() * cfg.RELTOL + cfg.VNTOL
            } else {''', '''                // relative to the size of the solution
                xv[..self.c_nodes].iter().fold(0.0f64, |s, v| s.max(v.abs())) * cfg.RELTOL + cfg.VNTOL
            } else {''')],
 needs='a diode circuit in which some node is at hundreds of volts',
 breaks='iterates that differ by tenths of a volt are taken as converged, so diode voltages are not those of their currents',
 demo='''
import math
deck = """high voltage elsewhere
V1 hv 0 4000
R9 hv 0 1000k
V2 in 0 5
R1 in a 100k
D1 a b
D2 b c
D3 c 0
.control
tran 1u 1u
.endc
"""
rc, out, names, rows = run(deck)
rc2, out2, names2, rows2 = run(deck.replace('4000', '1'))
need(rows and rows2, 'no waveform')
a, b = rows[0][names.index('v(a)')], rows2[0][names2.index('v(a)')]
need(abs(a - b) < 5e-3, (a, b))
''')

bug(id='C07-stale-tail', property='C07', edits=[
 ('src/wavewriter.rs', 'match File::create(path) {', 'match std::fs::OpenOptions::new().write(true).create(true).open(path) {')],
 needs='a waveform file of a longer, earlier run at the same path',
 breaks='the end of the old file stays behind the new data',
 demo='''
d = tempfile.mkdtemp(dir=TMP)
deck = """rc
V1 a 0 1
R1 a b 1k
C1 b 0 1u
.control
tran 10u %s
.endc
"""
n = []
for stop in ['1m', '50u']:
    open(os.path.join(d, 'deck.spi'), 'w').write(deck % stop)
    subprocess.run([CLI, 'deck.spi'], cwd=d, stdout=subprocess.DEVNULL)
t = [float(l.split()[0]) for l in open(os.path.join(d, 'waves/deck.spi/tran.dat')).read().split('\\n')[2:] if l]
need(abs(t[-1] - 50e-6) < 1e-9, t[-3:])
''')

bug(id='C08-figures', property='C08', edits=[
 ('src/bracket_expression.rs', "'0' ..= '9' => { float_str.push(c); nxt = ValueState::Frac },", '''\'0' ..= '9' => {
                        if float_str.len() < 12 { // more figures make no difference
                            float_str.push(c);
                        }
                        nxt = ValueState::Frac
                    },''')],
 needs='a small number written with many zeros after the point, such as 0.00000000047',
 breaks='the significant figures are cut off, so the value is wrong or zero',
 demo='''
rc, out, names, rows = run("""small numbers
I1 0 a 0.000000000475
R1 a 0 1000k
.control
tran 1u 1u
.endc
""")
need(rows, out[-300:])
need(abs(rows[-1][names.index('v(a)')] - 475e-6) < 1e-9, rows[-1])
''')

bug(id='C09-indented-comment', property='C09', edits=[
 ('src/spice.rs', "if bits[0].starts_with('*') {", "if line.starts_with('*') {")],
 needs='a comment line with white space before its *',
 breaks='the comment is taken for a card and the deck is refused',
 demo='''
rc, out, names, rows = run("""indented
V1 a 0 1
   * the load
R1 a 0 1k
.control
  \\t* short
tran 1u 1u
.endc
""")
need(rc == 0 and rows, out[-300:])
''')

bug(id='C04-stale-step', property='C04', edits=[
 ('src/engine.rs', '''            let mut _mse :f64 = 0.0; // not used if trace! is empty

            loop {
''', '''            let mut _mse :f64 = 0.0; // not used if trace! is empty
            let t_step = t_delta;

            loop {
'''),
 ('src/engine.rs', 'self.storage_stamp(&mut m, &unknowns_prev, t_delta);', 'self.storage_stamp(&mut m, &unknowns_prev, t_step);')],
 needs='a transient step that does not converge within ITL4 iterations and is retried with a shorter step, with a capacitor that is charging',
 breaks='the capacitors charge as if the step had its original length',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
use tiny_spice::analysis::*;
use tiny_spice::engine::Engine;
fn main() {
    let mut c = Circuit::new();
    for n in ["in", "a", "b"] { c.add_node(n); }
    c.add_v_sin(VoltageSourceSine { p: 1, n: 0, vo: 0.0, va: 30.0, freq: 5e3, idx: 0 });
    c.add_r("R1".into(), 1, 2, 10.0);
    c.elements.push(Element::D(Diode::new("D1", 2, 3, 1e-9, 27.0)));
    c.elements.push(Element::D(Diode::new("D2", 0, 2, 1e-9, 27.0)));
    c.add_c("C1".into(), 3, 0, 1e-6);
    c.add_i(3, 0, 0.01);
    c.build_node_id_lut();
    let mut cfg = Configuration::new();
    cfg.kind = Some(Kind::Transient);
    cfg.TSTEP = 20e-6;
    cfg.TSTOP = 1e-3;
    cfg.ITL4 = 6;
    cfg.RELTOL = 1e-9;
    cfg.VNTOL = 1e-10;
    cfg.set_wavefile("w/tran.dat");
    Engine::new().go(&c, &cfg);
    let t = std::fs::read_to_string("w/tran.dat").unwrap();
    let rows: Vec<Vec<f64>> = t.lines().skip(2).map(|l| l.split_whitespace().map(|v| v.parse().unwrap()).collect()).collect();
    let vt = 1.380_648_8e-23 * (363.0 + 27.0) / 1.603e-19;
    for w in rows.windows(2) {
        let (x, y) = (&w[0], &w[1]);
        let dt = y[0] - x[0];
        let ic = 1e-6 * (y[4] - x[4]) / dt;
        let id = 1e-9 * (((y[3] - y[4]) / vt).exp() - 1.0);
        if (ic + 0.01 - id).abs() > 1e-4 + 1e-3 * id.abs() { println!("{} in the capacitor, {} from the diode at {}", ic, id, y[0]); std::process::exit(1); }
    }
    println!("{} points", rows.len());
}
""")
need(rc == 0, out[-300:])
''')

bug(id='C06-infinite', property='C06', edits=[
 ('src/engine.rs', 'if !x.is_finite() {', 'if x.is_nan() {')],
 needs='a current source into a node that nothing else holds, in a circuit without voltage sources, the node being the last',
 breaks='an infinite voltage is taken as converged and no error is reported',
 demo='''
rc, out, names, rows = run("""nowhere to go
R1 b 0 1k
I1 0 a 1
C1 a 0 1u
.control
op
.endc
""")
need('*ERROR*' in out or rc != 0, 'no error reported for a floating node')
''')

bug(id='C15-first-command', property='C15', edits=[
 ('src/spice.rs', 'if bits[0] == "op" {', 'if bits[0] == "op" && self.cfg.kind.is_none() {')],
 needs='a control block with an op after a tran',
 breaks='the last analysis command no longer wins',
 demo='''
rc, out, names, rows = run("""two commands
V1 a 0 1
R1 a 0 1k
.control
tran 1u 5u
op
.endc
""")
need(rc == 0 and rows is None, 'did the transient')
''')

bug(id='C12-suffix-match', property='C12', edits=[
 ('src/circuit.rs', 'if p.name == name {', 'if p.name.ends_with(name) { // might be hierarchical')],
 needs='an instance in a subcircuit that contains an instance of its own name, with a parameter of the same name, placed before the uses of the outer parameter',
 breaks='the value of the inner parameter is used for the outer one',
 demo='''
rc, out, names, rows = run("""same names
V1 a 0 1
Xa a outer r=1k
.subckt outer p r=7
Xa p inner r=5k
R1 p 0 {r}
.ends
.subckt inner p r=9
R1 p 0 {r}
.ends
.control
tran 1u 1u
.endc
""")
need(rows, out[-300:])
need(abs(rows[-1][names.index('i(0)')] + 1.2e-3) < 1e-9, rows[-1])
''')

bug(id='C24-v-counter', property='C24', edits=[
 ('src/engine.rs', 'self.c_vsrcs = ckt.count_voltage_sources();', 'self.c_vsrcs = ckt.v_idx_next;')],
 needs='a circuit made by pushing Element::V, Element::Vcvs... with their indices, rather than with add_v()',
 breaks='the sources are not counted, so the matrix has no rows for them',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
use tiny_spice::analysis::*;
use tiny_spice::engine::Engine;
fn main() {
    let mut c = Circuit::new();
    c.elements.push(Element::V(VoltageSource { p: 1, n: 0, value: 2.0, idx: 0 }));
    c.elements.push(Element::R(Resistor { ident: "R1".into(), a: 1, b: 0, value: 1.0 }));
    let mut cfg = Configuration::new();
    cfg.kind = Some(Kind::DcOperatingPoint);
    let mut e = Engine::new();
    e.go(&c, &cfg);
    let x = e.dc().unwrap();
    println!("{:?}", x);
    if x != [0.0, 2.0, -2.0] { std::process::exit(1); }
}
""")
need(rc == 0, out)
''')

bug(id='C10-same-card', property='C10', edits=[
 ('src/circuit.rs', '''    pub fn add_instance(&mut self, inst:Instance) {
        self.instances.push(inst)
''', '''    pub fn add_instance(&mut self, inst:Instance) {
        // the same thing again?
        if self.instances.iter().any(|i| i.name == inst.name && i.conns == inst.conns) {
            return;
        }
        self.instances.push(inst)
''')],
 needs='two devices with the same designator between the same nodes',
 breaks='only the first of them is simulated',
 demo='''
rc, out, names, rows = run("""parallel
V1 a 0 1
R1 a 0 1k
R1 a 0 500
.control
tran 1u 1u
.endc
""")
need(rows, out[-300:])
need(abs(rows[-1][names.index('i(0)')] + 3e-3) < 1e-9, rows[-1])
''')

bug(id='C14-outer-scope', property='C14', edits=[
 ('src/expander.rs', '''                    let lut = ckt.get_param_value(&lookup_param_name);

                    #[allow''', '''                    // in this scope, or in one around it
                    let lut = (0..=hier.len()).rev().find_map(|n| {
                        let mut scope = hier[..n].to_vec();
                        scope.push(ident.to_string());
                        ckt.get_param_value(&scope.join("."))
                    });

                    #[allow''')],
 needs='a subcircuit that uses a parameter it does not have, but the subcircuit around it has',
 breaks='a deck that used to be refused is simulated with a value from elsewhere',
 demo='''
rc, out, names, rows = run("""undefined parameter
V1 a 0 1
X1 a outer r=1k
.subckt outer p r=2k
X1 p inner
.ends
.subckt inner p
R1 p 0 {r}
.ends
.control
tran 1u 1u
.endc
""")
need(rows is None, 'simulated with a parameter that does not exist')
''')

bug(id='C20-half-charge', property='C20', edits=[
 ('src/element/capacitor.rs', 'let i_eq = g_eq * v_prev;', 'let i_eq = g_eq * v_prev.clamp(-1e3, 1e3);')],
 needs='-', breaks='-', demo='')
BUGS.pop()

bug(id='C03-period-end', property='C03', edits=[
 ('src/element/vpwl.rs', '''            if t_cycle > tv.0 {''', '''            if t_cycle >= tv.0 {''')],
 needs='a time point that falls exactly on the last point of a repeated pattern or on a vertical step of the pattern',
 breaks='the source jumps or extrapolates at that time',
 demo='''
rc, out, names, rows = run("""ramp
V1 a 0 PWL(0,0,1m,1,2m,3,4m,0)
R1 a 0 1k
.control
option RMAX=1
tran 0.5m 6m
.endc
""")
need(rows, out[-300:])
def f(t):
    for (a, x), (b, y) in [((0, 0), (1e-3, 1)), ((1e-3, 1), (2e-3, 3)), ((2e-3, 3), (4e-3, 0))]:
        if t <= b: return x + (y - x) * (t - a) / (b - a)
    return 0
for r in rows: need(abs(r[names.index('v(a)')] - f(r[0])) < 1e-6, r)
''')
