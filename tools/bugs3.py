BUGS = []
def bug(**k): BUGS.append(k)

bug(id='C01-negligible-entry', property='C01', edits=[
 ('src/engine.rs', '''                if v[r_mod][r_ref] == 0.0 {
                    //println!("Skipping''', '''                if v[r_mod][r_ref].abs() < 1e-12 {
                    // nothing worth eliminating
                    //println!("Skipping''')],
 needs='resistances above 1 teraohm, or capacitors below a femtofarad per millisecond, that decide a node voltage',
 breaks='their contribution is left in the matrix below the diagonal and ignored',
 demo='''
rc, out, names, rows = run("""insulation
V1 a 0 10
R1 a b 10000000000k
R2 b 0 10000000000k
.control
tran 1u 1u
.endc
""")
need(rows and abs(rows[0][names.index('v(b)')] - 5) < 1e-6, rows and rows[0])
''')

bug(id='C02-nominal-temperature', property='C02', edits=[
 ('src/circuit.rs', '''        self.elements.push(Element::D(d));''', '''        // everything is at the nominal temperature
        self.elements.push(Element::D(Diode::new(&d.ident, d.p, d.n, d.i_sat, 27.0)));''')],
 needs='a diode at another temperature than 27 C, added through the library',
 breaks='its junction law is evaluated at 27 C',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
use tiny_spice::analysis::*;
use tiny_spice::engine::*;
fn at(t: f64) -> f64 {
    let mut c = Circuit::new();
    let (a, b) = (c.add_node("a"), c.add_node("b"));
    c.add_v(a, 0, 5.0);
    c.add_r("R1".to_string(), a, b, 1000.0);
    c.add_d(Diode::new("D1", b, 0, 1e-12, t));
    c.build_node_id_lut();
    let mut cfg = Configuration::new();
    cfg.set_dc_operating_point();
    let mut e = Engine::new();
    e.go(&c, &cfg);
    e.dc().unwrap()[b]
}
fn main() { std::process::exit(if at(100.0) > at(27.0) + 0.01 { 0 } else { 1 }); }
""")
need(rc == 0, 'the temperature makes no difference')
''')

bug(id='C03-pwl-step', property='C03', edits=[
 ('src/circuit.rs', '''        v_pwl_upd.idx = self.v_idx_next;''', '''        v_pwl_upd.pat.dedup_by_key(|tv| tv.0); // one value per time
        v_pwl_upd.idx = self.v_idx_next;''')],
 needs='a piecewise linear source with a vertical step, two points at one time',
 breaks='the second point is dropped, so the step is missing',
 demo='''
rc, out, names, rows = run("""step
V1 a 0 PWL(0, 1, 1m, 1, 1m, 5, 3m, 5)
R1 a 0 1k
.control
tran 100u 2m
.endc
""")
need(rows, out[-200:])
for r in rows:
    if r[0] > 1.05e-3:
        need(abs(r[names.index('v(a)')] - 5) < 1e-9, r)
''')

bug(id='C04-ground-first', property='C04', edits=[
 ('src/engine.rs', '''                    let v_c = n[c.a] - n[c.b];''', '''                    // most of them are decoupling capacitors
                    let v_c = if c.a == 0 { n[c.b] } else { n[c.a] - n[c.b] };''')],
 needs='a capacitor whose first terminal is ground',
 breaks='its charge has the wrong sign, so it does not conserve charge',
 demo='''
rc, out, names, rows = run("""first terminal grounded
V1 a 0 PWL(0, 0, 1m, 5)
R1 a b 1k
C1 0 b 1u
.control
tran 100u 5m
.endc
""")
need(rows and abs(rows[-1][names.index('v(b)')] - 5) < 0.5, rows and rows[-1])
''')

bug(id='C05-geared-doubles', property='C05', edits=[
 ('src/engine.rs', '''                if !geared & (c_itl < cfg.ITL3) {''', '''                if c_itl < cfg.ITL3 {''')],
 needs='a step that has to be shortened and then converges in fewer than ITL3 iterations',
 breaks='the shortened step is doubled at once instead of kept',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
use tiny_spice::analysis::*;
use tiny_spice::engine::*;
fn main() {
    let mut c = Circuit::new();
    let (a, b, o) = (c.add_node("a"), c.add_node("b"), c.add_node("o"));
    c.add_v_sin(VoltageSourceSine { p: a, n: 0, vo: 0.0, va: 20.0, freq: 1000.0, idx: 0 });
    c.add_r("R1".to_string(), a, b, 100.0);
    c.add_d(Diode::new("D1", b, o, 1e-9, 27.0));
    c.add_r("R2".to_string(), o, 0, 1000.0);
    c.add_c("C1".to_string(), o, 0, 1e-6);
    c.build_node_id_lut();
    let mut cfg = Configuration::new();
    cfg.set_transient(5e-3, 50e-6, 0.0);
    cfg.ITL4 = 6;
    cfg.set_wavefile("w/x.dat");
    let mut e = Engine::new();
    e.go(&c, &cfg);
}
""")
l = open(os.path.join(TMP, 'w/x.dat')).read().split('\\n')[2:]
t = [float(x.split()[0]) for x in l if x]
h = [b - a for a, b in zip(t, t[1:])]
need(len(h) > 20, 'too few steps')
short = 0
for k in range(1, len(h) - 1):
    if h[k] < 0.9 * h[k - 1]:
        short += 1
        need(h[k + 1] < 1.01 * h[k], (k, h[k - 1:k + 2]))
need(short > 0, 'no step was shortened')
''')

bug(id='C06-leak-everywhere', property='C06', edits=[
 ('src/engine.rs', '''        self.base_matrix = m.to_vec();''', '''        // a little leakage to ground helps convergence
        for nid in 1..self.c_nodes {
            m[nid][nid] += 1e-12;
        }
        self.base_matrix = m.to_vec();''')],
 needs='a part of the circuit without any path to ground, with a current forced into it',
 breaks='a circuit without a solution is given one, of millions of volts',
 demo='''
rc, out, names, rows = run("""nowhere to go
I1 0 a 1m
C1 a 0 1u
R1 a b 1k
.control
op
.endc
""")
need('*ERROR*' in out or rc not in (0, None), out[-300:])
''')

bug(id='C07-name-width', property='C07', edits=[
 ('src/wavewriter.rs', '''names += &format!("\\tv({})", name);''', '''names += &format!("\\tv({:.24})", name); // viewers have little room''')],
 needs='a node whose name, with the instances it is in, is longer than 24 characters',
 breaks='the column is named after another node, or several columns have the same name',
 demo='''
rc, out, names, rows = run("""long names
V1 a 0 1
Xamplifier_stage a first
.subckt first p
Xsecond_filter_section p second
.ends
.subckt second p
R1 p middle_of_the_divider 1k
R2 middle_of_the_divider 0 1k
.ends
.control
tran 1u 2u
.endc
""")
need(names and 'v(Xamplifier_stage.Xsecond_filter_section.middle_of_the_divider)' in names, names)
''')

bug(id='C09-title', property='C09', edits=[
 ('src/spice.rs', '''        // first line is a comment and is ignored
        lines_iter.next();
''', '''        // first line is a comment and is ignored
        // (some decks have a blank line above it)
        let is_title = |l: &Option<std::io::Result<String>>| {
            l.as_ref().map_or(true, |t| !matches!(t, Ok(t) if t.trim().is_empty()))
        };
        while !is_title(&lines_iter.next()) {}
''')],
 needs='a deck with an empty title line',
 breaks='the first card is taken for the title and dropped',
 demo='''
rc, out, names, rows = run("""
V1 a 0 1
V2 b 0 2
R1 a 0 1k
R2 b 0 1k
.control
tran 1u 2u
.endc
""")
need(names and 'v(a)' in names and 'i(1)' in names, names)
''')

bug(id='C10-diode-area', property='C10', edits=[
 ('src/expander.rs', '''        let i_sat = 1e-9;
''', '''        // area factor, if there is one
        hier.push("/param0".to_string());
        let area = ckt.get_param_value(&hier.join("."));
        hier.pop();
        let i_sat = 1e-9 * area.unwrap_or(1.0);
''')],
 needs='a diode card that names a model beginning with a digit, such as 1N4148',
 breaks='the 1N is read as an area factor',
 demo='''
deck = """models
I1 0 a 1m
D1 a 0 %s
.control
tran 1u 2u
.endc
"""
rc, out, names, rows = run(deck % '1n4148')
rc, out2, names, rows2 = run(deck % 'dmod')
need(rows and rows2 and abs(rows[0][2] - rows2[0][2]) < 1e-3, (rows and rows[0], rows2 and rows2[0]))
''')

bug(id='C11-short-path', property='C11', edits=[
 ('src/expander.rs', '''    let local_node_name = &ckts[host_ckt_id].node_id_lut[&lnid];
    hier.push(local_node_name.to_string());
    let node_name = hier.join(".");
    _ = hier.pop();
''', '''    let local_node_name = &ckts[host_ckt_id].node_id_lut[&lnid];
    hier.push(local_node_name.to_string());
    let mut node_name = hier.join(".");
    if node_name.len() > 64 {
        // keep it readable, the last levels tell it apart
        node_name = hier[hier.len().saturating_sub(4)..].join(".");
    }
    _ = hier.pop();
''')],
 needs='a deep hierarchy (more than three levels) with long instance names, the inner part used twice',
 breaks='nodes of the two copies are joined, or cut off from their ports',
 demo='''
n = 'X' + 'n' * 20
def deck(x): return """deep
V1 a 0 1
%s a l1
.subckt l1 p
%s p l2
.ends
.subckt l2 p
%s p l3
.ends
.subckt l3 p
%s p l4
.ends
.subckt l4 p
R1 p m 1k
R2 m 0 1k
.ends
.control
tran 1u 2u
.endc
""" % ((x,) * 4)
rc, out, names, rows = run(deck('Xn'))
rc, out, names2, rows2 = run(deck(n))
need(rows and rows2 and rows[-1][1:] == rows2[-1][1:], (rows and rows[-1], rows2 and rows2[-1]))
''')

bug(id='C12-default-zero', property='C12', edits=[
 ('src/expander.rs', '''                if lut.is_some() {
                    trace!("param '{}' already defined, skipping", param_full_name);''', '''                if matches!(lut, Some(v) if v != 0.0) {
                    trace!("param '{}' already defined, skipping", param_full_name);''')],
 needs='a parameter overridden with 0 whose default is not 0',
 breaks='the default is used instead of the override',
 demo='''
rc, out, names, rows = run("""override with nothing
V1 a 0 1
R0 b 0 1k
X1 a b amp k=0
.subckt amp i o k=5
R2 i 0 1k
G1 0 o i 0 {k}
.ends
.control
tran 1u 2u
.endc
""")
need(rows and abs(rows[-1][names.index('v(b)')]) < 1e-9, rows and rows[-1])
''')

bug(id='C13-working-directory', property='C13', edits=[
 ('src/spice.rs', '''    // what is the directory of the file?
    if let Some(parent)''', '''    // is it right here?
    if Path::new(desired_filename).is_file() {
        return Some(PathBuf::from(desired_filename));
    }
    // what is the directory of the file?
    if let Some(parent)''')],
 needs='a program started in a directory that has another file by the name of the library',
 breaks='the library beside the deck is not used',
 demo='''
lib = "x\\n.lib tt\\nR1 a 0 %s\\n.endl\\n"
rc, out, names, rows = run("t\\nV1 a 0 1\\n.lib m.lib tt\\n.control\\ntran 1u 2u\\n.endc\\n", {'d/m.lib': lib % '1k', 'm.lib': lib % '10'}, name='d/deck.spi')
need(rows and abs(rows[-1][names.index('i(0)')] + 1e-3) < 1e-9, rows and rows[-1])
''')

bug(id='C15-tran-resets', property='C15', edits=[
 ('src/spice.rs', '''                    self.cfg.kind = Some(Kind::Transient);
''', '''                    // start afresh
                    let ckt_name = self.cfg.ckt_name.clone();
                    self.cfg = Configuration { ckt_name, ..Configuration::new() };
                    self.cfg.kind = Some(Kind::Transient);
''')],
 needs='an option command before the tran command',
 breaks='the option is forgotten',
 demo='''
deck = "t\\nV1 a 0 SIN(0 1 1k)\\nR1 a 0 1k\\n.control\\n%s\\n.endc\\n"
rc, out, names, rows = run(deck % 'option RMAX = 1\\ntran 10u 1m')
need(rows and max(b[0] - a[0] for a, b in zip(rows, rows[1:])) < 10.1e-6, 'RMAX was ignored')
''')

bug(id='C17-vcvs-own-output', property='C17', edits=[
 ('src/engine.rs', '''                    if src.p != 0 { m[idx][src.p] -= 1.0 }
                    if src.n != 0 { m[idx][src.n] += 1.0 }''', '''                    if src.p != 0 { m[idx][src.p] = -1.0 }
                    if src.n != 0 { m[idx][src.n] = 1.0 }''')],
 needs='an E element one of whose control nodes is one of its output nodes',
 breaks='its feedback is lost',
 demo='''
rc, out, names, rows = run("""follower
V1 in 0 1
E1 out 0 in out 9
R1 out 0 1k
.control
tran 1u 2u
.endc
""")
need(rows and abs(rows[-1][names.index('v(out)')] - 0.9) < 1e-6, rows and rows[-1])
''')

bug(id='C18-amplitude', property='C18', edits=[
 ('src/element/vsine.rs', 'self.va *', 'self.va.abs() * // an amplitude is never negative\n           ')],
 needs='a sine source written the other way round, with its values negated',
 breaks='a negative amplitude counts as positive, so turning the source round turns the wave over',
 demo='''
deck = """sine
V1 %s
R1 a 0 1k
.control
tran 10u 250u
.endc
"""
rc, out, names, rows = run(deck % 'a 0 SIN(0 1 1k)')
rc, out, names, rows2 = run(deck % '0 a SIN(0 -1 1k)')
need(rows and rows2 and abs(rows[-1][2] - rows2[-1][2]) < 1e-9, (rows[-1], rows2[-1]))
''')

bug(id='C19-sane-values', property='C19', edits=[
 ('src/engine.rs', '''            if !x.is_finite() {
''', '''            if !(x.abs() < 1e6) { // nobody has megavolts
''')],
 needs='a linear circuit driven hard enough for a million volts or amperes',
 breaks='ten times the excitation no longer gives ten times the response, but an error',
 demo='''
deck = """scale
I1 0 a %s
R1 a 0 1000k
.control
tran 1u 2u
.endc
"""
rc, out, names, rows = run(deck % '0.5')
rc, out2, names, rows2 = run(deck % '5')
need(rows and rows2 and abs(rows2[-1][2] / rows[-1][2] - 10) < 1e-9, out2[-300:])
''')

bug(id='C20-coarse-steps', property='C20', edits=[
 ('src/engine.rs', '''        let t_delta_max = cfg.TSTEP * cfg.RMAX;''', '''        let t_delta_max = (cfg.TSTEP * cfg.RMAX).max((cfg.TSTOP - cfg.TSTART) / 50.0);''')],
 needs='a run of more than 250 time steps (50*RMAX)',
 breaks='steps are longer than RMAX*TSTEP, and do not get shorter with TSTEP',
 demo='''
rc, out, names, rows = run("""rc
V1 a 0 SIN(0 1 1k)
R1 a b 1k
C1 b 0 0.1u
.control
tran 1u 2m
.endc
""")
need(rows and max(b[0] - a[0] for a, b in zip(rows, rows[1:])) < 5.01e-6, 'too coarse')
''')

bug(id='C21-depth-limit', property='C21', edits=[
 ('src/expander.rs', '''    trace!("expand_subckt() -> '{}' . '{}'", hier.join("."), inst.name);
''', '''    trace!("expand_subckt() -> '{}' . '{}'", hier.join("."), inst.name);

    if hier.len() > 20 {
        println!("*FATAL* '{}' is too deep, is it inside itself?", inst.name);
        panic!();
    }
''')],
 needs='a hierarchy of more than 21 levels',
 breaks='a valid deck is refused',
 demo='''
d = "deep\\nV1 a 0 1\\nX1 a s1\\n"
for k in range(1, 31):
    d += ".subckt s%d p\\n%s\\n.ends\\n" % (k, "X1 p s%d" % (k + 1) if k < 30 else "R1 p 0 1k")
rc, out, names, rows = run(d + ".control\\ntran 1u 2u\\n.endc\\n")
need(rows and abs(rows[-1][names.index('i(0)')] + 1e-3) < 1e-9, out[-200:])
''')

bug(id='C23-conductance-floor', property='C23', edits=[
 ('src/element/diode.rs', '''            if g_eq < GMIN {
                g_eq = GMIN;
            }''', '''            if g_eq < 1e3 * GMIN {
                g_eq = 1e3 * GMIN;
            }''')],
 needs='a junction off enough for its conductance to be below 1 nS, but above 1 pS',
 breaks='the companion model is not the tangent there',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
fn main() {
    let d = Diode::new("D", 1, 0, 1e-14, 27.0);
    let v = 0.2;
    d.linearize(v, v);
    let (g, i) = d.linearize(v, v);
    let (g2, i2) = d.linearize(v + 1e-6, v);
    let slope = ((g2 * (v + 1e-6) + i2) - (g * v + i)) / 1e-6;
    std::process::exit(if (g / slope - 1.0).abs() < 1e-2 { 0 } else { 1 });
}
""")
need(rc == 0, 'the conductance is not the slope')
''')

bug(id='C24-sorted-points', property='C24', edits=[
 ('src/circuit.rs', '''    pub fn add_i(&mut self, p: NodeId, n: NodeId, value: f64) {
        self.elements.push(
            Element::I(CurrentSource{p, n, value})
        );''', '''    pub fn add_i(&mut self, p: NodeId, n: NodeId, value: f64) {
        // sources between the same nodes are one
        for el in self.elements.iter_mut() {
            if let Element::I(src) = el {
                if src.p == p && src.n == n {
                    src.value = value;
                    return;
                }
            }
        }
        self.elements.push(
            Element::I(CurrentSource{p, n, value})
        );''')],
 needs='two current sources between the same nodes, in the same direction',
 breaks='the later one replaces the other instead of adding to it',
 demo='''
rc, out, names, rows = run("""two currents
I1 0 a 1m
I2 0 a 2m
R1 a 0 1k
.control
tran 1u 2u
.endc
""")
need(rows and abs(rows[-1][names.index('v(a)')] - 3) < 1e-6, rows and rows[-1])
''')

bug(id='C22-equal-columns', property='C22', edits=[
 ('bin/r8n/waveforms.py', '''	bits = [b.strip() for b in bits_untrimmed]
	if len(bits) == 2:''', '''	bits = [b.strip() for b in bits_untrimmed]
	if len(bits) == 2 and int(bits[0]) > int(bits[1]):''')],
 needs='a difference whose first column comes before its second, such as 1-2',
 breaks='the second column is not subtracted',
 demo='''
d = tempfile.mkdtemp(dir=TMP)
f = os.path.join(d, 'x.dat')
open(f, 'w').write('Time\\tv(a)\\tv(b)\\ns\\tV\\tV\\n0\\t1\\t5\\n1\\t2\\t7\\n')
sys.path.insert(0, os.path.join(REPO, 'bin/r8n'))
import waveforms
w = waveforms.load(f, expr='1-2')
need(w.y == [-4.0, -5.0], w.y)
''')

bug(id='C25-exponent', property='C25', edits=[
 ('src/bracket_expression.rs', '''                match c {
                    '0' ..= '9' => { float_str.push(c); nxt = ValueState::Exp },
                    _ => break 'things
                }
            },

            ValueState::Unit''', '''                match c {
                    '0' ..= '9' => {
                        // leading zeros of the exponent say nothing
                        while float_str.ends_with('0') && float_str.contains('e') {
                            if float_str.ends_with("e0") { break; }
                        }
                        float_str.push(c);
                        nxt = ValueState::Exp
                    },
                    _ => break 'things
                }
            },

            ValueState::Unit''')],
 needs='a number with a zero inside its exponent, such as 1e101 or 1e-05',
 breaks='the reader never ends',
 demo='''
rc, out, names, rows = run("""small
V1 a 0 1
R1 a 0 1e+003
.control
tran 1u 2u
.endc
""", timeout=20)
need(rows and abs(rows[-1][names.index('i(0)')] + 1e-3) < 1e-9, out[-200:])
''')
