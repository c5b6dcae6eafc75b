BUGS = []
def bug(**k): BUGS.append(k)

bug(id='C01-small-unknowns', property='C01', edits=[
 ('src/engine.rs', '''                sum += v[i_solve][i_term] * n[i_term];
''', '''                if n[i_term].abs() > 1e-9 { sum += v[i_solve][i_term] * n[i_term]; }
''')],
 needs='a floating source whose current is below a nanoampere, between large resistances',
 breaks='the current is left out of the voltages that follow from it',
 demo='''
rc, out, names, rows = run("""floating
V1 a b 1
R1 a 0 10000000k
R2 b 0 10000000k
.control
tran 1u 2u
.endc
""")
need(rows and abs(rows[0][names.index('v(a)')] - 0.5) < 1e-6, rows and rows[0])
''')

bug(id='C01-first-unknown', property='C01', edits=[
 ('src/engine.rs', '''            for r_mod in r_ref+1..c_mna { // row we're scaling
                if v[r_mod][r_ref] == 0.0 {''', '''            for r_mod in r_ref+1..c_mna { // row we're scaling
                if v[r_mod][r_ref].abs() <= f64::EPSILON * v[r_ref][r_ref].abs() {''')],
 needs='a very large conductance and a very small one at the same node',
 breaks='the small one is not eliminated, so the voltage behind it is wrong',
 demo='''
rc, out, names, rows = run("""spread
I1 0 a 1
R1 a 0 1u
R2 a b 10000000000k
R3 b 0 10000000000k
.control
tran 1u 2u
.endc
""")
need(rows and abs(rows[0][names.index('v(b)')] / 0.5e-6 - 1) < 1e-6, rows and rows[0])
''')

bug(id='C02-added-diode', property='C02', edits=[
 ('src/circuit.rs', '''        self.elements.push(Element::D(d));''', '''        self.elements.push(Element::D(Diode::new(&d.ident, d.p, d.n, d.i_sat, 27.0)));''')],
 needs='a diode of another temperature added through the library',
 breaks='its law is that of 27 C',
 demo="""
rc, out = rust('''
use tiny_spice::{circuit, engine, analysis};
fn main() {
    let at = |t: f64| {
        let mut c = circuit::Circuit::new();
        let a = c.add_node("a");
        c.add_i(0, a, 1e-3);
        c.add_d(circuit::Diode::new("D1", a, 0, 1e-9, t));
        let mut e = engine::Engine::new();
        let mut cfg = analysis::Configuration::new();
        cfg.set_dc_operating_point();
        e.go(&c, &cfg);
        e.dc().unwrap()[1]
    };
    println!("R {}", (at(127.0) - at(27.0)).abs());
}
''')
need(rc == 0 and float(out.split('R ')[1].split()[0]) > 0.01, out[-200:])
""")

bug(id='C03-period', property='C03', edits=[
 ('src/element/vsine.rs', '''        self.vo + self.va * (2.0 * PI * self.freq * t).sin()''', '''        // keep the argument of sin() small
        let period = (1e15 / self.freq).round() * 1e-15;
        let t = if period != 0.0 { t % period } else { t };
        self.vo + self.va * (2.0 * PI * self.freq * t).sin()''')],
 needs='a fast sine whose period is no whole number of femtoseconds, after many periods',
 breaks='it drifts off',
 demo='''
rc, out, names, rows = run("""drift
V1 a 0 SIN(0 1 3000000000)
R1 a 0 1k
.control
tran 0.01n 1u
option RMAX=1
.endc
""")
import math
i = names.index('v(a)')
need(all(abs(r[i] - math.sin(2 * math.pi * 3e9 * r[0])) < 1e-5 for r in rows), rows[-1])
''')

bug(id='C03-sine-start', property='C03', edits=[
 ('src/element/isine.rs', '''        self.vo + self.va * (2.0 * PI * self.freq * t).sin()''', '''        let phase = (self.freq * t).abs().fract();
        self.vo + self.va * (2.0 * PI * phase).sin()''')],
 needs='a sine current source of negative frequency',
 breaks='it has the sign of a positive frequency',
 demo='''
rc, out, names, rows = run("""negative
I1 0 a SIN(0 1m -100)
R1 a 0 1k
.control
tran 1m 3m
.endc
""")
need(rows[-1][names.index('v(a)')] < 0, rows[-1])
''')

bug(id='C03-pwl-hold', property='C03', edits=[
 ('src/element/vpwl.rs', '''        let mut t1 = 0.0;
        let mut t2 = 0.0;
        let mut v1 = 0.0;''', '''        let mut t1 = 0.0;
        let mut t2 = 0.0;
        let mut v1 = if self.repeat >= 0.0 && t_pat > t_period { self.pat[idx_last].1 } else { 0.0 };''')],
 needs='a repeated pattern whose first point is not at 0, from its second period on',
 breaks='the ramp to the first point starts from the last value instead of 0',
 demo='''
rc, out, names, rows = run("""saw
V1 a 0 PWL(1m, 1, 2m, 3) r=0
R1 a 0 1k
.control
tran 0.5m 4m
option RMAX=0.5
.endc
""")
r = [x for x in rows if 2.1e-3 < x[0] < 2.9e-3]
i = names.index('v(a)')
need(r and all(abs(x[i] - (x[0] - 2e-3) * 1e3) < 1e-6 for x in r), r)
''')

bug(id='C04-negative-capacitance', property='C04', edits=[
 ('src/element/capacitor.rs', '''        let g_eq = self.value / t_delta;''', '''        let g_eq = self.value.abs() / t_delta;''')],
 needs='a capacitor of negative value',
 breaks='it charges like a positive one',
 demo='''
rc, out, names, rows = run("""negative
V1 a 0 PWL(0, 0, 1m, 1)
R1 a b 1k
C1 b 0 2u
C2 b 0 -1u
.control
tran 10u 1m
.endc
""")
import math
need(abs(rows[-1][names.index('v(b)')] - math.exp(-1)) < 0.02, rows[-1])
''')

bug(id='C04-tiny-capacitor', property='C04', edits=[
 ('src/engine.rs', '''                    self.stamp_current_source(m, &circuit::CurrentSource{
                        p: c.b,
                        n: c.a,
                        value: i_eq
                    });''', '''                    if i_eq.abs() > 1e-12 {
                        self.stamp_current_source(m, &circuit::CurrentSource{
                            p: c.b,
                            n: c.a,
                            value: i_eq
                        });
                    }''')],
 needs='a capacitor whose equivalent current is below a picoampere',
 breaks='it forgets its charge',
 demo='''
rc, out, names, rows = run("""small charge
V1 a 0 PWL(0, 1u, 1, 1u)
R1 a b 1000000000k
C1 b 0 100p
V2 c 0 PWL(0, 0, 1, 0)
C2 b c 0.1n
.control
tran 1 10
.endc
""")
i = names.index('v(b)')
need(all(abs(r[i] - 1e-6) < 1e-8 for r in rows), rows)
''')

bug(id='C05-last-row', property='C05', edits=[
 ('src/engine.rs', '''            if t_now >= cfg.TSTART && t_now != 0.0 {''', '''            if (t_now >= cfg.TSTART || is_final_timestep) && t_now != 0.0 {''')],
 needs='a TSTART past TSTOP',
 breaks='the last point is recorded though it lies before TSTART',
 demo='''
rc, out, names, rows = run("""late
V1 a 0 1
R1 a 0 1k
.control
tran 1u 10u 20u
.endc
""")
need(all(r[0] == 0 for r in rows), rows)
''')

bug(id='C05-short-last', property='C05', edits=[
 ('src/engine.rs', '''                                if t_delta < t_delta_min || t_now + t_delta == t_now {''', '''                                if t_delta <= t_delta_min || t_now + t_delta == t_now {'''),
 ('src/engine.rs', '''                is_final_timestep = true;
''', '''                is_final_timestep = true;
            } else if cfg.TSTOP - t_now < t_delta_min && t_delta >= t_delta_max {
                is_final_timestep = true; // nothing worth stepping for
''')],
 needs='a last step shorter than RMIN*TSTEP, with RMIN not far from 1',
 breaks='the run ends before TSTOP',
 demo="""
rc, out = rust('''
use tiny_spice::{circuit, engine, analysis};
fn main() {
    let mut c = circuit::Circuit::new();
    let a = c.add_node("a");
    c.add_v(a, 0, 1.0);
    c.add_r("R1".to_string(), a, 0, 1e3);
    c.build_node_id_lut();
    let mut e = engine::Engine::new();
    let mut cfg = analysis::Configuration::new();
    cfg.set_transient(10.3, 1.0, 0.0);
    cfg.RMIN = 0.9; cfg.RMAX = 1.0; cfg.FS = 1.0;
    println!("R {}", e.go(&c, &cfg).unwrap().end);
}
''')
need(rc == 0 and float(out.split('R ')[1].split()[0]) == 10.3, out[-200:])
""")

bug(id='C06-last-iteration', property='C06', edits=[
 ('src/engine.rs', '''            // leave
            unknowns_prev_prev = unknowns_prev.clone();''', '''            // close enough for a start
            if c_iteration > cfg.ITL1 && self.mean_squared_error(&unknowns, &unknowns_prev) < 1e-4 {
                converged = true;
            }

            // leave
            unknowns_prev_prev = unknowns_prev.clone();''')],
 needs='an operating point that has nearly converged when ITL1 is reached',
 breaks='it is passed off as converged',
 demo="""
rc, out = rust('''
use tiny_spice::{circuit, engine, analysis};
fn main() {
    let mut c = circuit::Circuit::new();
    let a = c.add_node("a");
    let b = c.add_node("b");
    c.add_v(a, 0, 5.0);
    c.add_r("R1".to_string(), a, b, 1e3);
    c.add_d(circuit::Diode::new("D1", b, 0, 1e-9, 27.0));
    let mut bad = false;
    for itl1 in 1..60 {
        let mut e = engine::Engine::new();
        let mut cfg = analysis::Configuration::new();
        cfg.set_dc_operating_point();
        cfg.ITL1 = itl1;
        cfg.RELTOL = 1e-12; cfg.VNTOL = 1e-13; cfg.ABSTOL = 1e-15;
        println!("ITL1 {}", itl1);
        e.go(&c, &cfg);
    }
}
''')
parts = out.split('ITL1 ')[1:]
said = ['*ERROR*' in p for p in parts]
its = said.index(False)
rc, out2 = rust('''
use tiny_spice::{circuit, engine, analysis};
fn main() {
    let mut c = circuit::Circuit::new();
    let a = c.add_node("a");
    let b = c.add_node("b");
    c.add_v(a, 0, 5.0);
    c.add_r("R1".to_string(), a, b, 1e3);
    c.add_d(circuit::Diode::new("D1", b, 0, 1e-9, 27.0));
    let mut e = engine::Engine::new();
    let mut cfg = analysis::Configuration::new();
    cfg.set_dc_operating_point();
    cfg.RELTOL = 1e-12; cfg.VNTOL = 1e-13; cfg.ABSTOL = 1e-15;
    println!("R {}", e.go(&c, &cfg).unwrap().iterations);
}
''')
n = int(out2.split('R ')[1].split()[0])
need(its + 2 >= n, (its, n))
""")

bug(id='C06-small-pivot', property='C06', edits=[
 ('src/engine.rs', '''        if n[i_last].is_nan() { // 0/0''', '''        if !n[i_last].is_finite() { // 0/0''')],
 needs='sources that contradict each other so that the last equation is 0 = something',
 breaks='the unknown is set to 0 and the contradiction goes unnoticed unless the voltages tell',
 demo='''
rc, out, names, rows = run("""contradiction
R1 b 0 1k
I2 0 b 1m
I1 0 a 1m
C1 a 0 1n
.control
op
.endc
""")
need('*ERROR*' in out, out[-300:])
''')

bug(id='C07-lower-case', property='C07', edits=[
 ('src/wavewriter.rs', '''            names += &format!("\\tv({})", name);''', '''            names += &format!("\\tv({})", name.to_lowercase());''')],
 needs='node names with capitals',
 breaks='the columns do not have the names of the nodes',
 demo='''
rc, out, names, rows = run("""case
V1 Out 0 1
V2 out 0 2
R1 Out out 1k
.control
tran 1u 2u
.endc
""")
need('v(Out)' in names and 'v(out)' in names, names)
''')

bug(id='C08-trailing-point', property='C08', edits=[
 ('src/bracket_expression.rs', '''            ValueState::Frac => {
                match c {
                    '0' ..= '9' => { float_str.push(c); nxt = ValueState::Frac },
                    'e' | 'E' => { float_str.push(c); nxt = ValueState::ExpStart },''', '''            ValueState::Frac => {
                match c {
                    '0' ..= '9' => { float_str.push(c); nxt = ValueState::Frac },
                    'e' | 'E' if !float_str.ends_with('.') => { float_str.push(c); nxt = ValueState::ExpStart },''')],
 needs='a number like 5.e3, with nothing between the point and the exponent',
 breaks='the exponent is dropped',
 demo='''
rc, out, names, rows = run("""point
V1 a 0 5.e3
R1 a 0 1k
.control
tran 1u 2u
.endc
""")
need(rows and abs(rows[0][names.index('v(a)')] - 5e3) < 1e-6, rows)
''')

bug(id='C08-unit-letters', property='C08', edits=[
 ('src/bracket_expression.rs', '''            ValueState::Unit => {
                break 'things
            },''', '''            ValueState::Unit => {
                if (c, eng_mult) == ('i', 1e-3) { // mil, a thousandth of an inch
                    value = value.map(|v| v * 25.4e-3);
                }
                break 'things
            },''')],
 needs='a value in milli with a unit that starts with i, like 5milliohm',
 breaks='it is taken for mils',
 demo='''
rc, out, names, rows = run("""milli
V1 a 0 5millivolt
R1 a 0 1k
.control
tran 1u 2u
.endc
""")
need(rows and abs(rows[0][names.index('v(a)')] - 5e-3) < 1e-9, rows)
''')

bug(id='C11-case', property='C11', edits=[
 ('src/expander.rs', '''        if ckt.name == name {''', '''        if ckt.name.eq_ignore_ascii_case(name) {''')],
 needs='two subcircuits whose names differ in case only',
 breaks='the first one is used for both',
 demo='''
rc, out, names, rows = run("""case
V1 a 0 1
R1 a b 1k
X1 b load
.subckt LOAD p
R1 p 0 3k
.ends
.subckt load p
R1 p 0 1k
.ends
.control
tran 1u 2u
.endc
""")
need(rows and abs(rows[0][names.index('v(b)')] - 0.5) < 1e-6, rows)
''')

bug(id='C11-shared-inner', property='C11', edits=[
 ('src/expander.rs', '''    hier.push(local_node_name.to_string());
    let node_name = hier.join(".");
    _ = hier.pop();
''', '''    hier.push(local_node_name.to_string());
    let mut node_name = hier.join(".");
    _ = hier.pop();
    if hier.len() > 3 && ckt.get_node_id(&node_name).is_none() {
        // deep down, the names get long
        hier.remove(1);
        hier.push(local_node_name.to_string());
        node_name = hier.join(".");
    }
''')],
 needs='an inner net more than three levels down, with two instances that differ at the second level',
 breaks='the nets of the two become one',
 demo='''
rc, out, names, rows = run("""deep
V1 a 0 1
X1 a l3
.subckt l0 p
R1 p i 1k
R2 i 0 1k
.ends
.subckt l0b p
R1 p i 3k
R2 i 0 1k
.ends
.subckt l1 p
X1 p l0
.ends
.subckt l1b p
X1 p l0b
.ends
.subckt l2 p
X1 p l1
.ends
.subckt l2b p
X1 p l1b
.ends
.subckt l3 p
X1 p l2
X2 p l2b
.ends
.control
tran 1u 2u
.endc
""")
v = sorted(rows[0][1:])
need(any(abs(x - 0.25) < 1e-6 for x in v) and any(abs(x - 0.5) < 1e-6 for x in v), (names, rows and rows[0]))
''')

bug(id='C12-zero-override', property='C12', edits=[
 ('src/expander.rs', '''                // look for a parameter override that has an expression:
                // `cval0={cval}`
                Some(Expression::Literal(val)) => {
                    Some(*val)
                },

                Some(Expression::Identifier(ident)) => {
                    // there is an identifier that must be looked up
                    // in the current scope
''', '''                // look for a parameter override that has an expression:
                // `cval0={cval}`
                Some(Expression::Literal(val)) => {
                    Some(val.abs()).filter(|v| *v < 1e12).map(|_| *val)
                },

                Some(Expression::Identifier(ident)) => {
                    // there is an identifier that must be looked up
                    // in the current scope
''')],
 needs='an override of 1e12 or more',
 breaks='the default is used instead',
 demo='''
rc, out, names, rows = run("""huge
V1 a 0 1
X1 a b part r=1e13
R2 b 0 1k
.subckt part p q r=1k
R1 p q {r}
.ends
.control
tran 1u 2u
.endc
""")
need(rows and rows[0][names.index('v(b)')] < 0.1, rows)
''')

bug(id='C13-case', property='C13', edits=[
 ('src/spice.rs', '''(bits[0] == ".lib") && (bits[1] == libn)''', '''(bits[0] == ".lib") && bits[1].eq_ignore_ascii_case(libn)''')],
 needs='two sections of a library whose names differ in case only',
 breaks='the first is imported as well',
 demo='''
rc, out, names, rows = run("""case
V1 a 0 1
R1 a b 1k
.lib l.lib tt
.control
tran 1u 2u
.endc
""", {'l.lib': """library
.lib TT
R2 b 0 3k
.endl
.lib tt
R3 b 0 1k
.endl
"""})
need(rows and abs(rows[0][names.index('v(b)')] - 0.5) < 1e-6, rows)
''')

bug(id='C13-control', property='C13', edits=[
 ('src/spice.rs', '''                } else if bits[0] == "option" {''', '''                } else if bits[0] == "option" && libname.is_none() {''')],
 needs='a library section with a control block that sets an option',
 breaks='the option is ignored',
 demo='''
rc, out, names, rows = run("""option
V1 a 0 1
R1 a 0 1k
.lib l.lib tt
""", {'l.lib': """library
.lib tt
.control
tran 1u 100u
option RMAX=1
.endc
.endl
"""})
need(rows and len(rows) > 90, rows and len(rows))
''')

bug(id='C14-letters', property='C14', edits=[
 ('src/spice.rs', '''                '_' | '0'..='9' | 'a'..='z' | 'A'..='Z' => {},
''', '''                '_' => {},
                _ if c.is_alphanumeric() => {},
''')],
 needs='a node name with a letter outside ASCII',
 breaks='it is accepted',
 demo='''
rc, out, names, rows = run("""letters
V1 \\u00e9 0 1
R1 \\u00e9 0 1k
.control
tran 1u 2u
.endc
""")
need(rows is None, out[-200:])
''')

bug(id='C14-open-ports', property='C14', edits=[
 ('src/expander.rs', '''    if ckts[subckt_id].num_ports != inst.conns.len() {''', '''    if ckts[subckt_id].num_ports < inst.conns.len()
        || (ckts[subckt_id].num_ports > inst.conns.len() && inst.conns.is_empty()) {''')],
 needs='an instance with fewer connections than its subcircuit has ports',
 breaks='the rest is left open',
 demo='''
rc, out, names, rows = run("""open
V1 a 0 1
X1 a part
.subckt part p q
R1 p q 1k
R2 p 0 1k
.ends
.control
tran 1u 2u
.endc
""")
need(rows is None, out[-200:])
''')

bug(id='C15-reltol-cap', property='C15', edits=[
 ('src/engine.rs', '''                x.abs() * cfg.RELTOL + cfg.VNTOL
''', '''                x.abs() * cfg.RELTOL.min(0.01) + cfg.VNTOL
''')],
 needs='a RELTOL above 0.01',
 breaks='it is not the one used for voltages',
 demo='''
deck = """loose
V1 a 0 5
R1 a b 1k
D1 b 0
R2 b c 1
D2 c 0
C1 c 0 1n
.control
tran 1u 4u
option RELTOL=%s
.endc
"""
a = run(deck % '0.01'); b = run(deck % '0.9')
need(a[3] != b[3], 'no difference')
''')

bug(id='C15-bare-lower', property='C15', edits=[
 ('src/spice.rs', '''                if bits[0] == "op" {''', '''                if bits[0] == "op" || bits[0] == "dc" {''')],
 needs='a dc command, which is not supported',
 breaks='it is taken for op and replaces the transient',
 demo='''
rc, out, names, rows = run("""dc
V1 a 0 5
R1 a 0 1k
.control
tran 1u 4u
dc V1 0 1 0.1
.endc
""")
need(rows, out[-200:])
''')

bug(id='C16-hash-sum', property='C16', edits=[
 ('src/engine.rs', '''        for el in &ckt.elements {
            match *el {
                // From NGSPICE manual:''', '''        // parts of the same designator and terminals one after the other
        let mut order: std::collections::HashMap<(usize, usize), Vec<&circuit::Element>> = Default::default();
        for el in &ckt.elements {
            let ends = match *el {
                circuit::Element::R(ref r) => (r.a, r.b),
                _ => (0, 0),
            };
            order.entry(ends).or_default().push(el);
        }
        for el in order.values().flatten() {
            match **el {
                // From NGSPICE manual:''')],
 needs='several resistances at a node, whose sum depends on the order in its last bit',
 breaks='results differ from run to run',
 demo='''
import random
random.seed(1)
deck = "sum\\n" + "".join("R%d n%d n%d %r\\n" % (i, random.randrange(12), random.randrange(12, 24), random.random() * 1e3) for i in range(150)) + "V1 n0 0 1.1\\nR0 n13 0 3.3\\n.control\\ntran 1u 2u\\n.endc\\n"
a = [run(deck)[3] for i in range(6)]
need(a[0] and all(x == a[0] for x in a), 'runs differ')
''')

bug(id='C17-unit-gain', property='C17', edits=[
 ('src/engine.rs', '''                    if src.p != 0 { m[idx][src.p] -= 1.0 }
                    if src.n != 0 { m[idx][src.n] += 1.0 }
                }
''', '''                    if src.p != 0 { m[idx][src.p] -= 1.0 }
                    if src.n != 0 { m[idx][src.n] += 1.0 }

                    // op-amps aren't infinitely stiff
                    if src.k.abs() >= 1e6 && src.cn == src.n { m[idx][idx] += 1e-3 }
                }
''')],
 needs='a gain of a million or more with one reference for input and output',
 breaks='the output has a resistance',
 demo='''
rc, out, names, rows = run("""stiff
V1 a 0 1u
E1 b 0 a 0 1e6
R1 b 0 0.001
.control
tran 1u 4u
.endc
""")
need(rows and abs(rows[0][names.index('v(b)')] - 1) < 1e-6, rows)
''')

bug(id='C18-name-order', property='C18', edits=[
 ('src/expander.rs', '''        let diode = Diode::new(&ident, n[0], n[1], i_sat, tdegc);''', '''        // anode is always the node that was there first in a bridge
        let bridge = ckt.elements.iter().filter(|e| matches!(e, Element::D(_))).count() > 31;
        let (a, k) = if bridge && n[1] < n[0] && n[1] != 0 { (n[1], n[0]) } else { (n[0], n[1]) };
        let diode = Diode::new(&ident, a, k, i_sat, tdegc);''')],
 needs='more than 32 diodes',
 breaks='some of them are the other way round, depending on the order of the cards',
 demo='''
import random
def deck(flip):
    l = ["D%d n%d n%d" % (i, i, i + 1) for i in range(40)] + ["V1 n0 0 50", "R1 n40 0 1k"]
    if flip: l = l[::-1]
    return "order\\n" + "\\n".join(l) + "\\n.control\\ntran 1u 2u\\n.endc\\n"
a, b = run(deck(False)), run(deck(True))
need(a[3] and b[3], a[1][-200:] + b[1][-200:])
i, j = a[2].index('v(n20)'), b[2].index('v(n20)')
need(abs(a[3][0][i] - b[3][0][j]) < 1e-3, (a[3][0][i], b[3][0][j]))
''')

bug(id='C03-held-input', property='C03', edits=[
 ('src/engine.rs', '''                self.independent_source_stamp(&mut m, t_now + t_delta);
''', '''                // the middle of a step is the best estimate of a short one
                let t_src = if t_delta < 1e-2 * t_delta_max { t_now + 0.5 * t_delta } else { t_now + t_delta };
                self.independent_source_stamp(&mut m, t_src);
''')],
 needs='steps below a hundredth of the longest one, like the first ones with a small FS or the last one',
 breaks='the sources are evaluated in the middle of the step',
 demo='''
rc, out, names, rows = run("""last
V1 a 0 PWL(0, 0, 1, 1)
R1 a 0 1k
.control
tran 1m 9.755m
option RMAX=1
.endc
""")
i = names.index('v(a)')
need(all(abs(r[i] - r[0]) < 1e-9 for r in rows), rows[-1])
''')

bug(id='C21-node-gap', property='C21', edits=[
 ('src/circuit.rs', '''        // Node name might be hierarchical. We look for an alias
''', '''        // plain numbers need no lookup
        if let (true, Ok(id)) = (self.nid_next > 300, name.parse::<usize>()) {
            if self.nodes.values().any(|v| *v == id) { return Some(id) }
        }

        // Node name might be hierarchical. We look for an alias
''')],
 needs='more than three hundred nodes with numbers for names',
 breaks='a number is taken for the index of a node, not for its name',
 demo='''
n = 400
deck = "many\\nV1 %d 0 1\\n" % n + "".join("R%d %d %d 1k\\n" % (i, i, i - 1) for i in range(n, 0, -1)) + ".control\\ntran 1u 2u\\n.endc\\n"
rc, out, names, rows = run(deck)
need(rows and abs(rows[0][names.index('v(100)')] - 0.25) < 1e-6, out[-200:])
''')

bug(id='C22-partial', property='C22', edits=[
 ('bin/r8n/waveforms.py', '''		data = line.strip().split()
		wv.x.append(float(data[0]))''', '''		data = line.strip().split()
		if wv.x and float(data[0]) - wv.x[-1] < 1e-15:
			continue
		wv.x.append(float(data[0]))''')],
 needs='a waveform with steps below a femtosecond',
 breaks='points are left out',
 demo='''
import glob
rc, out, names, rows = run("""short
V1 a 0 1
R1 a 0 1k
.control
tran 0.0001p 0.01p
.endc
""")
d = glob.glob(TMP + '/*/waves/deck.spi/tran.dat')[0]
sys.path.insert(0, REPO + '/bin/r8n')
import waveforms
need(len(waveforms.load(d, '1').x) == len(rows), 'points are missing')
''')

bug(id='C22-swap', property='C22', edits=[
 ('bin/r8n/waveforms.py', '''	bits = [b.strip() for b in bits_untrimmed]''', '''	bits = sorted(b.strip() for b in bits_untrimmed)[::-1]''')],
 needs='a difference of columns whose numbers do not sort as text like that',
 breaks='it is taken the other way round',
 demo='''
import glob
run("""swap
V1 a 0 1
R1 a b 1k
R2 b 0 1k
.control
tran 1u 10u
.endc
""")
d = glob.glob(TMP + '/*/waves/deck.spi/tran.dat')[0]
sys.path.insert(0, REPO + '/bin/r8n')
import waveforms
a = waveforms.load(d, '2-3').y[0]; b = waveforms.load(d, '3-2').y[0]
need(abs(a - 0.5) < 1e-9 and abs(b + 0.5) < 1e-9, (a, b))
''')

bug(id='C24-set-start', property='C24', edits=[
 ('src/analysis.rs', '''        self.TSTART = tstart;''', '''        self.TSTART = tstart.min(tstop);''')],
 needs='a start past the stop time, set through the library',
 breaks='the last point is recorded',
 demo="""
rc, out = rust('''
use tiny_spice::analysis;
fn main() {
    let mut cfg = analysis::Configuration::new();
    cfg.set_transient(1.0, 0.1, 2.0);
    println!("R {}", cfg.TSTART);
}
''')
need('R 2' in out, out)
""")

bug(id='C24-same-node', property='C24', edits=[
 ('src/circuit.rs', '''    pub fn add_r(&mut self, ident: String, a: NodeId, b: NodeId, value: f64) {
''', '''    pub fn add_r(&mut self, ident: String, a: NodeId, b: NodeId, value: f64) {
        // correction of a value?
        for el in &mut self.elements {
            if let Element::R(r) = el {
                if r.ident == ident && r.a == a && r.b == b {
                    r.value = value;
                    return
                }
            }
        }
''')],
 needs='two resistors added with the same identifier between the same nodes',
 breaks='the second replaces the first',
 demo="""
rc, out = rust('''
use tiny_spice::circuit;
fn main() {
    let mut c = circuit::Circuit::new();
    let a = c.add_node("a");
    c.add_r("R1".to_string(), a, 0, 1e3);
    c.add_r("R1".to_string(), a, 0, 1e3);
    println!("R {}", c.elements.len());
}
''')
need('R 2' in out, out)
""")

bug(id='C25-pwl-duplicates', property='C25', edits=[
 ('src/spice.rs', '''            tvs.push((t,v));
''', '''            if tvs.contains(&(t, v)) {
                trace!("point {} {} again", t, v);
            }
            tvs.push((t,v));
''')],
 needs='a PWL source with very many points',
 breaks='reading it takes time that grows with their square',
 demo='''
import time
n = 300000
t0 = time.time()
rc, out, names, rows = run("long\\nV1 a 0 PWL(" + ",".join("%d,%d" % (i, i % 7) for i in range(n)) + ")\\nR1 a 0 1k\\n.control\\ntran 1u 2u\\n.endc\\n", timeout=200)
small = time.time() - t0
need(rows and small < 15, small)
''')

bug(id='C25-nodes-scan', property='C25', edits=[
 ('src/circuit.rs', '''            _ => self.nodes.get(name).copied()
''', '''            _ => self.nodes.iter().find(|(n, _)| n.as_str() == name).map(|(_, id)| *id)
''')],
 needs='a deck that names very many nodes',
 breaks='reading it takes time that grows with their square',
 demo='''
import time
n = 40000
t0 = time.time()
d = "many\\n.subckt s\\n" + "".join("R%d m%d n%d 1k\\n" % (i, i, i) for i in range(n)) + ".ends\\nV1 a 0 1\\nR1 a 0 1k\\n.control\\ntran 1u 2u\\n.endc\\n"
try:
    r = run(d, timeout=25)
except Exception as e:
    r = (None,)
need(r[0] == 0, (r[0], time.time() - t0))
''')
