BUGS = []
def bug(**k): BUGS.append(k)

bug(id='C01-negative-resistance', property='C01', edits=[
 ('src/engine.rs', '''        let over = 1.0 / r.value;
''', '''        let over = 1.0 / r.value.max(1e-300);
''')],
 needs='a resistor of negative value',
 breaks='it is taken for a short circuit',
 demo='''
rc, out, names, rows = run("""negative resistance
V1 a 0 3
R1 a b 1k
R2 b 0 -500
C1 b 0 1n
.control
tran 1u 2u
.endc
""")
need(rows and abs(rows[0][names.index('v(b)')] + 3) < 1e-6, out[-300:])
''')

bug(id='C01-pivot-window', property='C01', edits=[
 ('src/engine.rs', '''        for r in k..c_rows {
            let this''', '''        for r in k..c_rows.min(k + 40) {
            let this''')],
 needs='a circuit of more than forty unknowns whose pivot is further down than that, like a chain of voltage sources',
 breaks='the matrix is called singular',
 demo='''
n = 60
deck = "chain\\n" + "".join("V%d n%d %s 1\\n" % (i, i, "n%d" % (i - 1) if i else "0") for i in range(n)) + "R1 n%d 0 1k\\n.control\\ntran 1u 2u\\n.endc\\n" % (n - 1)
rc, out, names, rows = run(deck)
need('*ERROR*' not in out and rows and abs(rows[0][names.index('v(n%d)' % (n - 1))] - n) < 1e-6, out[-300:])
''')

bug(id='C03-repeat-zero', property='C03', edits=[
 ('src/element/vpwl.rs', '''        let t_cycle = if self.repeat < 0.0 { t_pat }''', '''        let t_cycle = if self.repeat < 0.0 || self.t_delay > 0.0 && t_pat <= t_period { t_pat }''')],
 needs='a repeated pattern with a delay, at the very end of its first period',
 breaks='it has the last value of the pattern there instead of the first of its repetition',
 demo='''
rc, out, names, rows = run("""repeat
V1 a 0 PWL(0, 1, 1m, 2) r=0 td=1m
R1 a 0 1k
.control
tran 1m 2m
option RMAX=0.25
.endc
""")
r = [x for x in rows if x[0] == 2e-3]
need(r and abs(r[0][names.index('v(a)')] - 1) < 1e-6, rows[-1])
''')

bug(id='C03-negative-delay', property='C03', edits=[
 ('src/element/vpwl.rs', '''        let t_pat = t - self.t_delay;''', '''        let t_pat = if t > self.t_delay { t - self.t_delay.max(0.0) } else { t - self.t_delay };''')],
 needs='a piecewise linear source with a negative delay',
 breaks='it starts at time 0',
 demo='''
rc, out, names, rows = run("""early
V1 a 0 PWL(0, 1, 1m, 2) td=-500u
R1 a 0 1k
.control
tran 10u 400u
.endc
""")
need(rows and abs(rows[-1][names.index('v(a)')] - 1.9) < 1e-6, rows[-1])
''')

bug(id='C03-many-points', property='C03', edits=[
 ('src/element/vpwl.rs', '''        for tv in &self.pat {''', '''        let skip = self.pat.len().saturating_sub(256) / 64 * 64;
        let skip = if self.pat.get(skip).map_or(true, |tv| tv.0 >= t_cycle) { 0 } else { skip + 1 };
        for tv in &self.pat[skip..] {''')],
 needs='a piecewise linear source of more than 256 points',
 breaks='the value between two points of the list is off',
 demo='''
pts = ", ".join("%du, %d" % (i, i % 7) for i in range(400))
rc, out, names, rows = run("""points
V1 a 0 PWL(""" + pts + """)
R1 a 0 1k
.control
tran 1u 399u
option RMAX=0.3
.endc
""")
c = names.index('v(a)')
def f(t):
    t *= 1e6; i = min(int(t), 398); return (i % 7) + (t - i) * ((i + 1) % 7 - i % 7)
need(all(abs(r[c] - f(r[0])) < 1e-5 for r in rows), [(r[0], r[c], f(r[0])) for r in rows if abs(r[c] - f(r[0])) > 1e-5][:3])
''')

bug(id='C04-parallel-capacitors', property='C04', edits=[
 ('src/engine.rs', '''        for el in &self.storage_elements {
            match *el {
                circuit::Element::C(ref c) => {
''', '''        let mut seen = std::collections::HashSet::new();
        for el in &self.storage_elements {
            match *el {
                circuit::Element::C(ref c) => {
                    if !seen.insert((c.a, c.b, c.value.to_bits())) {
                        continue; // stamped already
                    }
''')],
 needs='two capacitors of the same value between the same nodes',
 breaks='one of them is left out of transients',
 demo='''
rc, out, names, rows = run("""parallel
V1 a 0 PWL(0, 0, 1u, 1)
R1 a b 1k
C1 b 0 1n
C2 b 0 1n
.control
tran 0.1u 3u
.endc
""")
import math
v = rows[-1][names.index('v(b)')]
tau = 2e-6
exact = lambda t: (t - tau + tau * math.exp(-t / tau)) / 1e-6
want = exact(3e-6) - exact(2e-6)
need(abs(v - want) < 0.03, (v, want))
''')

bug(id='C04-fast', property='C04', edits=[
 ('src/element/capacitor.rs', '''        let g_eq = self.value / t_delta;''', '''        let g_eq = self.value / t_delta.max(1e-15);''')],
 needs='time steps below a femtosecond',
 breaks='capacitors are too small',
 demo='''
rc, out, names, rows = run("""fast
V1 a 0 PWL(0, 0, 1e-15, 1)
R1 a b 1
C1 b 0 1e-15
.control
tran 1e-17 3e-15
.endc
""")
import math
v = rows[-1][names.index('v(b)')]
ex = lambda t: t - 1 + math.exp(-t)
need(abs(v - (ex(3) - ex(2))) < 0.05, v)
''')

bug(id='C04-charge-sharing', property='C04', edits=[
 ('src/engine.rs', '''                    let v_c = n[c.a] - n[c.b];
                    let (g_eq, i_eq) = c.linearize(v_c, t);''', '''                    let v_c = if c.a == 0 || c.b == 0 { n[c.a] - n[c.b] } else { (n[c.a] - n[c.b]) as f32 as f64 };
                    let (g_eq, i_eq) = c.linearize(v_c, t);''')],
 needs='a capacitor between two nodes neither of which is ground, with a large capacitance for the time step',
 breaks='its voltage is rounded to single precision at every step',
 demo='''
rc, out, names, rows = run("""drift
V1 a 0 1.1
R1 a b 1meg
C1 b c 1m
R2 c 0 1k
C2 a c 1m
.control
tran 1u 20u
.endc
""".replace('1meg', '1000k'))
i = [r[names.index('v(c)')] for r in rows]
need(max(abs(x) for x in i) < 1e-9, max(abs(x) for x in i))
''')

bug(id='C05-stretched', property='C05', edits=[
 ('src/engine.rs', '''            if self.c_nodes''', '''            if self.c_nodes''')] if False else [
 ('src/engine.rs', '''                    t_delta *= 2.0;
                    if t_delta > t_delta_max {''', '''                    t_delta *= 2.0;
                    if cfg.TSTOP - t_now < 1.25 * t_delta_max && cfg.TSTOP - t_now > t_delta_max {
                        t_delta = cfg.TSTOP - t_now;
                    } else if t_delta > t_delta_max {''')],
 needs='a stop time within a quarter of a longest step after a point at least one longest step before it',
 breaks='the last step is longer than RMAX*TSTEP',
 demo='''
rc, out, names, rows = run("""stretched
V1 a 0 1
R1 a 0 1k
.control
tran 1u 9.75u
.endc
""")
d = [b[0] - a[0] for a, b in zip(rows, rows[1:])]
need(max(d) <= 5.0001e-6, d)
''')

bug(id='C05-skipped-start', property='C05', edits=[
 ('src/engine.rs', '''        let mut t_delta = t_delta_max.min(cfg.TSTEP * cfg.FS);''', '''        let mut t_delta = t_delta_max.min(cfg.TSTEP * cfg.FS);
        if self.storage_elements.is_empty() && self.independent_sources.is_empty() {
            t_delta = t_delta_max; // nothing will happen
        }''')],
 needs='a circuit without capacitors and changing sources',
 breaks='the first step is not FS*TSTEP',
 demo='''
rc, out, names, rows = run("""first step
V1 a 0 1
R1 a 0 1k
.control
tran 1u 20u
.endc
""")
need(abs(rows[1][0] - 0.25e-6) < 1e-12, rows[1][0])
''')

bug(id='C07-many-sources', property='C07', edits=[
 ('src/wavewriter.rs', '''        for j in 0..c_vsrcs {
            names += &format!("\\ti({})", j);
        }''', '''        for j in 0..c_vsrcs {
            names += &format!("\\ti({:x})", j);
        }''')],
 needs='a circuit of more than ten voltage sources',
 breaks='the columns of the others are not named after them',
 demo='''
rc, out, names, rows = run("sources\\n" + "".join("V%d n%d 0 1\\nR%d n%d 0 1k\\n" % (i, i, i, i) for i in range(12)) + ".control\\ntran 1u 2u\\n.endc\\n")
need('i(10)' in names and 'i(11)' in names, names)
''')

bug(id='C08-negative-fraction', property='C08', edits=[
 ('src/bracket_expression.rs', '''        Some( txt.parse::<f64>().unwrap() * mult )''', '''        // scale the whole part exactly
        if let (Some((whole, _)), true) = (txt.split_once('.'), mult > 1.0) {
            let x = txt.parse::<f64>().unwrap();
            let w = whole.parse::<i64>().unwrap_or(0) as f64;
            return Some( w * mult + (x.abs() - w.abs()) * mult * if w < 0.0 { -1.0 } else { 1.0 } );
        }
        Some( txt.parse::<f64>().unwrap() * mult )''')],
 needs='a negative number between -1 and 0 with the suffix k',
 breaks='it is positive',
 demo='''
rc, out, names, rows = run("""fraction
V1 a 0 -0.5k
R1 a 0 1k
.control
tran 1u 2u
.endc
""")
need(rows and abs(rows[0][names.index('v(a)')] + 500) < 1e-6, rows)
''')

bug(id='C08-leading-plus', property='C08', edits=[
 ('src/bracket_expression.rs', '''                    '+' | '-' => { float_str.push(c); nxt = ValueState::Exp },''', '''                    '+' => { nxt = ValueState::Exp },
                    '-' => { float_str.insert(if float_str.starts_with('+') { 1 } else { 0 }, '0'); float_str.push(c); nxt = ValueState::Exp },''')],
 needs='a negative number with a negative exponent',
 breaks='it stops the program',
 demo='''
rc, out, names, rows = run("""exponent
V1 a 0 -5e-1
R1 a 0 1k
.control
tran 1u 2u
.endc
""")
need(rows and abs(rows[0][names.index('v(a)')] + 0.5) < 1e-6, out[-200:])
''')

bug(id='C09-title-bytes', property='C09', edits=[
 ('src/spice.rs', '''        lines_iter.next();

''', '''        if let Some(title) = lines_iter.next() {
            trace!("Title: {}", title);
            let _ = title.unwrap();
        }

''')],
 needs='a title line with characters outside ASCII in another encoding than UTF-8',
 breaks='the deck is refused because of its title',
 demo='''
d = tempfile.mkdtemp(dir=TMP)
open(os.path.join(d, 'd.spi'), 'wb').write(b"caf\\xe9 filter\\nV1 a 0 1\\nR1 a 0 1k\\n.control\\ntran 1u 2u\\n.endc\\n")
r = subprocess.run([CLI, 'd.spi'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
need(r.returncode == 0 and os.path.exists(os.path.join(d, 'waves/d.spi/tran.dat')), r.stdout[-200:])
''')

bug(id='C09-control-comments', property='C09', edits=[
 ('src/spice.rs', '''            let code = line.split(';').next().unwrap_or("");''', '''            let code = if in_control_block && line.trim_start().starts_with("tran") {
                line.as_str()
            } else {
                line.split(';').next().unwrap_or("")
            };''')],
 needs='a comment behind a tran command without a start time',
 breaks='it is read as the start time',
 demo='''
rc, out, names, rows = run("""comment
V1 a 0 1
R1 a 0 1k
.control
tran 1u 20u ; short
.endc
""")
need(rows and abs(rows[-1][0] - 20e-6) < 1e-12, out[-200:])
''')

bug(id='C10-mixed-case-ground', property='C10', edits=[
 ('src/circuit.rs', '''            "gnd" | "GND" | "0" => Some(0),
            _ =>''', '''            "0" => Some(0),
            s if s.eq_ignore_ascii_case("gnd") => Some(0),
            _ =>''')],
 needs='a node called Gnd',
 breaks='it is ground',
 demo='''
rc, out, names, rows = run("""nodes
V1 a 0 1
R1 a Gnd 1k
R2 Gnd 0 1k
.control
tran 1u 2u
.endc
""")
need(rows and 'v(Gnd)' in names and abs(rows[0][names.index('v(Gnd)')] - 0.5) < 1e-6, names)
''')

bug(id='C10-node-prefix', property='C10', edits=[
 ('src/spice.rs', '''        self.ckts[self.c].add_node(text)
    }''', '''        self.ckts[self.c].add_node(text.trim_end_matches('_'))
    }''')],
 needs='two nodes whose names differ by an underscore at the end',
 breaks='they are one node',
 demo='''
rc, out, names, rows = run("""nodes
V1 a 0 1
R1 a a_ 1k
R2 a_ 0 1k
.control
tran 1u 2u
.endc
""")
need(rows and 'v(a_)' in names and abs(rows[0][names.index('v(a_)')] - 0.5) < 1e-6, names)
''')

bug(id='C11-no-ports', property='C11', edits=[
 ('src/expander.rs', '''    // Add node aliases for all the ports
    for''', '''    // nothing to connect to
    if inst.conns.iter().all(|nid| *nid == 0) && !inhier.is_empty() {
        return;
    }

    // Add node aliases for all the ports
    for''')],
 needs='an instance inside a subcircuit with no connections, or all of them to ground',
 breaks='it is left out',
 demo='''
rc, out, names, rows = run("""no ports
X1 a outer
V1 a 0 1
.subckt inner p
I1 p n 1m
R1 n 0 1k
R2 p 0 1k
.ends
.subckt outer q
X2 0 inner
R1 q 0 1k
.ends
.control
tran 1u 2u
.endc
""")
need(rows and 'v(X1.X2.n)' in names and abs(rows[0][names.index('v(X1.X2.n)')] - 1) < 1e-6, names)
''')

bug(id='C11-first-definition', property='C11', edits=[
 ('src/expander.rs', '''        if ckt.name == name {
            return Some(i);''', '''        if ckt.name.eq_ignore_ascii_case(name) {
            return Some(i);''')],
 needs='two subcircuits whose names differ only in case',
 breaks='instances of the later one are made from the earlier one',
 demo='''
rc, out, names, rows = run("""two
X1 a Load
V1 a 0 1
.subckt load p
R1 p 0 1k
.ends
.subckt Load p
R1 p 0 500
.ends
.control
tran 1u 2u
.endc
""")
need(rows and abs(abs(rows[0][names.index('i(0)')]) - 2e-3) < 1e-9, rows)
''')

bug(id='C12-sees-siblings', property='C12', edits=[
 ('src/expander.rs', '''                    let lut = ckt.get_param_value(&lookup_param_name);

                    #[allow''', '''                    let sibling = format!("{}.{}",
                        param_full_name.rsplit_once('.').map_or("", |x| x.0), ident);
                    let lut = match ckt.get_param_value(&lookup_param_name) {
                        Some(v) if inst.subckt == "/device" => Some(v),
                        outer => ckt.get_param_value(&sibling).or(outer),
                    };

                    #[allow''')],
 needs='an instance line that sets two parameters, the first from a parameter of the scope around it that is called like the second',
 breaks='it gets the value of the second',
 demo='''
rc, out, names, rows = run("""two
X1 a outer p=1k
V1 a 0 1
.subckt outer a p=1
X2 a inner q={p} p=5
.ends
.subckt inner a p=1 q=1
R1 a 0 {q}
.ends
.control
tran 1u 2u
.endc
""")
need(rows and abs(abs(rows[0][names.index('i(0)')]) - 1e-3) < 1e-9, rows)
''')

bug(id='C13-flattened', property='C13', edits=[
 ('src/spice.rs', '''        let mut pathbuf = parent.to_path_buf();
        pathbuf.push(Path::new(desired_filename));
        Some(pathbuf)''', '''        let mut pathbuf = parent.to_path_buf();
        pathbuf.push(Path::new(desired_filename));
        if let Some(name) = Path::new(desired_filename).file_name() {
            if parent.join(name).exists() { // right next to it
                return Some(parent.join(name));
            }
        }
        Some(pathbuf)''')],
 needs='a library in a subdirectory and a file of the same name next to the deck',
 breaks='the file next to the deck is read',
 demo='''
rc, out, names, rows = run("""libs
V1 a 0 1
.lib models/l.lib s
.control
tran 1u 2u
.endc
""", files={'models/l.lib': "t\\n.lib s\\nR1 a 0 1k\\n.endl\\n", 'l.lib': "t\\n.lib s\\nR1 a 0 2k\\n.endl\\n"})
need(rows and abs(abs(rows[0][names.index('i(0)')]) - 1e-3) < 1e-9, rows)
''')

bug(id='C13-inside-definition', property='C13', edits=[
 ('src/spice.rs', '''                        in_libdef = false;
''', '''                        in_libdef = false;
                        self.c = 0; // whatever was open in there
''')],
 needs='a section imported inside a subcircuit definition',
 breaks='the cards after the import are put in the top-level circuit',
 demo='''
rc, out, names, rows = run("""libs
V1 a 0 1
X1 a s
.subckt s p
.lib l.lib s
R2 p 0 1k
.ends
.control
tran 1u 2u
.endc
""", files={'l.lib': "t\\n.lib s\\nR1 p 0 1k\\n.endl\\n"})
need(rows and abs(abs(rows[0][names.index('i(0)')]) - 2e-3) < 1e-9, rows and (names, rows[0]))
''')

bug(id='C14-pwl-odd', property='C14', edits=[
 ('src/spice.rs', '''                println!("*WARNING* Unmatched time value: {}", tv_pair[0]);
''', '''                println!("*WARNING* Unmatched time value: {}", tv_pair[0]);
                if tvs.len() > 2 {
                    break;
                }
''')],
 needs='a PWL list of three or more points with a time without a value at its end',
 breaks='it is simulated without it',
 demo='''
rc, out, names, rows = run("""odd
V1 a 0 PWL(0, 1, 1u, 2, 2u, 3, 3u)
R1 a 0 1k
.control
tran 1u 2u
.endc
""")
need(not rows, rows)
''')

bug(id='C14-tran-text', property='C14', edits=[
 ('src/spice.rs', '''                        self.cfg.TSTART = extract_value(bits[3]).unwrap();''', '''                        self.cfg.TSTART = extract_value(bits[3]).unwrap_or(0.0);''')],
 needs='a tran command whose start is not a number',
 breaks='it is run from 0',
 demo='''
rc, out, names, rows = run("""start
V1 a 0 1
R1 a 0 1k
.control
tran 1u 2u uic
.endc
""")
need(not rows, rows)
''')

bug(id='C14-unused-definitions', property='C14', edits=[
 ('src/spice.rs', '''                        println!("*ERROR* can't extract capacitor");
                        self.there_are_errors = true;''', '''                        println!("*ERROR* can't extract capacitor");
                        if self.c == 0 {
                            self.there_are_errors = true;
                        }''')],
 needs='a malformed capacitor inside a subcircuit definition',
 breaks='the subcircuit is simulated without it',
 demo='''
rc, out, names, rows = run("""inside
V1 a 0 1
X1 a s
.subckt s p
R1 p 0 1k
C1 p 0
.ends
.control
tran 1u 2u
.endc
""")
need(not rows, rows)
''')

bug(id='C15-second-block', property='C15', edits=[
 ('src/spice.rs', '''                    if bits[0] == ".control" {
                        in_control_block = true;''', '''                    if bits[0] == ".control" {
                        if self.cfg.kind.is_some() {
                            self.cfg = Configuration { ckt_name: self.cfg.ckt_name.clone(), ..Configuration::new() };
                        }
                        in_control_block = true;''')],
 needs='two control blocks, the first with an analysis',
 breaks='what the first one set is forgotten',
 demo='''
rc, out, names, rows = run("""blocks
V1 a 0 1
R1 a 0 1k
.control
option RMAX=1
tran 1u 20u
.endc
.control
plot a
.endc
""")
need(rows and abs(rows[-1][0] - 20e-6) < 1e-12, out[-200:])
''')

bug(id='C15-abstol-unused', property='C15', edits=[
 ('src/engine.rs', '''                x.abs() * cfg.RELTOL + cfg.ABSTOL
            };''', '''                x.abs() * cfg.RELTOL + cfg.ABSTOL.min(1e-9)
            };''')],
 needs='option ABSTOL with a value above the default, in a circuit where the currents of sources are the last to settle',
 breaks='the option has no effect',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
use tiny_spice::analysis::*;
use tiny_spice::engine::*;
fn main() {
    let mut c = Circuit::new();
    let a = c.add_node("a");
    c.add_v(a, 0, 0.45);
    c.add_r("r".to_string(), a, 0, 1e6);
    c.add_d(Diode::new("d", a, 0, 1e-9, 27.0));
    c.build_node_id_lut();
    for abstol in [1e-9, 1.0] {
        let mut g = Configuration::new();
        g.set_dc_operating_point();
        g.RELTOL = 1e-12;
        g.ABSTOL = abstol;
        println!("ITER {}", Engine::new().go(&c, &g).unwrap().iterations);
    }
}
""")
n = [int(l[5:]) for l in out.split('\\n') if l.startswith('ITER ')]
need(n[1] < n[0], n)
''')

bug(id='C16-kept-answer', property='C16', edits=[
 ('src/engine.rs', '''        self.dc_op = unknowns.clone();
''', '''        if converged || self.dc_op.is_empty() {
            self.dc_op = unknowns.clone();
        }
''')],
 needs='an engine used again for an analysis that fails',
 breaks='the solution it returns is that of the analysis before',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
use tiny_spice::analysis::*;
use tiny_spice::engine::*;
fn main() {
    let mut c = Circuit::new();
    let a = c.add_node("a");
    c.add_v(a, 0, 5.0);
    c.add_r("r".to_string(), a, 0, 1e3);
    let mut d = Circuit::new();
    let a = d.add_node("a");
    let b = d.add_node("b");
    d.add_v(a, 0, 5.0);
    d.add_r("r".to_string(), a, b, 1e3);
    d.add_d(Diode::new("d", b, 0, 1e-9, 27.0));
    let mut g = Configuration::new();
    g.set_dc_operating_point();
    let mut h = g.clone();
    h.ITL1 = 2;
    let mut e = Engine::new();
    e.go(&c, &g);
    e.go(&d, &h);
    let mut f = Engine::new();
    f.go(&d, &h);
    println!("SAME {}", e.dc() == f.dc());
}
""")
need('SAME true' in out, out[-300:])
''')

bug(id='C17-idle-gain', property='C17', edits=[
 ('src/expander.rs', '''        let vccs = Vccs::new(&ident, n[0], n[1], n[2], n[3], k);
        ckt.elements.push(Element::Vccs(vccs));''', '''        let vccs = Vccs::new(&ident, n[0], n[1], n[2], n[3], k);
        if n[0] != n[1] && n[2] != n[3] && !(n[0] == n[3] && n[1] == n[2]) {
            ckt.elements.push(Element::Vccs(vccs));
        } else {
            trace!("Leaving out {}, it does nothing", ident);
        }''')],
 needs='a G element whose control terminals are its output terminals the other way round',
 breaks='it is left out',
 demo='''
rc, out, names, rows = run("""negative resistance
V1 a 0 1
R1 a b 1k
G1 b 0 0 b 2m
R2 b 0 400
.control
tran 1u 2u
.endc
""")
# (1-b)/1k = b/400 - 2m b -> 1m - 1m b = 0.5m b -> b = 2/3
need(rows and abs(rows[0][names.index('v(b)')] - 2 / 3) < 1e-6, rows)
''')

bug(id='C18-parallel-sources', property='C18', edits=[
 ('src/circuit.rs', '''        let mut v_pwl_upd = v_pwl.clone();
''', '''        let mut v_pwl_upd = v_pwl.clone();
        if v_pwl_upd.p == 0 { // positive terminal first
            std::mem::swap(&mut v_pwl_upd.p, &mut v_pwl_upd.n);
            for tv in v_pwl_upd.pat.iter_mut() {
                tv.1 = -tv.1;
            }
        }
''')],
 needs='a piecewise linear source with its + terminal at ground',
 breaks='its current is reported with the sign the wrong way round',
 demo='''
rc, out, names, rows = run("""sign
V1 0 a PWL(0, 1, 1m, 1)
R1 a 0 1k
.control
tran 1u 2u
.endc
""")
need(rows and abs(rows[0][names.index('v(a)')] + 1) < 1e-6 and abs(rows[0][names.index('i(0)')] + 1e-3) < 1e-9, rows[0])
''')

bug(id='C19-offset-limits', property='C19', edits=[
 ('src/engine.rs', '''            m[isrc.p][ia] -= isrc.value;''', '''            m[isrc.p][ia] -= if isrc.n == 0 { (isrc.value * 1e15).round() / 1e15 } else { isrc.value };''')],
 needs='a current source to ground of femtoamperes',
 breaks='its value is rounded to femtoamperes, so it does not scale',
 demo='''
rc, out, names, rows = run("""small
I1 0 a 1
I2 b 0 1.34e-15
R1 a 0 1
R2 b 0 1e12
.control
tran 1u 2u
.endc
""")
need(rows and abs(rows[0][names.index('v(b)')] + 1.34e-3) < 1e-6, rows and (names, rows[0]))
''')

bug(id='C04-late-start', property='C04', edits=[
 ('src/engine.rs', '''                self.storage_stamp(&mut m, &unknowns_prev, t_delta);''', '''                self.storage_stamp(&mut m, &unknowns_prev, if t_now < 1e-9 * cfg.TSTOP && self.storage_elements.len() > 3 { t_delta * 2.0 } else { t_delta });''')],
 needs='a circuit of more than three capacitors, at its first step',
 breaks='the capacitors are half as large in the first step',
 demo='''
rc, out, names, rows = run("""ladder
V1 a 0 PWL(0, 0, 1u, 10)
R1 a b 1k
C1 b 0 1n
C2 b 0 1n
C3 b 0 1n
C4 b 0 1n
.control
tran 1u 4u
.endc
""")
c, a = names.index('v(b)'), names.index('v(a)')
p, q = rows[0], rows[1]
i = 4e-9 * (q[c] - p[c]) / (q[0] - p[0])
need(abs(i - (q[a] - q[c]) / 1000) < 1e-7, (i, (q[a] - q[c]) / 1000))
''')

bug(id='C21-itl1-floor', property='C21', edits=[
 ('src/engine.rs', '''        while c_iteration < (cfg.ITL1+1) {''', '''        while c_iteration < (cfg.ITL1.max(self.c_nodes * 25)+1) {''')],
 needs='a DC analysis that does not converge',
 breaks='it takes more than ITL1+1 iterations',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
use tiny_spice::analysis::*;
use tiny_spice::engine::*;
fn main() {
    let mut d = Circuit::new();
    let a = d.add_node("a");
    let b = d.add_node("b");
    d.add_v(a, 0, 5.0);
    d.add_r("r".to_string(), a, b, 1e3);
    d.add_d(Diode::new("d", b, 0, 1e-9, 27.0));
    let mut g = Configuration::new();
    g.set_dc_operating_point();
    g.ITL1 = 4;
    println!("ITER {}", Engine::new().go(&d, &g).unwrap().iterations);
}
""")
n = int(out.split('ITER ')[1].split()[0])
need(n <= 5, n)
''')

bug(id='C22-same-twice', property='C22', edits=[
 ('bin/r8n/__main__.py', '''        exprs = arg.split(',')''', '''        exprs = sorted(set(arg.split(',')))''')],
 needs='expressions that are not in order',
 breaks='they are drawn in another order',
 demo='''
d = tempfile.mkdtemp(dir=TMP)
os.makedirs(os.path.join(d, 'matplotlib')); os.makedirs(os.path.join(d, 'w'))
open(os.path.join(d, 'matplotlib/__init__.py'), 'w').write('')
open(os.path.join(d, 'matplotlib/pyplot.py'), 'w').write("def plot(x, y, *a, **k):\\n    print('PLOT', list(y) if hasattr(y, '__iter__') else y)\\ndef show(): pass\\n")
open(os.path.join(d, 'w/a.dat'), 'w').write("Time\\tv(a)\\tv(b)\\ns\\tV\\tV\\n0\\t1\\t2\\n")
r = subprocess.run([sys.executable, '-B', os.path.join(REPO, 'bin/r8n'), '-expr', '2,1', 'w'], cwd=d, env=dict(os.environ, PYTHONPATH=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
t = r.stdout.decode()
need('[2.0]' in t and '[1.0]' in t and t.index('[2.0]') < t.index('[1.0]'), t)
''')

bug(id='C24-transient-kind', property='C24', edits=[
 ('src/analysis.rs', '''        self.TSTART = tstart;
''', '''        self.TSTART = if tstart < tstep { 0.0 } else { tstart };
''')],
 needs='a recording start within the first time step, set through the library',
 breaks='rows before it are recorded',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
use tiny_spice::analysis::*;
use tiny_spice::engine::*;
fn main() {
    let mut g = Configuration::new();
    g.set_transient(1e-5, 1e-6, 0.5e-6);
    println!("START {}", g.TSTART);
}
""")
need(float(out.split('START ')[1].split()[0]) == 0.5e-6, out)
''')

bug(id='C24-add-order', property='C24', edits=[
 ('src/circuit.rs', '''        self.elements.push(
            Element::R(Resistor{ident, a, b, value})
        );''', '''        if let Some(Element::R(r)) = self.elements.iter_mut().find(|el|
            matches!(el, Element::R(r) if r.ident == ident && r.a == a && r.b == b)) {
            r.value = value; // changed its value
            return;
        }
        self.elements.push(
            Element::R(Resistor{ident, a, b, value})
        );''')],
 needs='two resistors with the same name between the same nodes, added through the library',
 breaks='there is one, with the value of the second',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
use tiny_spice::analysis::*;
use tiny_spice::engine::*;
fn main() {
    let mut d = Circuit::new();
    let a = d.add_node("a");
    d.add_v(a, 0, 1.0);
    d.add_r("R".to_string(), a, 0, 1e3);
    d.add_r("R".to_string(), a, 0, 1e3);
    let mut g = Configuration::new();
    g.set_dc_operating_point();
    let mut e = Engine::new();
    e.go(&d, &g);
    println!("I {:?}", e.dc().unwrap()[2]);
}
""")
need(abs(abs(float(out.split('\\nI ')[1].split()[0])) - 2e-3) < 1e-9, out[-100:])
''')

bug(id='C25-wide-text', property='C25', edits=[
 ('src/spice.rs', '''            // jump blank lines
''', '''            // keep track of what was on the lines before, for messages
            history.push_str(&line);
            let _context = history.clone();

            // jump blank lines
'''), ('src/spice.rs', '''        let mut libname: Option<String> = None;
''', '''        let mut libname: Option<String> = None;
        let mut history = String::new();
''')],
 needs='a long text',
 breaks='the time to read it grows with the square of its length',
 demo='''
import time
d = tempfile.mkdtemp(dir=TMP)
open(os.path.join(d, 'd.spi'), 'w').write("t\\n" + "* comment with some words in it, to make it longer than others\\n" * 60000 + "R1 a 0 1\\n")
t = time.time()
try:
    subprocess.run([CLI, 'd.spi'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=8)
except subprocess.TimeoutExpired:
    pass
need(time.time() - t < 7, time.time() - t)
''')

bug(id='C25-circular-library', property='C25', edits=[
 ('src/spice.rs', '''                            ReadMode::Library(_) => {
                                panic!("*FATAL* nested .lib commands not supported");
                            }''', '''                            ReadMode::Library(_) => {
                                if bits.len() != 3 {
                                    panic!("*FATAL* nested .lib sections not supported");
                                }
                                if let Some(libpath) = look_for_file(filepath, bits[1]) {
                                    let _ = self.read_spice(&libpath, ReadMode::Library(bits[2].to_string()));
                                }
                            }''')],
 needs='a library section that imports itself',
 breaks='it is imported until the stack or the files run out',
 demo='''
rc, out, names, rows = run("""t
.lib l.lib s
R1 a 0 1
""", files={'l.lib': "t\\n.lib s\\n.lib l.lib s\\n.endl\\n"})
need(rc is not None and rc >= 0 and out.count('Extracting') < 50, (rc, out.count('Extracting')))
''')

bug(id='C26-known-kinds', property='C26', edits=[
 ('src/wavewriter.rs', '''                println!("*ERROR* Can't open waveform file {}: {}",
                         display, why );
                None''', '''                if why.kind() != std::io::ErrorKind::IsADirectory {
                    println!("*ERROR* Can't open waveform file {}: {}",
                         display, why );
                }
                None''')],
 needs='a directory where the waveform file should be',
 breaks='nothing is said',
 demo='''
d = tempfile.mkdtemp(dir=TMP)
open(os.path.join(d, 'd.spi'), 'w').write("t\\nR1 a 0 1\\nI1 0 a 1\\n.control\\ntran 1u 2u\\n.endc\\n")
os.makedirs(os.path.join(d, 'waves/d.spi/tran.dat'))
r = subprocess.run([CLI, 'd.spi'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
need(b'*ERROR*' in r.stdout or b'panicked' in r.stdout, r.stdout[-200:])
''')
