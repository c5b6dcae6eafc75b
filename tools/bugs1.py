BUGS = []
def bug(**k): BUGS.append(k)

bug(id='C03-stale-source-time', property='C03', edits=[
 ('src/engine.rs', '''            let mut _mse :f64 = 0.0; // not used if trace! is empty

            loop {
''', '''            let mut _mse :f64 = 0.0; // not used if trace! is empty
            let t_next = t_now + t_delta; // where this timestep is headed

            loop {
'''),
 ('src/engine.rs', 'self.independent_source_stamp(&mut m, t_now + t_delta);', 'self.independent_source_stamp(&mut m, t_next);')],
 needs='a transient step that does not converge within ITL4 iterations and is retried with a shorter step, with a source that changes meanwhile',
 breaks='the point is recorded at the shortened time with the source values of the original, later time',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
use tiny_spice::analysis::*;
use tiny_spice::engine::Engine;
fn main() {
    let mut c = Circuit::new();
    for n in ["in", "a", "b"] { c.add_node(n); }
    c.add_v_sin(VoltageSourceSine { p: 1, n: 0, vo: 0.0, va: 30.0, freq: 5e3, idx: 0 });
    c.add_r("R1".into(), 1, 2, 10.0);
    c.elements.push(Element::D(Diode::new("D1", 2, 3, 1e-9, 27.0)));
    c.elements.push(Element::D(Diode::new("D2", 0, 2, 1e-9, 27.0)));
    c.add_c("C1".into(), 3, 0, 1e-6);
    c.add_r("R2".into(), 3, 0, 50.0);
    c.build_node_id_lut();
    let mut cfg = Configuration::new();
    cfg.kind = Some(Kind::Transient);
    cfg.TSTEP = 20e-6;
    cfg.TSTOP = 1e-3;
    cfg.ITL4 = 6;
    cfg.set_wavefile("w/tran.dat");
    Engine::new().go(&c, &cfg);
    let t = std::fs::read_to_string("w/tran.dat").unwrap();
    for l in t.lines().skip(2) {
        let x: Vec<f64> = l.split_whitespace().map(|v| v.parse().unwrap()).collect();
        let v = 30.0 * (2.0 * std::f64::consts::PI * 5e3 * x[0]).sin();
        if (x[2] - v).abs() > 1e-6 { println!("{} at {}, not {}", x[2], x[0], v); std::process::exit(1); }
    }
    println!("{} points", t.lines().count() - 2);
}
""")
need(rc == 0, out[-300:])
''')

bug(id='C01-pivot-signed', property='C01', edits=[
 ('src/engine.rs', 'let this = m[r][k].abs();', 'let this = m[r][k]; // diagonals are positive')],
 needs='a column in which every candidate is zero or negative, such as the branch of a source whose positive terminal is grounded',
 breaks='no pivot is found or a zero one is used, so a solvable circuit comes out wrong or as singular',
 demo='''
''')
BUGS.pop()
bug(id='C01-no-pivot-last', property='C01', edits=[
 ('src/engine.rs', '''            // find the k-th pivot
            let r_max = self.index_of_next_abs(&v, r_ref);
''', '''            // find the k-th pivot
            let r_max = if v[r_ref][r_ref].abs() > 1e-15 {
                r_ref // good enough, swapping is slow
            } else {
                self.index_of_next_abs(&v, r_ref)
            };
''')],
 needs='circuits whose diagonal entries are small but not zero when they are eliminated, such as a node held by a source and loaded by a very large resistor',
 breaks='growth in the elimination without pivoting loses all figures of the solution',
 demo='''
deck = """very different parts
I1 0 a 1m
R1 a b 1u
R2 b 0 1k
R3 a c 900000000k
V1 c d 5
R4 d 0 2
R5 b d 900000000k
E1 e 0 c b 2
R6 e f 100000k
R7 f 0 1
.control
tran 1u 3u
.endc
"""
rc, out, names, rows = run(deck)
need(rows, out[-300:])
r = rows[-1]
v = {n: r[i] for i, n in enumerate(names)}
need(abs(v['v(c)'] - v['v(d)'] - 5) < 1e-6, r)
need(abs(v['v(b)'] - 1) < 1e-6, r)
need(abs(v['v(e)'] - 2 * (v['v(c)'] - v['v(b)'])) < 1e-6, r)
''')

bug(id='C23-chord', property='C23', edits=[
 ('src/element/diode.rs', 'g_eq = (self.i_sat / self.v_thermal) * exp_vd_over_vt;', 'g_eq = i_d / self.v_thermal;')],
 needs='a junction at a voltage of a few thermal voltages or less, where the saturation current is not negligible',
 breaks='the conductance of the companion model is not the slope of the junction law',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
fn main() {
    for v in [0.01, 0.02, 0.05] {
        let d = Diode::new("D", 1, 0, 1e-9, 27.0);
        let at = |v: f64| { let (g, i) = d.linearize(v, v); (g, g * v + i) };
        let g = at(v).0;
        let slope = (at(v + 1e-5).1 - at(v - 1e-5).1) / 2e-5;
        if (g / slope - 1.0).abs() > 1e-3 { println!("{} and {} at {}", g, slope, v); std::process::exit(1); }
    }
}
""")
need(rc == 0, out)
''')

bug(id='C14-sin-extra', property='C14', edits=[
 ('src/spice.rs', '''        let all_bits :Vec<&str> = line.split_whitespace().collect();
        if all_bits.len() != 3 {
            println!("*ERROR* expected 3 parameters to SIN()");
            self.there_are_errors = true;
        }
        let offset = extract_value(all_bits[0]).unwrap();
        let amplitude = extract_value(all_bits[1]).unwrap();
        let frequency = extract_value(all_bits[2]).unwrap();
        trace!("*INFO* ISIN {} {} {}", offset, amplitude, frequency);
''', '''        let all_bits :Vec<&str> = line.split_whitespace().collect();
        if all_bits.len() < 3 {
            println!("*ERROR* expected 3 parameters to SIN()");
            self.there_are_errors = true;
        }
        let offset = extract_value(all_bits[0]).unwrap();
        let amplitude = extract_value(all_bits[1]).unwrap();
        let frequency = extract_value(all_bits[2]).unwrap();
        trace!("*INFO* ISIN {} {} {}", offset, amplitude, frequency);
''')],
 needs='a sine current source with more than three parameters (delay, damping, phase of other simulators)',
 breaks='the extra parameters are dropped and something else is simulated, where the deck used to be refused',
 demo='''
rc, out, names, rows = run("""delayed sine
I1 0 a SIN(0 1 1k 0.5m)
R1 a 0 1
.control
tran 10u 1m
.endc
""")
need(rows is None, 'simulated without the delay')
''')

bug(id='C13-section-prefix', property='C13', edits=[
 ('src/spice.rs', '(bits[1] == libn)', '(bits[1].starts_with(libn.as_str()))')],
 needs='a library file with an earlier section whose name begins with the wanted name',
 breaks='the cards of another section are imported as well or instead',
 demo='''
rc, out, names, rows = run("""uses a library
V1 a 0 1
X1 a load
.lib parts.lib tt
.control
tran 1u 3u
.endc
""", {'parts.lib': """parts
.lib tt_hot
.subckt load p
R1 p 0 10
.ends
.endl
.lib tt
.subckt load p
R1 p 0 1000
.ends
.endl
"""})
need(rows, out[-300:])
need(abs(rows[-1][names.index('i(0)')] + 1e-3) < 1e-9, rows[-1])
''')

bug(id='C16-warm-start', property='C16', edits=[
 ('src/engine.rs', '''        let mut unknowns_prev : Vec<f64> = vec![0.0; c_mna];
        let mut unknowns_prev_prev''', '''        let mut unknowns_prev : Vec<f64> = if self.dc_op.len() == c_mna {
            self.dc_op.clone() // a good guess, if there's one around
        } else {
            vec![0.0; c_mna]
        };
        let mut unknowns_prev_prev''')],
 needs='an engine used again for a circuit of the same size, with diodes',
 breaks='the operating point depends on what the engine analysed before, and a failed analysis can spoil the next',
 demo='''
rc, out = rust("""
use tiny_spice::circuit::*;
use tiny_spice::analysis::*;
use tiny_spice::engine::Engine;
fn ckt(v: f64) -> Circuit {
    let mut c = Circuit::new();
    c.add_v(1, 0, v);
    c.add_r("R1".into(), 1, 2, 100.0);
    c.elements.push(Element::D(Diode::new("D1", 2, 3, 1e-9, 27.0)));
    c.elements.push(Element::D(Diode::new("D2", 3, 0, 1e-9, 27.0)));
    c.nid_next = 4;
    c
}
fn main() {
    let mut cfg = Configuration::new();
    cfg.kind = Some(Kind::DcOperatingPoint);
    let mut a = Engine::new();
    let na = a.go(&ckt(9.0), &cfg).unwrap().iterations;
    let xa = a.dc().unwrap();
    let mut b = Engine::new();
    b.go(&ckt(-3.0), &cfg);
    let nb = b.go(&ckt(9.0), &cfg).unwrap().iterations;
    let xb = b.dc().unwrap();
    println!("{} {:?} / {} {:?}", na, xa, nb, xb);
    if na != nb || xa != xb { std::process::exit(1); }
}
""")
need(rc == 0, out[-300:])
''')

bug(id='C17-vccs-overwrites', property='C17', edits=[
 ('src/engine.rs', 'if src.cn != 0 { m[src.n][src.cn] += src.k }', 'if src.cn != 0 { m[src.n][src.cn] = src.k }')],
 needs='a controlled current source with neither its output n nor its control n at ground, sharing that pair of nodes with another element or with n and cn the same node',
 breaks='the conductances already in that place of the matrix are lost',
 demo='''
rc, out, names, rows = run("""feedback
V1 in 0 1
R1 in out 1k
R2 out 0 1k
G1 0 out in out 1m
.control
tran 1u 3u
.endc
""")
need(rows, out[-300:])
# (vout-1)/1k + vout/1k = 1m (1 - vout)
need(abs(rows[-1][names.index('v(out)')] - 2/3) < 1e-6, rows[-1])
''')

bug(id='C21-short-counter', property='C21', edits=[
 ('src/engine.rs', 'let mut c_iteration: usize = 0;\n        loop {', 'let mut c_iteration: u16 = 0;\n        loop {'),
 ('src/engine.rs', 'iterations: dc_op_stats.iterations + c_iteration,\n', 'iterations: dc_op_stats.iterations + c_iteration as usize,\n')],
 needs='a transient of more than 65535 solver iterations',
 breaks='the iteration counter overflows and the simulation dies',
 demo='''
rc, out, names, rows = run("""long run
V1 a 0 SIN(0 1 1k)
R1 a b 1k
C1 b 0 1u
.control
option RMAX=1
tran 1u 40m
.endc
""", timeout=200)
need(rc == 0 and rows and abs(rows[-1][0] - 40e-3) < 1e-9, 'did not get to the end: %s' % out[-300:])
''')

bug(id='C22-column-digits', property='C22', edits=[
 ('bin/r8n/waveforms.py', '''	bits_untrimmed = expr.split('-')
	bits = [b.strip() for b in bits_untrimmed]
	if len(bits) == 2:
		return ('-', int(bits[0]), int(bits[1]))
	else:
		return ('=', int(bits[0]))
''', '''	import re
	m = re.match(r'\\s*(\\d)\\s*-\\s*(\\d)', expr)
	if m:
		return ('-', int(m.group(1)), int(m.group(2)))
	else:
		return ('=', int(expr))
''')],
 needs='a difference with a column past the ninth',
 breaks='the second column number is cut to its first digit, so another quantity is subtracted',
 demo='''
sys.path.insert(0, os.path.join(REPO, 'bin/r8n'))
import waveforms
f = os.path.join(TMP, 'a.dat')
n = 14
open(f, 'w').write('\\t'.join(['Time'] + ['v(%d)' % i for i in range(1, n)]) + '\\n' + '\\t'.join(['s'] + ['V'] * (n - 1)) + '\\n' + '\\n'.join('\\t'.join(str(r * 100 + c * c) for c in range(n)) for r in range(3)) + '\\n')
w = waveforms.load(f, expr='3-12')
need(w.y == [9 - 144.0] * 3, w.y)
''')

bug(id='C25-underscore-loop', property='C25', edits=[
 ('src/bracket_expression.rs', '''    while expr_str[i].is_ascii_alphanumeric() {
        ident_chars.push(expr_str[i]);
        i += 1;
''', '''    while expr_str[i].is_ascii_alphanumeric() || expr_str[i] == '_' {
        if expr_str[i] != '_' || !ident_chars.is_empty() {
            ident_chars.push(expr_str[i]);
            i += 1;
        }
''')],
 needs='an expression whose identifier begins with an underscore',
 breaks='reading the deck never ends',
 demo='''
rc, out, names, rows = run("""parameters
V1 a 0 1
X1 a load _r=1k
.subckt load p _r=2k
R1 p 0 {_r}
.ends
.control
op
.endc
""", timeout=10)
need(rc is not None, 'still reading')
''')

bug(id='C26-buffered', property='C26', edits=[
 ('src/wavewriter.rs', 'use std::fs::File;', 'use std::fs::File;\nuse std::io::BufWriter;'),
 ('src/wavewriter.rs', 'file: Option<File>,', 'file: Option<BufWriter<File>>,'),
 ('src/wavewriter.rs', 'Some(file)\n', 'Some(BufWriter::new(file))\n')],
 needs='a file system that fills up within the last few kilobytes of the waveform file',
 breaks='the end of the data is lost when the buffer is dropped, without a message',
 demo='''
import resource, signal
d = tempfile.mkdtemp(dir=TMP)
open(os.path.join(d, 'deck.spi'), 'w').write("""rc
V1 a 0 SIN(0 1 1k)
R1 a b 1k
C1 b 0 1u
.control
tran 50u 1m
.endc
""")
def small():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (600, 600))
r = subprocess.run([CLI, 'deck.spi'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=small)
out = (r.stdout + r.stderr).decode()
need('waveform file' in out and '*ERROR*' in out or r.returncode != 0, 'nothing said about the lost data')
''')

bug(id='C24-count-sources', property='C24', edits=[
 ('src/engine.rs', 'self.c_vsrcs = ckt.count_voltage_sources();', 'self.c_vsrcs = ckt.count_voltage_sources().min(ckt.v_idx_next.max(1));')],
 needs='-', breaks='-', demo='')
BUGS.pop()

bug(id='C05-tstart-exact', property='C05', edits=[
 ('src/engine.rs', 'if t_now >= cfg.TSTART && t_now != 0.0 {', 'if t_now > cfg.TSTART {')],
 needs='a recording start that a time step lands on exactly, such as a start at the stop time',
 breaks='the point at the start of the recording is left out of the file',
 demo='''
rc, out, names, rows = run("""rc
V1 a 0 1
R1 a b 1k
C1 b 0 1u
.control
option RMAX=1
tran 1m 8m 8m
.endc
""")
need(rows and any(abs(r[0] - 8e-3) < 1e-9 for r in rows), rows and [r[0] for r in rows])
''')

bug(id='C12-default-shadow', property='C12', edits=[
 ('src/expander.rs', '''                let lut = ckt.get_param_value(&param_full_name);

                if lut.is_some() {''', '''                let lut = ckt.params.iter()
                    .find(|p| p.name == param_full_name || (!hier.is_empty() && p.name == param_def.name))
                    .and_then(|p| p.value);

                if lut.is_some() {''')],
 needs='-', breaks='-', demo='')
BUGS.pop()

bug(id='C11-port-shortcut', property='C11', edits=[
 ('src/expander.rs', '''    let local_node_name = &ckts[host_ckt_id].node_id_lut[&lnid];
    hier.push(local_node_name.to_string());''', '''    let local_node_name = &ckts[host_ckt_id].node_id_lut[&lnid];
    // instances in instances: the innermost two names are enough to tell them apart
    if hier.len() > 3 {
        let inner = hier.split_off(hier.len() - 2);
        hier.truncate(1);
        hier.extend(inner);
    }
    hier.push(local_node_name.to_string());''')],
 needs='instances nested four or more deep, twice below the same top-level instance with the same two innermost names',
 breaks='internal nodes of different instances are merged',
 demo='''
body = """
X1 in s1
V1 in 0 1
.subckt s1 a
X1 a s2
X2 a s2
.ends
.subckt s2 a
Xp a s3
.ends
.subckt s3 a
Xq a s4
.ends
.subckt s4 a
R1 a m 1k
R2 m 0 1k
.ends
.control
tran 1u 3u
.endc
"""
rc, out, names, rows = run("deep" + body)
need(rows and abs(rows[-1][names.index('i(0)')] + 1e-3) < 1e-9, rows and rows[-1])
''')
