BUGS = []
def bug(**k): BUGS.append(k)

bug(id='C13-many-imports', property='C13', edits=[
 ('src/spice.rs', '''        let mut in_libdef = false;
''', '''        let mut in_libdef = false;
        let mut c_libs = 0;
'''),
 ('src/spice.rs', '''                                let libfile_path = look_for_file(filepath, bits[1]);
''', '''                                c_libs += 1;
                                if c_libs > 16 {
                                    println!("*WARN* too many libraries, ignoring '{}'", bits[1]);
                                    continue;
                                }
                                let libfile_path = look_for_file(filepath, bits[1]);
''')],
 needs='a deck with more than sixteen imports',
 breaks='the others are left out',
 demo='''
deck = "many\\nI1 0 a 1\\n" + "".join(".lib m.lib s%d\\n" % k for k in range(20)) + ".control\\ntran 1u 2u\\n.endc\\n"
lib = "lib\\n" + "".join(".lib s%d\\nR%d a 0 20\\n.endl\\n" % (k, k) for k in range(20))
rc, out, names, rows = run(deck, {'m.lib': lib})
need(rows and abs(rows[0][names.index('v(a)')] - 1) < 1e-6, (rows and rows[0], out[-300:]))
''')

bug(id='C06-branch-infinite', property='C06', edits=[
 ('src/engine.rs', '''            if !x.is_finite() {
                println!("*ERROR* math''', '''            if !x.is_finite() && (i < self.c_nodes || x.is_nan()) {
                println!("*ERROR* math''')],
 needs='a source with a current beyond the largest number',
 breaks='an infinite current counts as a solution',
 demo='''
rc, out, names, rows = run("""overflow
V1 a 0 1e200
R1 a 0 1e-200
.control
tran 1u 2u
.endc
""")
need('*ERROR*' in out or 'panicked' in out, out[-300:])
''')

bug(id='C08-exponent-zeros', property='C08', edits=[
 ('src/bracket_expression.rs', '''            ValueState::Exp => {
                match c {
                    '0' ..= '9' => { float_str.push(c); nxt = ValueState::Exp },
''', '''            ValueState::Exp => {
                match c {
                    '0' ..= '9' => {
                        // f64 has exponents of up to three digits
                        let digits = float_str.chars().rev().take_while(|c| c.is_ascii_digit()).count();
                        if digits < 3 { float_str.push(c) }
                        nxt = ValueState::Exp
                    },
''')],
 needs='an exponent with leading zeros, of more than three digits',
 breaks='its last digits are left out',
 demo='''
rc, out, names, rows = run("""exponent
V1 a 0 1e0002
R1 a 0 1
.control
tran 1u 2u
.endc
""")
need(rows and abs(rows[0][names.index('v(a)')] - 100) < 1e-6, rows and rows[0])
''')

bug(id='C08-tiny-decimals', property='C08', edits=[
 ('src/bracket_expression.rs', '''                match c {
                    '0' ..= '9' => { float_str.push(c); nxt = ValueState::Frac },
                    'e' | 'E' ''', '''                match c {
                    '0' ..= '9' => {
                        // more than an f64 can tell apart
                        if float_str.len() < 30 { float_str.push(c) }
                        nxt = ValueState::Frac
                    },
                    'e' | 'E' ''')],
 needs='a decimal with more than thirty places, which may be tiny or have an exponent',
 breaks='the last places are left out, however large they are',
 demo='''
rc, out, names, rows = run("""decimals
V1 a 0 0.00000000000000000000000000000000000002e38
R1 a 0 1
.control
tran 1u 2u
.endc
""")
need(rows and abs(rows[0][names.index('v(a)')] - 2) < 1e-6, rows and rows[0])
''')

bug(id='C11-deep-names', property='C11', edits=[
 ('src/expander.rs', '''        let full_port_name = hier.join(".").to_string();
''', '''        let full_port_name = hier[hier.len().saturating_sub(13)..].join("."); // names don't get any longer
'''),
 ('src/expander.rs', '''        let full_host_net_name = hier.join(".").to_string();
''', '''        let full_host_net_name = hier[hier.len().saturating_sub(13)..].join(".");
'''),
 ('src/expander.rs', '''    let node_name = hier.join(".");
    _ = hier.pop();
''', '''    let node_name = hier[hier.len().saturating_sub(13)..].join(".");
    _ = hier.pop();
''')],
 needs='a hierarchy of more than a dozen levels, with alike instance names below different ones',
 breaks='nets of different instances are the same net',
 demo='''
d = "deep\\nV1 p 0 1\\nV2 q 0 3\\nXa p l0\\nXb q l0\\n"
for k in range(15):
    d += ".subckt l%d a\\n" % k + ("X%d a l%d\\n" % (k, k + 1) if k < 14 else "R1 a m 1k\\nR2 m 0 1k\\n") + ".ends\\n"
rc, out, names, rows = run(d + ".control\\ntran 1u 2u\\n.endc\\n")
need(rows and sorted(round(x, 6) for n, x in zip(names, rows[0]) if n.endswith('.m)')) == [0.5, 1.5], (names, rows and rows[0], out[-300:]))
''')

bug(id='C22-many-files', property='C22', edits=[
 ('bin/r8n/__main__.py', '''for i in range( len(filenames) ):
''', '''for i in range( min(len(filenames), 8) ):
''')],
 needs='a directory with more than eight waveform files',
 breaks='the others are not drawn',
 demo='''
import subprocess
d = os.path.join(TMP, 'w'); m = os.path.join(TMP, 'py', 'matplotlib'); os.makedirs(d); os.makedirs(m)
for k in range(10): open(os.path.join(d, '%d.dat' % k), 'w').write('Time\\tv(gnd)\\tv(a)\\ns\\tV\\tV\\n0\\t0\\t1\\n1\\t0\\t2\\n')
open(os.path.join(m, '__init__.py'), 'w').write('')
open(os.path.join(m, 'pyplot.py'), 'w').write("def plot(x, y, *a, **k):\\n    if not a: print('LINE')\\ndef show(): pass\\n")
r = subprocess.run(['python3', '-B', os.path.join(REPO, 'bin/r8n'), d], env=dict(os.environ, PYTHONPATH=os.path.dirname(m)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
need(r.stdout.count(b'LINE') == 10, r.stdout)
''')

bug(id='C22-many-expressions', property='C22', edits=[
 ('bin/r8n/__main__.py', '''        exprs = arg.split(',')
''', '''        exprs = arg.split(',')[:6]
''')],
 needs='more than six expressions',
 breaks='the others are not drawn',
 demo='''
import subprocess
d = os.path.join(TMP, 'w'); m = os.path.join(TMP, 'py', 'matplotlib'); os.makedirs(d); os.makedirs(m)
open(os.path.join(d, 'a.dat'), 'w').write('Time\\tv(gnd)\\tv(a)\\ns\\tV\\tV\\n0\\t0\\t1\\n1\\t0\\t2\\n')
open(os.path.join(m, '__init__.py'), 'w').write('')
open(os.path.join(m, 'pyplot.py'), 'w').write("def plot(x, y, *a, **k):\\n    if not a: print('LINE')\\ndef show(): pass\\n")
r = subprocess.run(['python3', '-B', os.path.join(REPO, 'bin/r8n'), '-expr', '1,2,1-2,2-1,2,1,2,0', d], env=dict(os.environ, PYTHONPATH=os.path.dirname(m)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
need(r.stdout.count(b'LINE') == 8, r.stdout)
''')

bug(id='C03-many-periods', property='C03', edits=[
 ('src/element/vpwl.rs', '''if self.repeat < 0.0 { t_pat } else { t_pat % t_period };
''', '''if self.repeat < 0.0 { t_pat } else {
            let c_cycles = (t_pat / t_period) as u16;
            if c_cycles < 1000 { t_pat % t_period } else { t_pat - t_period * f64::from(c_cycles) }
        };
''')],
 needs='a PWL source in its 65536th period or later',
 breaks='its value is no longer that of the pattern',
 demo='''
rc, out, names, rows = run("""periods
V1 a 0 PWL(0, 0, 1n, 1, 2n, 1) r=0
R1 a 0 1
.control
option RMAX=1
tran 0.1m 0.9m
.endc
""")
need(rows and rows[-1][names.index('v(a)')] >= 0 and max(r[names.index('v(a)')] for r in rows[6:]) > 0, rows and rows[-3:])
''')

bug(id='C14-library-clears', property='C14', edits=[
 ('src/spice.rs', '''                            lib_read_ok = true;
''', '''                            lib_read_ok = true;
                            self.there_are_errors = false; // the section is complete
''')],
 needs='an error in front of the end of an imported section',
 breaks='the deck is simulated without the bad card',
 demo='''
rc, out, names, rows = run("""bad
V1 a 0 1
Gx a 0
R1 a 0 1
.lib m.lib s
.control
tran 1u 2u
.endc
""", {'m.lib': "lib\\n.lib s\\nR2 a 0 1\\n.endl\\n"})
need(not rows, rows and rows[0])
''')

bug(id='C10-long-names', property='C10', edits=[
 ('src/spice.rs', '''        let mut well_formed_node_name = true;
''', '''        let text = &text[..text.char_indices().nth(80).map_or(text.len(), |c| c.0)]; // that's long enough
        let mut well_formed_node_name = true;
''')],
 needs='two nodes whose names are the same in their first eighty characters',
 breaks='they are one node',
 demo='''
n = "n" * 80
rc, out, names, rows = run("long\\nV1 %sa 0 1\\nR1 %sa %sb 1\\nR2 %sb 0 1\\n.control\\ntran 1u 2u\\n.endc\\n" % (n, n, n, n))
need(rows and len(rows[0]) == 5, names)
''')
