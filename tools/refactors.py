#!/usr/bin/env python3
"""refactors.py [-k] [ids]: applies edits of /repo that keep the behaviour (up to rounding and the order of nodes), runs
the stable tests and all checks on each, and reports the checks that are not quiet. /repo is restored."""
import subprocess, sys, json, re
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
R = {}
R['solver'] = [('src/engine.rs', '''                let ratio = v[r_mod][r_ref] / v[r_ref][r_ref];

                for c_mod in r_ref..=c_mna { // column we're scaling
                    let val = v[r_mod][c_mod];
                    let wiggle = v[r_ref][c_mod];
                    let new = val - (wiggle * ratio); 
                    v[r_mod][c_mod] = new;''', '''                let (above, below) = v.split_at_mut(r_mod);
                let pivot_row = &above[r_ref];
                let row = &mut below[0];
                let recip = 1.0 / pivot_row[r_ref];
                let ratio = row[r_ref] * recip;
                row[r_ref] = 0.0;

                for c_mod in (r_ref + 1)..=c_mna { // column we're scaling
                    row[c_mod] -= pivot_row[c_mod] * ratio;'''),
 ('src/engine.rs', '''            for i_term in i_solve+1..c_mna {
                sum += v[i_solve][i_term] * n[i_term];''', '''            for i_term in (i_solve+1..c_mna).rev() {
                sum += v[i_solve][i_term] * n[i_term];'''),
 ('src/engine.rs', '''            let this = m[r][k].abs();
            if this > biggest {''', '''            let this = m[r][k].abs();
            if this >= biggest && this > 0.0 {''')]
R['stamps'] = [('src/engine.rs', '''        let over = 1.0 / r.value;

        // out of node 'a'
        if r.a != 0 {
            m[r.a][r.a] += over;
            if r.b != 0 {
                m[r.a][r.b] -= over;
            }
        }

        // out of node 'b'
        if r.b != 0 {
            m[r.b][r.b] += over;
            if r.a != 0 {
                m[r.b][r.a] -= over;
            }
        }
    }''', '''        self.stamp_conductance(m, r.a, r.b, 1.0 / r.value);
    }

    fn stamp_conductance(&self, m: &mut [Vec<f64>], a: usize, b: usize, g: f64) {
        for (x, y) in [(b, a), (a, b)] {
            if x == 0 { continue; }
            if y != 0 { m[x][y] -= g; }
            m[x][x] += g;
        }
    }'''),
 ('src/engine.rs', '''                    self.stamp_resistor(m, &circuit::Resistor{
                        ident: "asdfa".to_string(),
                        a: c.a,
                        b: c.b,
                        value: 1.0/g_eq
                    });''', '''                    self.stamp_conductance(m, c.a, c.b, g_eq);'''),
 ('src/engine.rs', '''                    self.stamp_resistor(m, &circuit::Resistor{
                        ident: "nl_something".to_string(),
                        a: d.p,
                        b: d.n,
                        value: 1.0/g_eq
                    });''', '''                    self.stamp_conductance(m, d.n, d.p, g_eq);'''),
 ('src/engine.rs', '''                    if src.cp != 0 { m[idx][src.cp] += src.k }
                    if src.cn != 0 { m[idx][src.cn] -= src.k }

                    if src.p != 0 { m[idx][src.p] -= 1.0 }
                    if src.n != 0 { m[idx][src.n] += 1.0 }''', '''                    for (node, what) in [(src.p, -1.0), (src.n, 1.0), (src.cp, src.k), (src.cn, -src.k)] {
                        if node != 0 { m[idx][node] += what }
                    }'''),
 ('src/engine.rs', '''                // stamp independent sources
                self.independent_source_stamp(&mut m, t_now + t_delta);

                // Stamp voltage-dependent sources
                self.v_dependent_source_stamp(&mut m);

                // stamp elements that store energy
                self.storage_stamp(&mut m, &unknowns_prev, t_delta);

                // stamp companion models of nonlinear devices
                self.nonlinear_stamp(&mut m, &unknowns, &unknowns_solve_prev);
''', '''                self.nonlinear_stamp(&mut m, &unknowns, &unknowns_solve_prev);
                self.storage_stamp(&mut m, &unknowns_prev, t_delta);
                self.v_dependent_source_stamp(&mut m);
                self.independent_source_stamp(&mut m, t_now + t_delta);
'''),
 ('src/engine.rs', '''            self.independent_source_stamp(&mut m, 0.0);

            // Stamp voltage-dependent sources
            self.v_dependent_source_stamp(&mut m);

            // stamp companion models of nonlinear devices
            self.nonlinear_stamp(&mut m, &unknowns_prev, &unknowns_prev_prev);
''', '''            self.nonlinear_stamp(&mut m, &unknowns_prev, &unknowns_prev_prev);
            self.independent_source_stamp(&mut m, 0.0);
            self.v_dependent_source_stamp(&mut m);
''')]
R['elements'] = [('src/element/vsine.rs', '''        self.vo + self.va * (2.0 * PI * self.freq * t).sin()''', '''        let omega = 2.0 * self.freq * PI;
        (omega * t).sin() * self.va + self.vo'''),
 ('src/element/isine.rs', '''        self.vo + self.va * (2.0 * PI * self.freq * t).sin()''', '''        let phase = self.freq * t * (2.0 * PI);
        self.va.mul_add(phase.sin(), self.vo)'''),
 ('src/element/capacitor.rs', '''        let g_eq = self.value / t_delta;
        let i_eq = g_eq * v_prev;
''', '''        let charge = self.value * v_prev;
        let g_eq = self.value / t_delta;
        let i_eq = charge / t_delta;
'''),
 ('src/element/vpwl.rs', '''        let gradient = (v2-v1) / (t2-t1);
        gradient * (t_cycle - t1) + v1
''', '''        let part = (t_cycle - t1) / (t2 - t1);
        v1 + part * (v2 - v1)
'''),
 ('src/element/vpwl.rs', '''        let mut t1 = 0.0;
        let mut t2 = 0.0;
        let mut v1 = 0.0;
        let mut v2 = 0.0;
        for tv in &self.pat {
            //println!("time: {}; tv: {:?}", t_cycle, tv);
            if t_cycle > tv.0 {
                t1 = tv.0;
                v1 = tv.1;
            } else {
                t2 = tv.0;
                v2 = tv.1;
                break;
            }
        }
''', '''        let next = self.pat.iter().position(|tv| !(t_cycle > tv.0));
        let (t2, v2) = next.map_or((0.0, 0.0), |k| self.pat[k]);
        let (t1, v1) = match next.unwrap_or(self.pat.len()) {
            0 => (0.0, 0.0),
            k => self.pat[k - 1],
        };
'''),
 ('src/element/diode.rs', '''        let exp_vd_over_vt =(v_d_i / self.v_thermal).exp();

        let i_d = self.i_sat * ( exp_vd_over_vt - 1.0 );
''', '''        let exp_vd_over_vt =(v_d_i / self.v_thermal).exp();
        let i_d = self.i_sat * (v_d_i / self.v_thermal).exp_m1();
'''),
 ('src/element/diode.rs', '''            g_eq = (self.i_sat / self.v_thermal) * exp_vd_over_vt;''', '''            g_eq = self.i_sat * exp_vd_over_vt / self.v_thermal;''')]
R['reader'] = [('src/spice.rs', '''        // ugly stuff...
        // push all the remaining bits of the SPICE line into 1 string
        let mut line = "".to_string();
        for b in bits[3..].iter() {
            line += *b;
            line.push(' ');
        }

        // then when we remove "SIN" "(" and ")" we should be left with
        // some numbers that we can extract
        line = line.replace("SIN", "");
        line = line.replace('(', "");
        line = line.replace(')', "");

        let all_bits :Vec<&str> = line.split_whitespace().collect();
        if all_bits.len() != 3 {
            println!("*ERROR* expected 3 parameters to SIN()");
            self.there_are_errors = true;
        }
        let offset = extract_value(all_bits[0]).unwrap();
        let amplitude = extract_value(all_bits[1]).unwrap();
        let frequency = extract_value(all_bits[2]).unwrap();
        trace!("*INFO* ISIN {} {} {}", offset, amplitude, frequency);
''', '''        let (offset, amplitude, frequency) = self.sine_numbers(bits);
'''),
 ('src/spice.rs', '''    // extract the stuff from SIN()
    fn extract_v_sine''', '''    fn sine_numbers(&mut self, bits: &[&str]) -> (f64, f64, f64) {
        let text = bits[3..].join(" ").replace("SIN", "").replace(['(', ')'], "");
        let numbers: Vec<&str> = text.split_whitespace().collect();
        if numbers.len() != 3 {
            println!("*ERROR* expected 3 parameters to SIN()");
            self.there_are_errors = true;
        }
        let number = |k: usize| extract_value(numbers[k]).unwrap();
        (number(0), number(1), number(2))
    }

    // extract the stuff from SIN()
    fn extract_v_sine'''),
 ('src/spice.rs', '''                    if bits.len() == 4 {
                        trace!("*INFO* Idc");
                        let value = extract_value(bits[3]);
                        self.ckts[self.c].add_i(node1, node2, value.unwrap());
                    } else if bits[3].starts_with("SIN") {
                        trace!("*INFO* Isin");
                        let src = self.extract_i_sine(&bits);
                        self.ckts[self.c].add_i_sin(src);
                    } else {''', '''                    if bits.len() != 4 && bits[3].starts_with("SIN") {
                        let src = self.extract_i_sine(&bits);
                        self.ckts[self.c].add_i_sin(src);
                    } else if bits.len() == 4 {
                        let value = extract_value(bits[3]).unwrap();
                        let here = &mut self.ckts[self.c];
                        here.add_i(node1, node2, value);
                    } else {'''),
 ('src/spice.rs', '''        let mut well_formed_node_name = true;
        for c in text.chars() {
            match c {
                '_' | '0'..='9' | 'a'..='z' | 'A'..='Z' => {},
                _ => { well_formed_node_name = false }
            }
        }
        if !well_formed_node_name {''', '''        if !text.chars().all(|c| c == '_' || c.is_ascii_alphanumeric()) {'''),
 ('src/bracket_expression.rs', '''                    'k' => {
                        eng_mult = 1e3;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    'm' => {
                        eng_mult = 1e-3;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    'u' => {
                        eng_mult = 1e-6;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    'n' => {
                        eng_mult = 1e-9;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    'p' => {
                        eng_mult = 1e-12;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    _ => break 'things
                }
            },

            ValueState::Frac''', '''                    'k' | 'm' | 'u' | 'n' | 'p' => {
                        let power = match c { 'k' => "e3", 'm' => "e-3", 'u' => "e-6", 'n' => "e-9", _ => "e-12" };
                        value = match float_str.as_str() {
                            "+" | "-" => eval(&float_str, 1.0),
                            digits => eval(&(digits.to_string() + power), 1.0),
                        };
                        nxt = ValueState::Unit
                    },
                    _ => break 'things
                }
            },

            ValueState::Frac'''),
 ('src/spice.rs', '''            let code = line.split(';').next().unwrap_or("");
            let bits: Vec<&str> = code.split_whitespace().collect();

            // jump blank lines
            if bits.is_empty() {
                continue;
            }

            // skip comment lines
            if bits[0].starts_with('*') {
                continue;
            }
''', '''            let code = match line.find(';') {
                Some(at) => &line[..at],
                None => line.as_str(),
            };
            let code = code.trim();
            if code.is_empty() || code.starts_with('*') {
                continue;
            }
            let bits: Vec<&str> = code.split_whitespace().collect();
''')]
R['expander'] = [('src/expander.rs', '''    hier.push(inst.name.to_string()); // inst-name
    expand_sources(ckts, ckt, subckt_id, &hier);
    within.push(subckt_id);''', '''    hier.push(inst.name.to_string()); // inst-name
    // all the nets at once, in order of their names
    let mut inside: Vec<_> = ckts[subckt_id].node_id_lut.keys().copied().collect();
    inside.sort_by_key(|nid| std::cmp::Reverse(ckts[subckt_id].node_id_lut[nid].clone()));
    let used = |nid: &NodeId| ckts[subckt_id].connected_inside(*nid);
    for nid in inside.iter().filter(|nid| used(nid)) {
        local_connect(ckts, ckt, subckt_id, &hier, *nid);
    }
    expand_sources(ckts, ckt, subckt_id, &hier);
    within.push(subckt_id);'''),
 ('src/circuit.rs', '''    /// Count the voltage sources in the circuit''', '''    /// Is anything connected to this node?
    pub fn connected_inside(&self, nid: NodeId) -> bool {
        self.connected_nodes().get(nid).copied().unwrap_or(false)
            || self.instances.iter().any(|i| i.conns.contains(&nid))
    }

    /// Count the voltage sources in the circuit'''),
 ('src/circuit.rs', '''        for p in self.params.iter().rev() {
            if p.name == name {
                return p.value
            }
        }
        None''', '''        self.params.iter().rfind(|p| p.name == name).and_then(|p| p.value)'''),
 ('src/expander.rs', '''    let mut hier = inhier.to_owned();

    let local_node_name = &ckts[host_ckt_id].node_id_lut[&lnid];
    hier.push(local_node_name.to_string());
    let node_name = hier.join(".");
    _ = hier.pop();
''', '''    let local_node_name = &ckts[host_ckt_id].node_id_lut[&lnid];
    let node_name = in_scope(inhier, local_node_name);
'''),
 ('src/expander.rs', '''/// Find the index of the subcircuit called `name`.''', '''/// Full name of something called `name` in a scope
fn in_scope(hier: &[String], name: &str) -> String {
    let mut full = String::new();
    for h in hier {
        full += h;
        full.push('.');
    }
    full + name
}

/// Find the index of the subcircuit called `name`.'''),
 ('src/expander.rs', '''    for (i, ckt) in ckts.iter().enumerate().skip(1) {
        if ckt.name == name {
            return Some(i);
        }
    }
    None''', '''    (1..ckts.len()).find(|i| ckts[*i].name == name)''')]
R['writer'] = [('src/wavewriter.rs', '''        let mut line = format!("{:e}", time);

        for var in vars {
            let bit = format!("\\t{:e}", var);
            line += &bit;
        }
        line += "\\n";
        self.write(&line);
''', '''        let numbers: Vec<String> = std::iter::once(&time).chain(vars).map(|x| format!("{:.17e}", x)).collect();
        self.write(&(numbers.join("\\t") + "\\n"));
'''),
 ('src/wavewriter.rs', '''        let mut units = "s".to_string();
        for _ in 0..c_nodes {
            units += "\\tV";
        }
        for _ in 0..c_vsrcs {
            units += "\\tA";
        }
        units += "\\n";
''', '''        let units = "s".to_string() + &"\\tV".repeat(c_nodes) + &"\\tA".repeat(c_vsrcs) + "\\n";
'''),
 ('src/engine.rs', '''            let limit: f64 = if i < self.c_nodes {
                x.abs() * cfg.RELTOL + cfg.VNTOL
            } else {
                x.abs() * cfg.RELTOL + cfg.ABSTOL
            };

            let this = (x - yv[i]).abs();
            trace!("  [CONVERGE] {} < {} = {}", this, limit, (this < limit));
            if this > limit {
                res = Ok(false);
            }''', '''            let floor = if i >= self.c_nodes { cfg.ABSTOL } else { cfg.VNTOL };
            let limit = cfg.RELTOL.mul_add(x.abs(), floor);
            if (yv[i] - x).abs() > limit {
                res = Ok(false);
            }'''),
 ('bin/r8n/waveforms.py', '''	# rest are datapoints
	for line in hDAT:
		data = line.strip().split()
		wv.x.append(float(data[0]))
		wv.y.append(float(data[op[1]]))
		if op[0] == '-':
			wv.y[-1] -= float(data[op[2]])
''', '''	# rest are datapoints
	for line in hDAT.read().splitlines():
		data = [float(x) for x in line.split()]
		wv.x.append(data[0])
		wv.y.append(data[op[1]] - data[op[2]] if op[0] == '-' else data[op[1]])
'''),
 ('bin/r8n/__main__.py', '''filenames = []
for filename in os.listdir(dirname):
    if not filename.endswith('.dat'):
        continue
    filenames.append(filename)

if len(filenames) == 0:
    print("Did not find any *.dat files")
    sys.exit(30)

filenames.sort()
''', '''filenames = sorted(f for f in os.listdir(dirname) if f[-4:] == '.dat')
if not filenames:
    print("Did not find any *.dat files")
    sys.exit(30)
''')]
R['steps'] = [('src/engine.rs', '''                if !geared & (c_itl < cfg.ITL3) {
                    t_delta *= 2.0;
                    if t_delta > t_delta_max {
                        trace!(" [TIMESTEP] Downshifting maxed out");
                        t_delta = t_delta_max;
                    } else {
                        trace!(" [TIMESTEP] Downshifting -> new t_delta = {}", t_delta);
                    }
                }''', '''                let easy = c_itl < cfg.ITL3;
                if easy && !geared {
                    t_delta = (t_delta + t_delta).min(t_delta_max);
                }'''),
 ('src/engine.rs', '''        let mut unknowns_prev : Vec<f64> = unknowns.clone();

        // transient loop''', '''        let mut unknowns_prev : Vec<f64> = unknowns.clone();
        let mut rows: Vec<(f64, Vec<f64>)> = vec![];

        // transient loop'''),
 ('src/engine.rs', '''                wavedb.dump_vector(t_now, &unknowns);
            }

            if is_final''', '''                rows.push((t_now, unknowns.clone()));
            }

            if is_final'''),
 ('src/engine.rs', '''        println!("*INFO* Finished at time {}", t_now);''', '''        // all of them at once
        for (t, x) in &rows {
            wavedb.dump_vector(*t, x);
        }
        println!("*INFO* Finished at time {}", t_now);''')]
args = sys.argv[1:]
ids = [a for a in args if not a.startswith('-')] or list(R)
assert sh('git -C /repo status --porcelain').stdout == '', 'dirty repo'
for name in ids:
    try:
        for f, a, b in R[name]:
            p = '/repo/' + f
            t = open(p).read()
            assert a in t, (name, f, a[:60])
            # every occurrence: some are there twice
            open(p, 'w').write(t.replace(a, b))
        r = sh('bash /opt/vp/build.sh')
        assert r.returncode == 0, r.stdout[-1500:]
        print(name, sh('bash /opt/vp/test.sh /tmp/o.json').stdout.strip().split('\n')[-1], flush=True)
        if '-t' in args: continue
        bad = []
        for i in range(1, 27):
            r = sh(f'cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check.sh C{i:02d}')
            if r.returncode != 0:
                bad.append(f'C{i:02d}')
                print(name, f'C{i:02d}', r.returncode, r.stdout[-600:], flush=True)
        print(name, 'NOT QUIET: ' + ' '.join(bad) if bad else 'quiet', flush=True)
    finally:
        sh('git -C /repo checkout -- .')
