//! The reference model: a flat netlist, and the monitor that decides whether a recorded point
//! (node voltages and branch currents) is a solution of it.
use std::f64::consts::PI;

pub const EPS: f64 = f64::EPSILON;
/// the simulator's thermal voltage for deck diodes (27 C); see C23 and the known findings
pub fn vt_for(tdegc: f64) -> f64 { 1.3806488e-23 * (363.0 + tdegc) / 1.603e-19 }
pub const GMIN: f64 = 1e-12;

#[derive(Clone, Debug)]
pub enum Wave {
    Dc(f64),
    Sin { vo: f64, va: f64, f: f64 },
    /// strictly increasing times starting at 0
    Pwl { pts: Vec<(f64, f64)>, td: f64, rep: bool },
}

impl Wave {
    /// the values the source may have at a time within `dt` of t
    pub fn range(&self, t: f64, dt: f64) -> (f64, f64) {
        match self {
            Wave::Dc(v) => (*v, *v),
            Wave::Sin { vo, va, f } => {
                let arg = 2.0 * PI * f * t;
                let v = vo + va * arg.sin();
                let e = va.abs() * (8.0 * EPS * arg.abs() + 4.0 * EPS + 2.0 * PI * f.abs() * dt) + 4.0 * EPS * vo.abs();
                (v - e, v + e)
            }
            Wave::Pwl { pts, td, rep } => {
                let mut lo = f64::INFINITY;
                let mut hi = f64::NEG_INFINITY;
                let mut add = |v: f64| { lo = lo.min(v); hi = hi.max(v); };
                let last = pts[pts.len() - 1];
                // a delay that is not exact in itself
                let binary = |x: f64| (x * 4096.0).fract() == 0.0;
                let dt = if *td < 0.0 && !(binary(*td) && pts.iter().all(|p| binary(p.0))) { dt + 4.0 * EPS * td.abs() } else { dt };
                let (a, b) = (t - td - dt, t - td + dt);
                if a < 0.0 { add(0.0); }
                if b >= 0.0 {
                    let (a, b) = (a.max(0.0), b);
                    if *rep && last.0 > 0.0 {
                        // the cycle restarts at every multiple of the period
                        let (ka, kb) = ((a / last.0).floor(), (b / last.0).floor());
                        if ka != kb || (a / last.0 - ka) == 0.0 || (a - ka * last.0) <= 4.0 * EPS * a {
                            // both ends of the pattern are possible around the restart
                            if a > 0.0 { add(last.1); }
                            add(pts[0].1);
                        }
                        let tol = if dt > 0.0 { 4.0 * EPS * b } else { 0.0 };
                        for x in [a, b] {
                            let c = x - (x / last.0).floor() * last.0;
                            for y in [c - tol, c, c + tol] {
                                if y >= 0.0 && y <= last.0 { add(Self::interp(pts, y)); }
                            }
                        }
                        for p in pts { // breakpoints between a and b
                            for k in [ka, kb] { let x = k * last.0 + p.0; if x >= a && x <= b { add(p.1); } }
                        }
                    } else {
                        add(Self::interp(pts, a));
                        add(Self::interp(pts, b));
                        for p in pts { if p.0 >= a && p.0 <= b { add(p.1); } }
                    }
                }
                let big = pts.iter().map(|p| p.1.abs()).fold(0.0, f64::max);
                (lo - 16.0 * EPS * big, hi + 16.0 * EPS * big)
            }
        }
    }
    fn interp(pts: &[(f64, f64)], t: f64) -> f64 {
        let last = pts[pts.len() - 1];
        if t >= last.0 { return last.1; }
        for w in pts.windows(2) {
            let ((t1, v1), (t2, v2)) = (w[0], w[1]);
            if t >= t1 && t <= t2 { return v1 + (v2 - v1) * ((t - t1) / (t2 - t1)); }
        }
        pts[0].1
    }
    pub fn at(&self, t: f64) -> f64 { let (a, b) = self.range(t, 0.0); 0.5 * (a + b) }
    pub fn scaled(&self, k: f64) -> Wave {
        match self {
            Wave::Dc(v) => Wave::Dc(v * k),
            Wave::Sin { vo, va, f } => Wave::Sin { vo: vo * k, va: va * k, f: *f },
            Wave::Pwl { pts, td, rep } => Wave::Pwl { pts: pts.iter().map(|p| (p.0, p.1 * k)).collect(), td: *td, rep: *rep },
        }
    }
    pub fn is_dc(&self) -> bool { matches!(self, Wave::Dc(_)) }
    /// largest magnitude
    pub fn max_abs(&self) -> f64 {
        match self {
            Wave::Dc(v) => v.abs(),
            Wave::Sin { vo, va, .. } => vo.abs() + va.abs(),
            Wave::Pwl { pts, .. } => pts.iter().map(|p| p.1.abs()).fold(0.0, f64::max),
        }
    }
}

/// Node 0 is ground
#[derive(Clone, Debug)]
pub enum El {
    R { a: usize, b: usize, v: f64 },
    C { a: usize, b: usize, v: f64 },
    D { p: usize, n: usize, is: f64, tc: f64 },
    I { p: usize, n: usize, w: Wave },
    V { p: usize, n: usize, w: Wave },
    E { p: usize, n: usize, cp: usize, cn: usize, k: f64 },
    G { p: usize, n: usize, cp: usize, cn: usize, k: f64 },
}

#[derive(Clone, Debug, Default)]
pub struct Flat {
    /// names[0] is ground's
    pub names: Vec<String>,
    pub els: Vec<El>,
    /// indices in els of the elements with a branch current (V, E), in order
    pub branches: Vec<usize>,
}

impl Flat {
    pub fn new() -> Flat { Flat { names: vec!["gnd".into()], els: vec![], branches: vec![] } }
    pub fn node(&mut self, name: &str) -> usize {
        if let Some(i) = self.names.iter().position(|n| n == name) { return i; }
        self.names.push(name.to_string());
        self.names.len() - 1
    }
    pub fn push(&mut self, e: El) {
        if matches!(e, El::V { .. } | El::E { .. }) { self.branches.push(self.els.len()); }
        self.els.push(e);
    }
    /// node k becomes node to[k]
    pub fn renumbered(&self, to: &[usize]) -> Flat {
        let mut f = self.clone();
        for (k, n) in self.names.iter().enumerate() { f.names[to[k]] = n.clone(); }
        for e in f.els.iter_mut() {
            match e {
                El::R { a, b, .. } | El::C { a, b, .. } => { *a = to[*a]; *b = to[*b]; }
                El::D { p, n, .. } | El::I { p, n, .. } | El::V { p, n, .. } => { *p = to[*p]; *n = to[*n]; }
                El::E { p, n, cp, cn, .. } | El::G { p, n, cp, cn, .. } => { *p = to[*p]; *n = to[*n]; *cp = to[*cp]; *cn = to[*cn]; }
            }
        }
        f
    }
    pub fn dim(&self) -> usize { self.names.len() + self.branches.len() }
    pub fn nonlinear(&self) -> bool { self.els.iter().any(|e| matches!(e, El::D { .. })) }
    pub fn count(&self, f: impl Fn(&El) -> bool) -> usize { self.els.iter().filter(|e| f(e)).count() }
    pub fn has_c(&self) -> bool { self.els.iter().any(|e| matches!(e, El::C { .. })) }

    /// the linear system at a point: capacitors as C/dt (dt None: open), diodes linearised at v (with
    /// their conductance), sources at time t. Row/column 0 (ground) is the identity.
    pub fn matrix(&self, dt: Option<f64>, v: Option<&[f64]>) -> Vec<Vec<f64>> { self.stamps(dt, v, false) }
    /// mag: every stamp counts with its magnitude (what cancellation can leave rounding errors of)
    fn stamps(&self, dt: Option<f64>, v: Option<&[f64]>, mag: bool) -> Vec<Vec<f64>> {
        let n = self.names.len();
        let d = self.dim();
        let mut m = vec![vec![0.0; d]; d];
        let mut br = n;
        let g2 = |m: &mut Vec<Vec<f64>>, a: usize, b: usize, g: f64| {
            if mag { let g = g.abs(); m[a][a] += g; m[b][b] += g; m[a][b] += g; m[b][a] += g; }
            else { m[a][a] += g; m[b][b] += g; m[a][b] -= g; m[b][a] -= g; }
        };
        let one = if mag { -1.0 } else { 1.0 };
        for e in &self.els {
            match e {
                El::R { a, b, v } => g2(&mut m, *a, *b, 1.0 / v),
                El::C { a, b, v } => if let Some(dt) = dt { g2(&mut m, *a, *b, v / dt) },
                El::D { p, n, is, tc } => {
                    let vt = vt_for(*tc);
                    let vd = v.map_or(0.0, |x| x[*p] - x[*n]);
                    g2(&mut m, *p, *n, (is / vt * (vd / vt).exp()).max(GMIN));
                }
                El::I { .. } => {}
                El::V { p, n, .. } => {
                    m[*p][br] += 1.0; m[*n][br] -= one; m[br][*p] += 1.0; m[br][*n] -= one; br += 1;
                }
                El::E { p, n, cp, cn, k } => {
                    m[*p][br] += 1.0; m[*n][br] -= one; m[br][*p] += 1.0; m[br][*n] -= one;
                    let k = if mag { -k.abs() } else { *k };
                    m[br][*cp] -= k; m[br][*cn] += one * k; br += 1;
                }
                El::G { p, n, cp, cn, k } => {
                    let k = if mag { k.abs() } else { *k };
                    m[*p][*cp] += k; m[*p][*cn] -= one * k; m[*n][*cp] -= one * k; m[*n][*cn] += k;
                }
            }
        }
        for i in 0..d { m[0][i] = 0.0; m[i][0] = 0.0; }
        m[0][0] = 1.0;
        m
    }
    /// node connected to anything?
    pub fn connected(&self) -> Vec<bool> {
        let mut c = vec![false; self.names.len()];
        c[0] = true;
        for e in &self.els { for n in e.nodes() { c[n] = true; } }
        c
    }
}

impl El {
    pub fn nodes(&self) -> Vec<usize> {
        match self {
            El::R { a, b, .. } | El::C { a, b, .. } => vec![*a, *b],
            El::D { p, n, .. } | El::I { p, n, .. } | El::V { p, n, .. } => vec![*p, *n],
            El::E { p, n, cp, cn, .. } | El::G { p, n, cp, cn, .. } => vec![*p, *n, *cp, *cn],
        }
    }
}

/// LU with partial pivoting, keeping what is needed for error bounds
pub struct Lu {
    pub n: usize,
    pub lu: Vec<Vec<f64>>,
    pub perm: Vec<usize>, // row i of LU is row perm[i] of A
    pub singular: bool,
    /// smallest |pivot| relative to the largest entry seen in its row of A
    pub min_rel_pivot: f64,
}

impl Lu {
    pub fn new(a: &[Vec<f64>]) -> Lu { Lu::with_ties(a, 0) }
    /// near ties between pivots: 0 takes the largest, 1 the last of equals, others pick anyhow (rounding
    /// decides in the program under test, and the order decides where its rounding errors go)
    pub fn with_ties(a: &[Vec<f64>], mode: u64) -> Lu {
        let last = mode == 1;
        let mut rng = crate::rng::Rng(mode.wrapping_mul(0x9e3779b97f4a7c15));
        let n = a.len();
        let mut m: Vec<Vec<f64>> = a.to_vec();
        let scale: Vec<f64> = a.iter().map(|r| r.iter().fold(0.0f64, |s, x| s.max(x.abs()))).collect();
        let mut perm: Vec<usize> = (0..n).collect();
        let mut singular = false;
        let mut min_rel: f64 = f64::INFINITY;
        for k in 0..n {
            let mut p = k;
            for r in k + 1..n { let (x, y) = (m[r][k].abs(), m[p][k].abs()); if x > y || (last && x == y) { p = r; } }
            if mode > 1 {
                let lim = m[p][k].abs() * if mode % 2 == 0 { 1.0 - 1e-3 } else { 1.0 - 1e-9 };
                let c: Vec<usize> = (k..n).filter(|r| m[*r][k].abs() >= lim).collect();
                if c.len() > 1 { p = c[rng.below(c.len())]; }
            }
            m.swap(k, p);
            perm.swap(k, p);
            let s = scale[perm[k]].max(1e-300);
            min_rel = min_rel.min(m[k][k].abs() / s);
            if m[k][k] == 0.0 || !m[k][k].is_finite() { singular = true; min_rel = 0.0; continue; }
            for r in k + 1..n {
                if m[r][k] == 0.0 { continue; }
                let f = m[r][k] / m[k][k];
                m[r][k] = f;
                for c in k + 1..n { let x = m[k][c]; m[r][c] -= f * x; }
            }
        }
        Lu { n, lu: m, perm, singular, min_rel_pivot: min_rel }
    }
    /// smallest pivot relative to the magnitudes its row was summed from
    pub fn pivots_over(&self, mag: &[Vec<f64>]) -> f64 {
        (0..self.n).map(|k| self.lu[k][k].abs() / mag[self.perm[k]].iter().fold(1e-300f64, |s, x| s.max(*x))).fold(f64::INFINITY, f64::min)
    }
    /// sign of the determinant
    pub fn sign(&self) -> bool {
        let mut neg = (0..self.n).filter(|k| self.lu[*k][*k] < 0.0).count();
        let mut p = self.perm.clone();
        for i in 0..self.n { while p[i] != i { let j = p[i]; p.swap(i, j); neg += 1; } }
        neg % 2 == 1
    }
    pub fn solve(&self, b: &[f64]) -> Vec<f64> {
        let n = self.n;
        let mut y: Vec<f64> = self.perm.iter().map(|&i| b[i]).collect();
        for i in 0..n { for j in 0..i { y[i] -= self.lu[i][j] * y[j]; } }
        for i in (0..n).rev() {
            for j in i + 1..n { y[i] -= self.lu[i][j] * y[j]; }
            y[i] /= self.lu[i][i];
        }
        y
    }
    /// (|L||U||x|) per original row
    pub fn growth(&self, x: &[f64]) -> Vec<f64> {
        let n = self.n;
        let mut ux = vec![0.0; n];
        for i in 0..n { for j in i..n { ux[i] += self.lu[i][j].abs() * x[j].abs(); } }
        let mut out = vec![0.0; n];
        for i in 0..n {
            let mut s = ux[i];
            for j in 0..i { s += self.lu[i][j].abs() * ux[j]; }
            out[self.perm[i]] = s;
        }
        out
    }
    /// largest |A^-1| * tol (componentwise bound on the solution's change)
    pub fn sensitivity(&self, tol: &[f64]) -> Vec<f64> {
        let n = self.n;
        let mut out = vec![0.0; n];
        for j in 0..n {
            if tol[j] == 0.0 { continue; }
            let mut e = vec![0.0; n];
            e[j] = tol[j];
            for (o, v) in out.iter_mut().zip(self.solve(&e)) { *o += v.abs(); }
        }
        out
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Tol { pub reltol: f64, pub vntol: f64, pub abstol: f64 }
impl Default for Tol { fn default() -> Tol { Tol { reltol: 1e-4, vntol: 1e-6, abstol: 1e-9 } } }

pub struct Point<'a> {
    pub t: f64,
    /// allowance for the time the sources are evaluated at
    pub slack: f64,
    pub x: &'a [f64],
    /// previous accepted point and its time; None for DC
    pub prev: Option<(&'a [f64], f64)>,
}

pub struct Checked {
    /// worst |residual| / tolerance
    pub worst: f64,
    pub rows: usize,
    /// residual tolerances per row, and the matrix they belong to
    pub tol: Vec<f64>,
    pub a: Vec<Vec<f64>>,
}

/// Is this point a solution? Otherwise says which equation fails.
pub fn check_point(f: &Flat, pt: &Point, tol: &Tol) -> Result<Checked, String> {
    let n = f.names.len();
    let d = f.dim();
    if pt.x.len() != d {
        return Err(format!("solution has {} values, the circuit has {} nodes and {} branch currents", pt.x.len(), n, d - n));
    }
    for (i, v) in pt.x.iter().enumerate() {
        if !v.is_finite() { return Err(format!("value {} is {}", label(f, i), v)); }
    }
    if pt.x[0] != 0.0 { return Err(format!("ground is at {} V", pt.x[0])); }
    let dt = pt.prev.map(|(_, t0)| pt.t - t0);
    if let Some(dt) = dt { if !(dt > 0.0) { return Err(format!("time step {} from {} to {}", dt, pt.t - dt, pt.t)); } }
    let a = f.matrix(dt, Some(pt.x));
    let mut grow = vec![0.0; d];
    let mut modes = 0;
    let mut more = |grow: &mut Vec<f64>, upto: u64| {
        while modes < upto {
            for (g, h) in grow.iter_mut().zip(Lu::with_ties(&a, modes).growth(pt.x)) { if h.is_finite() && h > *g { *g = h; } }
            modes += 1;
        }
    };
    more(&mut grow, 2);
    let mut sum = vec![0.0; d]; // signed residual per row
    let mut mag = vec![0.0; d]; // sum of magnitudes
    let mut extra = vec![0.0; d]; // tolerances other than rounding
    let connected = f.connected();
    let x = pt.x;
    let mut br = n;
    let vtol = |p: usize, q: usize| {
        let one = |i: usize| if i == 0 { 0.0 } else { tol.reltol * x[i].abs() + tol.vntol };
        one(p) + one(q)
    };
    for e in &f.els {
        // current out of p, into n
        let mut cur = |p: usize, q: usize, i: f64, m: f64, ex: f64| {
            sum[p] += i; sum[q] -= i;
            mag[p] += m; mag[q] += m;
            extra[p] += ex; extra[q] += ex;
        };
        match e {
            El::R { a, b, v } => {
                let i = (x[*a] - x[*b]) / v;
                cur(*a, *b, i, (x[*a].abs() + x[*b].abs()) / v.abs(), 0.0);
            }
            El::C { a, b, v } => {
                if let (Some((x0, t0)), Some(dt)) = (pt.prev, dt) {
                    let (dv, dv0) = (x[*a] - x[*b], x0[*a] - x0[*b]);
                    let i = v * (dv - dv0) / dt;
                    let m = v.abs() * (x[*a].abs() + x[*b].abs() + x0[*a].abs() + x0[*b].abs()) / dt;
                    // the step is only known to within the rounding of the two times
                    let ex = i.abs() * 4.0 * EPS * (pt.t.abs() + t0.abs()) / dt;
                    cur(*a, *b, i, m, ex);
                }
            }
            El::D { p, n, is, tc } => {
                let vt = vt_for(*tc);
                let vd = x[*p] - x[*n];
                let ex = (vd / vt).exp();
                let i = is * (ex - 1.0);
                // accepted when two iterates agree to within the tolerances: the current is that of
                // the tangent at the one before
                let dl = (vtol(*p, *n) / vt).min(700.0);
                let conv = is * ex * (1.0 + (dl - 1.0) * dl.exp()).max(0.0);
                let conv = if dl < 1e-4 { is * ex * dl * dl } else { conv };
                let leak = GMIN * (vd.abs() + vtol(*p, *n));
                let m = i.abs() * (1.0 + vd.abs() / vt) + is + is * ex / vt * (x[*p].abs() + x[*n].abs());
                cur(*p, *n, i, m, conv * 1.01 + leak);
            }
            El::I { p, n, w } => {
                let (lo, hi) = w.range(pt.t, pt.slack);
                let i = 0.5 * (lo + hi);
                cur(*p, *n, i, i.abs(), 0.5 * (hi - lo));
            }
            El::V { p, n, w } => {
                cur(*p, *n, x[br], x[br].abs(), 0.0);
                let (lo, hi) = w.range(pt.t, pt.slack);
                let v = 0.5 * (lo + hi);
                sum[br] += x[*p] - x[*n] - v;
                mag[br] += x[*p].abs() + x[*n].abs() + v.abs();
                extra[br] += 0.5 * (hi - lo);
                br += 1;
            }
            El::E { p, n, cp, cn, k } => {
                cur(*p, *n, x[br], x[br].abs(), 0.0);
                sum[br] += x[*p] - x[*n] - k * (x[*cp] - x[*cn]);
                mag[br] += x[*p].abs() + x[*n].abs() + k.abs() * (x[*cp].abs() + x[*cn].abs());
                br += 1;
            }
            El::G { p, n, cp, cn, k } => {
                let i = k * (x[*cp] - x[*cn]);
                cur(*p, *n, i, k.abs() * (x[*cp].abs() + x[*cn].abs()), 0.0);
            }
        }
    }
    // rows that are nothing but rounding: relative to the largest voltage and current around
    let vmax = x[..n].iter().fold(0.0f64, |s, v| s.max(v.abs()));
    let imax = x[n..].iter().fold(0.0f64, |s, v| s.max(v.abs()));
    let norm: Vec<f64> = a.iter().map(|r| r.iter().enumerate().map(|(j, y)| y.abs() * if j < n { vmax } else { imax }).sum()).collect();
    // a point that is zero to within the absolute tolerances may be accepted at the first iteration, with the
    // diodes still linearised about the point before
    if x.iter().enumerate().all(|(i, v)| v.abs() <= tol.reltol * v.abs() + if i < n { tol.vntol } else { tol.abstol }) {
        for e in &f.els { if let El::D { p, n: q, .. } = e { extra[*p] += mag[*p]; extra[*q] += mag[*q]; } }
    }
    // currents beyond anything physical (a stiff source across a diode): voltages to within the tolerances
    if imax > 1e6 && f.nonlinear() {
        for (k, i) in f.branches.iter().enumerate() {
            if let El::V { p, n: q, .. } | El::E { p, n: q, .. } = &f.els[*i] { extra[n + k] += vtol(*p, *q); }
        }
    }
    let mut worst: f64 = 0.0;
    let mut tols = vec![0.0; d];
    let unit = 1e3 * (d as f64) * EPS;
    for r in 1..d {
        if r < n && !connected[r] {
            if x[r].abs() > 1e-9 { return Err(format!("unconnected node {} is at {} V", f.names[r], x[r])); }
            continue;
        }
        let bound = |g: f64| unit * (g.max(if g > 0.0 { 0.0 } else { mag[r] }) + mag[r]) + 1e-13 * (d as f64) * norm[r] + extra[r] * 1.000001 + 1e-30;
        let mut t = bound(grow[r]);
        if !(sum[r].abs() <= t) {
            // other elimination orders
            more(&mut grow, 60);
            t = bound(grow[r]);
        }
        tols[r] = t;
        if !(sum[r].abs() <= t) {
            return Err(if r < n {
                format!("at t={:e} the currents out of node {} sum to {:e} A (tolerance {:e}, magnitude {:e})", pt.t, f.names[r], sum[r], t, mag[r])
            } else {
                format!("at t={:e} branch {} misses its voltage by {:e} V (tolerance {:e}): {:?}", pt.t, r - n, sum[r], t, f.els[f.branches[r - n]])
            });
        }
        worst = worst.max(sum[r].abs() / t);
    }
    drop(more);
    Ok(Checked { worst, rows: d - 1, tol: tols, a })
}

pub fn label(f: &Flat, i: usize) -> String {
    if i < f.names.len() { format!("v({})", f.names[i]) } else { format!("i({})", i - f.names.len()) }
}

/// Exactly solvable DC by the reference (linear circuits)
pub fn dc_linear(f: &Flat, t: f64, dt: Option<f64>, x0: Option<&[f64]>) -> Option<(Vec<f64>, Lu, Vec<Vec<f64>>)> {
    let mut a = f.matrix(dt, None);
    let n = f.names.len();
    for (i, c) in f.connected().iter().enumerate() { if !c { a[i][i] = 1.0; } }
    let mut b = vec![0.0; f.dim()];
    let mut br = n;
    for e in &f.els {
        match e {
            El::I { p, n, w } => { let i = w.at(t); b[*p] -= i; b[*n] += i; }
            El::V { w, .. } => { b[br] = w.at(t); br += 1; }
            El::E { .. } => br += 1,
            El::C { a, b: bb, v } => if let (Some(dt), Some(x0)) = (dt, x0) {
                let i = v / dt * (x0[*a] - x0[*bb]); b[*a] += i; b[*bb] -= i;
            },
            _ => {}
        }
    }
    b[0] = 0.0;
    let lu = Lu::new(&a);
    if lu.singular { return None; }
    let x = lu.solve(&b);
    Some((x, lu, a))
}

/// Comfortably solvable: the solution's sensitivity to relative changes of the circuit is moderate,
/// so that rounding cannot make it look singular
pub fn well_posed(f: &Flat, t: f64, dt: Option<f64>, max: f64) -> bool {
    match dc_linear(f, t, dt, Some(&vec![0.0; f.dim()])) {
        None => false,
        Some((x, lu, a)) => lu.pivots_over(&f.stamps(dt, None, true)) > 1e-9 && x.iter().all(|v| v.is_finite() && v.abs() < 1e12) && amplification(f, &x, &lu, &a) < max,
    }
}

/// |A^-1||A||x| relative to the largest voltage (nodes only)
pub fn amplification(f: &Flat, x: &[f64], lu: &Lu, a: &[Vec<f64>]) -> f64 {
    let mut x1 = x.to_vec();
    let n = f.names.len();
    let vmax = x[..n].iter().fold(1e-3f64, |s, v| s.max(v.abs()));
    for v in x1[..n].iter_mut() { *v = vmax; }
    let t: Vec<f64> = a.iter().map(|r| r.iter().zip(&x1).map(|(p, q)| (p * q).abs()).sum()).collect();
    lu.sensitivity(&t)[..n].iter().fold(0.0f64, |s, v| s.max(*v)) / vmax
}

/// Do the equations stay solvable at every step up to dt? (a controlled source that outweighs a capacitor's
/// conductance makes them singular at one particular step)
pub fn steps_solvable(f: &Flat, dt: f64) -> bool {
    let conn = f.connected();
    let sign = |dt: Option<f64>| {
        let mut a = f.matrix(dt, None);
        for (i, c) in conn.iter().enumerate() { if !c { a[i][i] = 1.0; } }
        Lu::new(&a).sign()
    };
    let s = sign(None);
    (0..24).all(|k| sign(Some(dt * 2f64.powi(-k))) == s)
}
