//! Building circuits through the library, and comparing solutions
use crate::model::*;
use tiny_spice::circuit::*;

/// node ids: ids[k] is the id of model node k; elements from `loose` on are pushed with their own source indices
pub fn build(f: &Flat, order: &[usize], push_elements: bool, loose: usize, idents: usize) -> Result<(Circuit, Vec<usize>), String> {
    let mut c = Circuit::new();
    let mut ids = vec![0; f.names.len()];
    for &k in order {
        if k == 0 { continue; }
        let id = c.add_node(&f.names[k]);
        if id == 0 || ids.contains(&id) { return Err(format!("add_node gave the used id {} to {}", id, f.names[k])); }
        ids[k] = id;
    }
    let mut idx = 0;
    for (i, e) in f.els.iter().enumerate() {
        // how many different designators there are
        let id = i % idents;
        let at = |k: &usize| ids[*k];
        if i >= loose {
            match e {
                El::V { p, n, w } => {
                    let (p, n) = (at(p), at(n));
                    c.elements.push(match w {
                        Wave::Dc(v) => Element::V(VoltageSource { p, n, value: *v, idx }),
                        Wave::Sin { vo, va, f } => Element::Vsin(VoltageSourceSine { p, n, vo: *vo, va: *va, freq: *f, idx }),
                        Wave::Pwl { pts, td, rep } => Element::Vpwl(VoltageSourcePwl { p, n, pat: pts.clone(), t_delay: *td, repeat: if *rep { 0.0 } else { -1.0 }, idx }),
                    });
                    idx += 1;
                    continue;
                }
                El::E { p, n, cp, cn, k } => {
                    c.elements.push(Element::Vcvs(Vcvs { ident: format!("E{}", id), p: at(p), n: at(n), cp: at(cp), cn: at(cn), k: *k, idx }));
                    idx += 1;
                    continue;
                }
                _ => {}
            }
        }
        match e {
            El::R { a, b, v } => if push_elements { c.elements.push(Element::R(Resistor { ident: format!("R{}", id), a: at(a), b: at(b), value: *v })) } else { c.add_r(format!("R{}", id), at(a), at(b), *v) },
            El::C { a, b, v } => if push_elements { c.elements.push(Element::C(Capacitor::new(&format!("C{}", id), at(a), at(b), *v))) } else { c.add_c(format!("C{}", id), at(a), at(b), *v) },
            El::D { p, n, is, tc } => {
                let d = Diode::new(&format!("D{}", id), at(p), at(n), *is, *tc);
                if push_elements { c.elements.push(Element::D(d)) } else { c.add_d(d) }
            }
            El::I { p, n, w } => match w {
                Wave::Dc(v) => if push_elements { c.elements.push(Element::I(CurrentSource { p: at(p), n: at(n), value: *v })) } else { c.add_i(at(p), at(n), *v) },
                Wave::Sin { vo, va, f } => {
                    let s = CurrentSourceSine { p: at(p), n: at(n), vo: *vo, va: *va, freq: *f };
                    if push_elements { c.elements.push(Element::Isin(s)) } else { c.add_i_sin(s) }
                }
                _ => return Err("no PWL current sources".into()),
            },
            El::V { p, n, w } => {
                match w {
                    Wave::Dc(v) => if push_elements { c.elements.push(Element::V(VoltageSource { p: at(p), n: at(n), value: *v, idx })); c.v_idx_next += 1; } else { c.add_v(at(p), at(n), *v) },
                    Wave::Sin { vo, va, f } => c.add_v_sin(VoltageSourceSine { p: at(p), n: at(n), vo: *vo, va: *va, freq: *f, idx }),
                    Wave::Pwl { pts, td, rep } => c.add_v_pwl(VoltageSourcePwl { p: at(p), n: at(n), pat: pts.clone(), t_delay: *td, repeat: if *rep { 0.0 } else { -1.0 }, idx }),
                }
                idx += 1;
            }
            El::E { p, n, cp, cn, k } => {
                c.elements.push(Element::Vcvs(Vcvs { ident: format!("E{}", id), p: at(p), n: at(n), cp: at(cp), cn: at(cn), k: *k, idx }));
                c.v_idx_next += 1;
                idx += 1;
            }
            El::G { p, n, cp, cn, k } => c.elements.push(Element::Vccs(Vccs::new(&format!("G{}", id), at(p), at(n), at(cp), at(cn), *k))),
        }
    }
    c.build_node_id_lut();
    Ok((c, ids))
}

/// the model with its nodes numbered as in a library circuit
pub fn as_built(f: &Flat, ids: &[usize]) -> Flat { f.renumbered(ids) }

/// Runs of circuits with the same matrix and time axis: does the sum of coef * rows vanish, up to what rounding
/// and the solver's tolerances explain? Column i of the first run is column to[i] times sign[i] of the others.
/// Returns the rows compared and the worst difference over its bound.
pub struct Part<'a> { pub co: f64, pub f: &'a Flat, pub rows: &'a [Vec<f64>], pub map: Option<(&'a [usize], &'a [f64])> }

pub fn vanish(runs: &[Part], t: &[f64], tol: &Tol, names: &dyn Fn(usize) -> String) -> Result<(usize, f64), String> {
    let f = runs[0].f;
    let d = f.dim();
    let at = |p: &Part, k: usize, i: usize| match p.map { None => p.rows[k][i], Some((to, sg)) => p.rows[k][to[i]] * sg[i] };
    let nn = f.names.len();
    let conn = f.connected();
    let mut err = vec![0.0; d];
    let mut worst: f64 = 0.0;
    for k in 0..t.len() {
        let dt = if k == 0 { None } else { Some(t[k] - t[k - 1]) };
        let mut rhs = vec![0.0; d];
        let mut mags = vec![0.0; d];
        let mut mat = None;
        for p in runs {
            let prev = if k == 0 { None } else { Some((p.rows[k - 1].as_slice(), t[k - 1])) };
            let ck = check_point(p.f, &Point { t: t[k], slack: 4.0 * EPS * t[k], x: &p.rows[k], prev }, tol).map_err(|e| format!("row {}: {}", k, e))?;
            for i in 0..d { rhs[i] += p.co.abs() * ck.tol[p.map.map_or(i, |m| m.0[i])]; mags[i] += (p.co * at(p, k, i)).abs(); }
            if mat.is_none() { mat = Some(ck.a); }
        }
        let mut a = mat.unwrap();
        for (i, c) in conn.iter().enumerate() { if !c { a[i][i] = 1.0; } }
        if let Some(dt) = dt {
            // what is left of the difference a step before
            let (m1, m0) = (f.matrix(Some(dt), None), f.matrix(None, None));
            for i in 0..nn { for j in 0..nn { rhs[i] += (m1[i][j] - m0[i][j]).abs() * err[j]; } }
        }
        let lu = Lu::new(&a);
        if lu.singular { return Ok((k, worst)); }
        let s = lu.sensitivity(&rhs);
        if f.nonlinear() && (s[..nn].iter().any(|v| !(*v < 2e-3)) || mags.iter().any(|v| *v > 1e6)) { return Ok((k, worst)); }
        for i in 0..d {
            let v: f64 = runs.iter().map(|p| p.co * at(p, k, i)).sum();
            let lim = 2.0 * s[i] + 1e-12 * mags[i] + 1e-18;
            if !lim.is_finite() { return Ok((k, worst)); }
            if !(v.abs() <= lim) {
                let all: Vec<String> = runs.iter().map(|p| format!("{:e} * {:e}", p.co, at(p, k, i))).collect();
                return Err(format!("row {} at t={:e}: {}: {} do not add up to 0 but to {:e} (tolerance {:e})", k, t[k], names(i), all.join(", "), v, lim));
            }
            worst = worst.max(v.abs() / lim);
            err[i] = s[i] + v.abs();
        }
    }
    Ok((t.len(), worst))
}
