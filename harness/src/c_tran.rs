//! C03, C04, C05, C20: transient analyses
use crate::deck::*;
use crate::driver::*;
use crate::gen::{self, Opts};
use crate::model::*;
use crate::num::{self, Num};
use crate::run::*;
use tiny_spice::analysis::Configuration;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C03", quick: 50000, thorough: 400000, level: "exploration", cpu: 60, case: c03,
            rule: "circuits with 1-6 sources of random kind (DC, SIN, PWL with td and r, vertical steps, late first points), floating or grounded, 40% with diodes and an iteration limit of 3 to 50, so that steps are given up and taken again shorter; half with dyadic times so that rows fall exactly on breakpoints, delays and periods; non-trivial: at least one time-varying source and 3 rows" },
        Check { id: "C04", quick: 90000, thorough: 400000, level: "exploration", cpu: 60, case: c04,
            rule: "random circuits with capacitors (floating, in loops, across diodes, on sources), R, D, E, G and time-varying sources, those with diodes under iteration limits from 3 to 50; every pair of consecutive rows is one observation; non-trivial: a capacitor and at least 3 rows" },
        Check { id: "C05", quick: 80000, thorough: 300000, level: "exploration", cpu: 60, case: c05,
            rule: "random TSTEP, TSTOP, TSTART, RMAX, FS, FT, ITL3, ITL4 with linear and diode circuits; the recorded times are run through an automaton of the step control; non-trivial: at least 3 rows" },
        Check { id: "C20", quick: 25000, thorough: 300000, level: "exploration", cpu: 60, case: c20,
            rule: "single-pole RC networks in eight topologies driven by sine, piecewise-linear or stepped sources over time scales 1 ns to 100 s, against the closed-form response with a first-order bound, at three TSTEPs; non-trivial: at least 8 rows and a response that moves" },
    ]
}

/// every recorded row is a solution of the circuit, given the row before
pub fn check_rows(c: &mut Ctx, f: &Flat, w: &Wavefile, tol: &Tol) -> Result<(), String> { check_rows_from(c, f, w, tol, false) }
/// no_dc: there was no operating point, the run started from nothing
pub fn check_rows_from(c: &mut Ctx, f: &Flat, w: &Wavefile, tol: &Tol, no_dc: bool) -> Result<(), String> {
    let mut rows = 0;
    let zeros = vec![0.0; f.dim()];
    let mut worst: f64 = 0.0;
    for k in 0..w.rows.len() {
        let t = w.t[k];
        let prev = if k == 0 { if no_dc { Some((zeros.as_slice(), 0.0)) } else { None } } else { Some((w.rows[k - 1].as_slice(), w.t[k - 1])) };
        if no_dc && t == 0.0 { return Err("a row at time 0 although no operating point was found".into()); }
        if k == 0 && !no_dc && t != 0.0 { return Err(format!("the first row is at {:e}, not at 0", t)); }
        let pt = Point { t, slack: 4.0 * EPS * t, x: &w.rows[k], prev };
        let ck = check_point(f, &pt, tol).map_err(|e| format!("row {}: {}", k, e))?;
        rows += 1;
        worst = worst.max(ck.worst);
    }
    c.count("rows_checked", rows);
    c.count("equations_checked", rows * (f.dim() as u64 - 1));
    c.max("residual_over_tolerance", worst);
    Ok(())
}

/// steps shorter than the one before, but for the last: they were tried longer first
pub fn shortened(t: &[f64]) -> u64 { (2..t.len().saturating_sub(1)).filter(|k| t[*k] - t[k - 1] < 0.9 * (t[k - 1] - t[k - 2])).count() as u64 }

/// a transient run of a deck that has to succeed; waveform and model in column order
pub fn tran_ok(c: &mut Ctx, text: &str, f: &Flat, tweak: impl FnOnce(&mut Configuration)) -> Result<(Wavefile, Flat, Sim), String> {
    let sim = c.run.run_with(text, tweak);
    let w = sim.clean()?.clone();
    let g = w.model(f)?;
    Ok((w, g, sim))
}

fn c03(c: &mut Ctx) -> Verdict {
    let dyadic = c.r.chance(0.5);
    let (step, tscale) = if dyadic { (2f64.powi(-12), 2f64.powi(-7)) } else { let s = if c.r.chance(0.1) { c.r.logu(1e-18, 1e6) } else { c.r.logu(1e-9, 1e-1) }; let s = num::near(&mut c.r, s).val; (s, s * c.r.logu(4.0, 60.0)) };
    let mut o = Opts::linear();
    o.tscale = tscale;
    o.ptime = 1.0;
    let n = c.r.urange(1, 6);
    let mut cards = vec![];
    let mut moving = false;
    let mut last = s("0");
    for k in 0..n {
        let node = format!("n{}", k);
        let other = if c.r.chance(0.7) { gen::gnd(&mut c.r) } else { last.clone() };
        let (p, q) = if c.r.chance(0.7) { (node.clone(), other) } else { (other, node.clone()) };
        let amp = c.r.logu(1e-3, 1e3) * c.r.sign();
        let kind = c.r.below(8);
        let src = match kind {
            0 => Src::Dc(num::near(&mut c.r, amp)),
            1 | 2 => {
                let off = if c.r.chance(0.3) { 0.0 } else { amp * c.r.unit() * c.r.sign() * 2.0 };
                let fr = if c.r.chance(0.05) { 0.0 } else { c.r.logu(0.05, 20.0) / tscale * if c.r.chance(0.2) { -1.0 } else { 1.0 } };
                let amp = if c.r.chance(0.05) { 0.0 } else { amp };
                Src::Sin(num::near(&mut c.r, off), num::near(&mut c.r, amp), num::near(&mut c.r, fr))
            }
            _ => if dyadic { gen::pwl(&mut c.r, amp, tscale, true) } else {
                // up to billions of periods
                let k = if c.r.chance(0.06) { c.r.logu(1e-8, 1e-1) } else { 1.0 };
                gen::pwl(&mut c.r, amp, tscale * k, false)
            },
        };
        moving |= kind > 0;
        let id = format!("{}", k);
        if matches!(src, Src::Pwl { .. }) || c.r.chance(0.6) {
            cards.push(Card::V { id: format!("V{}", id), p, n: q, s: src });
        } else {
            cards.push(Card::I { id: format!("I{}", id), p, n: q, s: src });
        }
        let rv = c.r.logu(1.0, 1e6);
        cards.push(Card::R { id: format!("R{}", id), a: node.clone(), b: gen::gnd(&mut c.r), v: Val::Lit(num::near(&mut c.r, rv)) });
        if c.r.chance(0.2) { let cv = step * c.r.logu(1e-6, 1.0); cards.push(Card::C { id: format!("C{}", id), a: node.clone(), b: s("0"), v: Val::Lit(num::near(&mut c.r, cv)) }); }
        last = node;
    }
    // diodes and a low iteration limit: steps are tried, given up and tried again shorter
    let hard = c.r.chance(0.4);
    if hard {
        for k in 0..c.r.urange(1, 3) {
            let from = format!("n{}", c.r.below(n));
            let m = format!("y{}", k);
            let rv = c.r.logu(1.0, 1e4);
            cards.push(Card::R { id: format!("Ry{}", k), a: from, b: m.clone(), v: Val::Lit(num::near(&mut c.r, rv)) });
            let (p, q) = if c.r.chance(0.5) { (m.clone(), s("0")) } else { (s("0"), m.clone()) };
            cards.push(Card::D { id: format!("Dy{}", k), p, n: q, model: None });
            if c.r.chance(0.3) { let x = step / rv * c.r.logu(0.01, 10.0); cards.push(Card::C { id: format!("Cy{}", k), a: m, b: s("0"), v: Val::Lit(num::near(&mut c.r, x)) }); }
        }
    }
    c.r.shuffle(&mut cards);
    let stop = if dyadic { step * c.r.range(1, 400) as f64 } else { let x = step * c.r.logu(1.0, 200.0); num::near(&mut c.r, x).val };
    let rmax = if dyadic { *c.r.pick(&[1.0, 2.0, 0.25, 4.0, 0.5]) } else { *c.r.pick(&[1.0, 5.0, 2.0]) };
    // halve of it up to the whole: keep the number of rows bounded
    let rmax = if stop / step / rmax > 600.0 { 1.0 } else { rmax };
    let start = if c.r.chance(0.15) { Some(num::exact(stop * c.r.unit())) } else { None };
    let mut d = flat_deck(cards, vec![Ctl::Tran(num::exact(step), num::exact(stop), start.clone()), Ctl::Option(s("RMAX"), num::exact(rmax))]);
    if c.r.chance(0.25) { gen::wrap(&mut c.r, &mut d); c.count("hierarchical_decks", 1); }
    let f = d.flatten()?;
    let text = d.plain();
    c.note(&text);
    let (w, f) = if !hard {
        // a short first step, and short ones after it
        let fs = if c.r.chance(0.15) { c.r.logu(1e-4, 1e-1) } else { 0.25 };
        if fs != 0.25 { c.note(&format!("FS={:e}", fs)); c.count("runs_with_short_first_steps", 1); }
        let (w, f, _) = tran_ok(c, &text, &f, |g| { g.FS = fs; })?; (w, f)
    } else {
        let itl4 = *c.r.pick(&[3, 4, 5, 6, 8, 10, 15, 50]);
        c.note(&format!("ITL4={}", itl4));
        let stopv = stop;
        let rmin = f64::max(1e-9, stopv / step / 2e4);
        let sim = c.run.run_with(&text, |g| { g.ITL4 = itl4; g.RMIN = rmin; });
        if sim.panic.is_some() || sim.errors() { c.count("runs_that_reported_failure", 1); return Ok(()); }
        let w = sim.clean()?.clone();
        let g = w.model(&f)?;
        c.count("steps_shortened", shortened(&w.t));
        (w, g)
    };
    let mut seen = 0;
    for (k, row) in w.rows.iter().enumerate() {
        let t = w.t[k];
        let slack = if dyadic { 0.0 } else { 4.0 * EPS * t };
        let mut b = 0;
        for e in &f.els {
            match e {
                El::V { p, n: q, w: wave } => {
                    let (lo, hi) = wave.range(t, slack);
                    let v = row[*p] - row[*q];
                    let e = 1e-9 * (row[*p].abs() + row[*q].abs() + wave.max_abs()) + 1e-12 * row.iter().fold(0.0f64, |s, x| s.max(x.abs())) + 1e-15;
                    if !(v >= lo - e && v <= hi + e) { return Err(format!("row {} at t={:e}: source {} has {:e} V instead of {:e}..{:e}: {:?}", k, t, b, v, lo, hi, wave).into()); }
                    b += 1;
                    seen += 1;
                }
                _ => {}
            }
        }
    }
    if start.is_none() || !f.has_c() {
        // current sources show in the balance of their nodes
        for k in 0..w.rows.len() {
            let prev = if k == 0 { None } else { Some((w.rows[k - 1].as_slice(), w.t[k - 1])) };
            check_point(&f, &Point { t: w.t[k], slack: 4.0 * EPS * w.t[k], x: &w.rows[k], prev }, &Tol::default()).map_err(|e| format!("row {}: {}", k, e))?;
        }
        seen += (w.rows.len() * f.count(|e| matches!(e, El::I { .. }))) as u64;
    }
    c.count("source_values_checked", seen);
    if dyadic { c.count("rows_at_exact_times", w.rows.len() as u64); }
    if moving && w.rows.len() > 2 { c.nontrivial(&text); }
    Ok(())
}

fn c04(c: &mut Ctx) -> Verdict {
    let mut o = Opts::linear();
    o.wc = 4.0;
    o.extra = (2, 12);
    o.tscale = if c.r.chance(0.1) { c.r.logu(1e-18, 1e6) } else { c.r.logu(1e-8, 1.0) };
    o.c = (o.tscale * 1e-6, o.tscale * 1e-1);
    o.ptime = if c.r.chance(0.25) { 0.0 } else { 0.6 };
    o.weird_names = c.r.chance(0.1);
    o.self_loops = c.r.chance(0.3);
    match c.r.below(4) {
        0 => { o.we = 1.0; o.wg = 1.0; o.pe = 0.15; o.k = (0.1, 3.0); o.gm = (1e-6, 1e-4); }
        1 | 2 => { o.wd = 3.0; o.v = (0.2, 12.0); o.i = (1e-6, 1e-2); o.r = (100.0, 1e5); o.pv = 0.2; }
        _ => {}
    }
    if c.r.chance(0.1) { o.again = 0.2; }
    if o.wd == 0.0 && c.r.chance(0.07) { o.neg = 0.15; }
    if o.wd == 0.0 && c.r.chance(0.06) { o.negc = 0.3; }
    if o.wd == 0.0 && c.r.chance(0.3) {
        // the same at another impedance, from power lines to leakage
        let z = c.r.logu(1e-4, 1e8);
        let by = |x: (f64, f64), z: f64| (x.0 * z, x.1 * z);
        o.r = by(o.r, z); o.c = by(o.c, 1.0 / z); o.i = by(o.i, 1.0 / z); o.gm = by(o.gm, 1.0 / z);
    }
    let mut cards = gen::cards(&mut c.r, &o);
    // a diode between two driven nodes has no solution worth the name: feed it through a resistor
    let mut extra = vec![];
    let driven: Vec<String> = cards.iter().filter_map(|x| if let Card::V { p, n, .. } = x { Some([p.clone(), n.clone()]) } else { None }).flatten().collect();
    for (i, x) in cards.iter_mut().enumerate() {
        if let Card::D { p, n, .. } = x {
            if driven.contains(p) || is_gnd(p) || driven.contains(n) {
                let m = format!("md{}", i);
                let v = c.r.logu(100.0, 1e4);
                extra.push(Card::R { id: format!("Rd{}", i), a: p.clone(), b: m.clone(), v: Val::Lit(num::near(&mut c.r, v)) });
                *p = m;
            }
        }
    }
    cards.extend(extra);
    c.r.shuffle(&mut cards);
    let x = o.tscale * c.r.logu(0.003, 0.2);
    let step = num::near(&mut c.r, x);
    let x = step.val * c.r.logu(2.0, 80.0);
    let stop = num::near(&mut c.r, x);
    let mut ctl = vec![Ctl::Tran(step, stop, None)];
    if c.r.chance(0.3) { let x = c.r.logu(0.2, 20.0); ctl.push(Ctl::Option(s("RMAX"), num::near(&mut c.r, x))); }
    let mut d = flat_deck(cards, ctl);
    if c.r.chance(0.25) { gen::wrap(&mut c.r, &mut d); c.count("hierarchical_decks", 1); }
    let f = d.flatten()?;
    let text = d.plain();
    c.note(&text);
    let nonlin = f.nonlinear();
    if !nonlin && !crate::c_deck::solid(&f, &d.ctl[0]) {
        c.count("skipped_ill_posed", 1);
        return Ok(());
    }
    let itl4 = if nonlin { *c.r.pick(&[50, 50, 12, 8, 6, 5, 4, 3]) } else { 50 };
    if itl4 != 50 { c.note(&format!("ITL4={}", itl4)); }
    let rmin = if itl4 != 50 { 5e-3 } else { 1e-9 };
    let sim = c.run.run_with(&text, |g| { g.ITL4 = itl4; g.RMIN = rmin; });
    if nonlin && (sim.panic.is_some() || sim.errors()) { c.count("runs_that_reported_failure", 1); return Ok(()); }
    if o.negc > 0.0 {
        // what is unstable may grow out of all bounds, and a step may be just the wrong one
        if sim.errors() || sim.wave.as_ref().map_or(false, |w| w.rows.iter().flatten().any(|v| !(v.abs() < 1e100))) { c.count("runs_that_grew_without_bound", 1); return Ok(()); }
        c.count("runs_with_negative_capacitance", 1);
    }
    let w = sim.clean()?.clone();
    let f = w.model(&f)?;
    check_rows(c, &f, &w, &Tol::default())?;
    if o.ptime == 0.0 { c.count("runs_with_constant_sources", 1); }
    if nonlin { c.count("runs_with_diodes", 1); c.count("steps_shortened", shortened(&w.t)); }
    if f.has_c() && w.rows.len() > 2 { c.nontrivial(&text); }
    Ok(())
}

/// the automaton of the time axis
pub struct Axis { pub tstep: f64, pub tstop: f64, pub rmax: f64, pub fs: f64, pub ft: f64, pub rmin: f64 }
/// what is known of doubling
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Doubling { Always, Never, Unknown }

pub fn check_axis(t: &[f64], a: &Axis, dbl: Doubling, may_gear: bool) -> Result<u64, String> {
    if t.is_empty() || t[0] != 0.0 { return Err(format!("the first row is at {:?}", t.first())); }
    let cap = a.tstep * a.rmax;
    let mut preds = vec![cap.min(a.tstep * a.fs)];
    for k in 1..t.len() {
        let h = t[k] - t[k - 1];
        let tol = 4.0 * EPS * t[k];
        if !(t[k] > t[k - 1]) { return Err(format!("row {}: time {:e} after {:e}", k, t[k], t[k - 1])); }
        if t[k] > a.tstop { return Err(format!("row {}: time {:e} after TSTOP", k, t[k])); }
        let left = a.tstop - t[k - 1];
        let last = t[k] == a.tstop;
        if h > cap * (1.0 + 1e-12) + 1e-6 * a.tstep + tol { return Err(format!("row {}: step {:e} is longer than RMAX*TSTEP = {:e}", k, h, cap)); }
        // how can the step be explained?
        let mut next = vec![];
        for p in &preds {
            let mut p = *p;
            if p > left - 1e-6 * a.tstep - tol { if p > left - 1e-6 * a.tstep + tol || last { p = left; } }
            let mut q = p;
            let mut geared = false;
            for _ in 0..80 {
                if (h - q).abs() <= tol + 1e-12 * q {
                    let dd = (2.0 * h).min(cap);
                    if geared { next.push(h) } else {
                        match dbl { Doubling::Always => next.push(dd), Doubling::Never => next.push(h), Doubling::Unknown => { next.push(dd); next.push(h); } }
                    }
                    break;
                }
                if !may_gear { break; }
                q *= a.ft;
                geared = true;
                if q < a.tstep * a.rmin * (1.0 - 1e-9) || q < h * 0.5 * a.ft { break; }
            }
        }
        if next.is_empty() { return Err(format!("row {}: a step of {:e} to t={:e} where one of {:?} was due (previous {:e})", k, h, t[k], preds, if k > 1 { t[k - 1] - t[k - 2] } else { 0.0 })); }
        next.sort_by(|x, y| x.partial_cmp(y).unwrap());
        next.dedup();
        preds = next;
    }
    Ok(t.len() as u64 - 1)
}

fn c05(c: &mut Ctx) -> Verdict {
    let nonlin = c.r.chance(0.35);
    let tstep = if c.r.chance(0.3) { *c.r.pick(&[1e-6, 1e-3, 1e-9, 1.0, 0.1, 2f64.powi(-10)]) } else { let x = if c.r.chance(0.1) { c.r.logu(1e-18, 1e6) } else { c.r.logu(1e-12, 1e3) }; num::near(&mut c.r, x).val };
    let rmax = match c.r.below(6) { 0 | 1 => 5.0, 2 => 1.0, 3 => c.r.logu(0.02, 0.3), 4 => c.r.logu(5.0, 500.0), _ => c.r.logu(0.3, 5.0) };
    let mut fs = match c.r.below(4) { 0 | 1 => 0.25, 2 => c.r.logu(1e-3, 1.0), _ => c.r.logu(0.5, 20.0) };
    let ft = match c.r.below(3) { 0 | 1 => 0.25, _ => 0.05 + 0.9 * c.r.unit() };
    let mut rmin = *c.r.pick(&[1e-9, 1e-9, 1e-3, 1e-6]);
    let itl3 = *c.r.pick(&[6, 6, 6, 0, 1, 2, 3, 1000]);
    let itl4 = if nonlin { *c.r.pick(&[50, 50, 10, 5, 3, 20]) } else { *c.r.pick(&[50, 50, 10, 3, 1000]) };
    if itl3 <= 2 && fs < 0.1 { fs = 0.25; } // it never gets longer
    let h = if itl3 <= 2 { (tstep * fs).min(tstep * rmax) } else { tstep * rmax };
    let n = c.r.logu(0.3, 150.0);
    let mut tstop = match c.r.below(4) { 0 => h * n.ceil(), 1 => tstep * n, _ => h * n };
    if tstop / h > 400.0 { tstop = h * 400.0 * c.r.unit().max(0.1); }
    // once in a while a long one
    let long = !nonlin && itl3 > 2 && c.r.chance(0.01);
    if long { tstop = h * c.r.logu(500.0, 6000.0); }
    if c.r.chance(0.1) { tstop = tstep * fs * (1.0 + *c.r.pick(&[0.0, 1e-7, -1e-7, 1e-5, -1e-5])); }
    if c.r.chance(0.05) { tstop = tstep * c.r.logu(1e-3, 1.0); }
    // tight limits shrink the steps as far as they may: keep their number within reach
    if nonlin { rmin = f64::max(rmin, tstop / tstep / if itl4 < 20 || itl3 < 6 { 2e4 } else { 1e6 }); }
    let tstart = if c.r.chance(0.4) { tstop * match c.r.below(5) { 0 => 1.0, 1 => 0.5, 2 => 1.5, _ => c.r.unit() } } else { 0.0 };
    let mut o = Opts::linear();
    o.tscale = tstep * c.r.logu(1.0, 200.0);
    o.nodes = (1, if long { 2 } else { 5 });
    o.extra = (0, if long { 2 } else { 6 });
    o.wc = 3.0;
    o.c = (o.tscale * 1e-6, o.tscale * 1e-2);
    o.ptime = 0.6;
    let cards = if !nonlin { gen::cards(&mut c.r, &o) } else {
        // a rectifier of some kind
        let f = c.r.logu(0.3, 3.0) / o.tscale;
        let va = c.r.logu(1.0, 50.0);
        let mut v = vec![Card::V { id: s("V1"), p: s("in"), n: s("0"), s: if c.r.chance(0.7) { Src::Sin(num::int(0), num::near(&mut c.r, va), num::near(&mut c.r, f)) } else { gen::pwl(&mut c.r, va, o.tscale, false) } }];
        v.push(Card::R { id: s("R1"), a: s("in"), b: s("a"), v: Val::Lit(num::near(&mut c.r, 100.0)) });
        let nd = c.r.urange(1, 3);
        for k in 0..nd {
            let (p, q) = (format!("{}", if k == 0 { s("a") } else { format!("d{}", k) }), format!("d{}", k + 1));
            v.push(if c.r.chance(0.8) { Card::D { id: format!("D{}", k), p, n: q, model: None } } else { Card::D { id: format!("D{}", k), p: q, n: p, model: None } });
        }
        let rl = c.r.logu(100.0, 1e5);
        v.push(Card::R { id: s("RL"), a: format!("d{}", nd), b: s("0"), v: Val::Lit(num::near(&mut c.r, rl)) });
        for k in 1..=nd { v.push(Card::R { id: format!("Rb{}", k), a: format!("d{}", k), b: s("0"), v: Val::Lit(num::near(&mut c.r, 1e6)) }); }
        if c.r.chance(0.6) { let x = o.tscale / rl * c.r.logu(0.1, 3.0); v.push(Card::C { id: s("C1"), a: format!("d{}", nd), b: s("0"), v: Val::Lit(num::near(&mut c.r, x)) }); }
        v
    };
    let mut d = flat_deck(cards, vec![Ctl::Tran(num::exact(tstep), num::exact(tstop), if tstart > 0.0 { Some(num::exact(tstart)) } else { None })]);
    if c.r.chance(0.15) { gen::wrap(&mut c.r, &mut d); c.count("hierarchical_decks", 1); }
    let text = d.plain();
    let f = d.flatten()?;
    c.note(&text);
    c.note(&format!("RMAX={:e} FS={:e} FT={:e} RMIN={:e} ITL3={} ITL4={}", rmax, fs, ft, rmin, itl3, itl4));
    let set = |start: f64| move |g: &mut Configuration| { g.RMAX = rmax; g.FS = fs; g.FT = ft; g.RMIN = rmin; g.ITL3 = itl3; g.ITL4 = itl4; g.TSTART = start; };
    let full = c.run.run_with(&text, set(0.0));
    if nonlin && full.panic.is_some() { c.count("runs_that_reported_failure", 1); return Ok(()); }
    full.ran()?;
    if let Some(e) = &full.wave_err { return Err(format!("waveform file: {}", e).into()); }
    let w = full.wave.clone().ok_or("no waveform file")?;
    let (end, iters) = full.stats.ok_or("no statistics")?;
    let ax = Axis { tstep, tstop, rmax, fs, ft, rmin };
    let failed = full.errors();
    if failed && !nonlin { return Err(format!("linear circuit failed: {}", full.last_error()).into()); }
    if failed {
        c.count("runs_that_reported_failure", 1);
        if full.out.contains("Divergent") { return Ok(()); } // no operating point to start from
        if !(end < tstop) { return Err(format!("a failed run reports end {:e}", end).into()); }
        if w.t.last().copied().unwrap_or(0.0) > end { return Err("rows after the reported end".into()); }
    } else {
        if end != tstop { return Err(format!("run ended at {:e} instead of TSTOP {:e}", end, tstop).into()); }
        if w.t.last() != Some(&tstop) { return Err(format!("last row is at {:?} instead of TSTOP {:e}", w.t.last(), tstop).into()); }
    }
    let steps = w.t.len() as u64 - 1;
    // a linear step takes two solves, one if there's nothing to see
    let big = |row: &Vec<f64>| row[..f.names.len()].iter().any(|v| v.abs() > 1e-3);
    let dbl = if itl3 <= 1 { Doubling::Never }
        else if itl3 >= 1000 || (!nonlin && itl3 >= 3) { Doubling::Always }
        else if !nonlin && itl3 == 2 && w.rows.iter().all(big) { Doubling::Never }
        else { Doubling::Unknown };
    let k = check_axis(&w.t, &ax, dbl, nonlin)?;
    if !nonlin && iters as u64 > 2 + 2 * steps + 1 { return Err(format!("{} iterations for {} linear steps", iters, steps).into()); }
    c.count("steps_checked", k);
    if long { c.max("steps_of_a_long_run", k as f64); }
    if dbl == Doubling::Always { c.count("steps_with_known_length", k); }
    if nonlin { c.count("runs_with_diodes", 1); }
    if tstart > 0.0 {
        let part = c.run.run_with(&text, set(tstart));
        part.ran()?;
        let p = part.wave.clone().ok_or("no waveform file")?;
        let want: Vec<usize> = (0..w.t.len()).filter(|k| *k == 0 || w.t[*k] >= tstart).collect();
        let wt: Vec<f64> = want.iter().map(|k| w.t[*k]).collect();
        if p.t != wt { return Err(format!("with TSTART={:e} the rows are at {:?}..., instead of {:?}...", tstart, &p.t[..p.t.len().min(4)], &wt[..wt.len().min(4)]).into()); }
        let wr: Vec<Vec<f64>> = want.iter().map(|k| w.rows[*k].clone()).collect();
        if p.rows != wr { return Err("TSTART changes the solution".into()); }
        if part.stats != full.stats { return Err("TSTART changes the analysis".into()); }
        c.count("runs_with_a_start", 1);
    }
    if w.t.len() > 2 { c.nontrivial(&format!("{}{}", text, tstop)); }
    Ok(())
}

/// closed-form response of tau*u' + u = a*s(t), at rest at the start
pub fn response(w: &Wave, a: f64, tau: f64, t: f64) -> f64 {
    match w {
        Wave::Dc(v) => a * v,
        Wave::Sin { vo, va, f } => {
            let (om, x) = (2.0 * std::f64::consts::PI * f, 2.0 * std::f64::consts::PI * f * tau);
            a * vo + a * va * ((om * t).sin() - x * (om * t).cos() + x * (-t / tau).exp()) / (1.0 + x * x)
        }
        Wave::Pwl { pts, td, rep } => {
            let per = pts[pts.len() - 1].0;
            let mut u = if *td > 0.0 { 0.0 } else { a * pts[0].1 };
            // pieces (start, value there, slope)
            let mut now = *td;
            if t <= now { return u; }
            loop {
                for q in pts.windows(2) {
                    let ((t1, v1), (t2, v2)) = (q[0], q[1]);
                    let m = (v2 - v1) / (t2 - t1);
                    let len = (t2 - t1).min(t - now);
                    let e = (-len / tau).exp();
                    u = a * (v1 + m * len - m * tau) + (u - a * v1 + a * m * tau) * e;
                    now += t2 - t1;
                    if now >= t { return u; }
                }
                if !*rep || per <= 0.0 { break; }
            }
            let v = pts[pts.len() - 1].1;
            a * v + (u - a * v) * (-(t - now) / tau).exp()
        }
    }
}
/// largest slope, and the sum of the jumps up to time t
fn motion(w: &Wave, t: f64) -> (f64, f64) {
    match w {
        Wave::Dc(_) => (0.0, 0.0),
        Wave::Sin { va, f, .. } => ((va * 2.0 * std::f64::consts::PI * f).abs(), 0.0),
        Wave::Pwl { pts, td, rep } => {
            let m = pts.windows(2).map(|q| ((q[1].1 - q[0].1) / (q[1].0 - q[0].0)).abs()).fold(0.0, f64::max);
            let mut j = if *td > 0.0 { pts[0].1.abs() } else { 0.0 };
            let l = pts[pts.len() - 1];
            if *rep && l.0 > 0.0 { j += (l.1 - pts[0].1).abs() * ((t - td) / l.0).max(0.0).ceil(); }
            (m, j)
        }
    }
}

fn c20(c: &mut Ctx) -> Verdict {
    let tau0 = if c.r.chance(0.1) { c.r.logu(1e-16, 1e5) } else { c.r.logu(1e-9, 100.0) };
    let r1 = { let x = c.r.logu(10.0, 1e6); num::near(&mut c.r, x) };
    let r2 = { let x = r1.val * c.r.logu(0.1, 10.0); num::near(&mut c.r, x) };
    let cc = { let x = tau0 / r1.val; num::near(&mut c.r, x) };
    let amp = c.r.logu(0.01, 100.0) * c.r.sign();
    let tscale = tau0 * c.r.logu(0.3, 10.0);
    let kind = c.r.below(4);
    let src = match kind {
        0 | 1 => { let off = amp * c.r.unit() * c.r.sign(); let f = c.r.logu(0.2, 3.0) / tscale / 6.0; Src::Sin(num::near(&mut c.r, off), num::near(&mut c.r, amp), num::near(&mut c.r, f)) }
        2 => gen::pwl_smooth(&mut c.r, amp, tscale, false),
        _ => { // a step after a delay
            let td = tscale * c.r.unit();
            Src::Pwl { pts: vec![(num::int(0), num::near(&mut c.r, amp))], td: Some(num::near(&mut c.r, td)), r: None }
        }
    };
    let top = c.r.below(8);
    let mut isrc = false;
    let lit = |n: &Num| Val::Lit(n.clone());
    let (g, inn, out) = (s("0"), s("in"), s("out"));
    let res = |id: &str, a: &String, b: &String, v: &Num| Card::R { id: s(id), a: a.clone(), b: b.clone(), v: lit(v) };
    let cap = |a: &String, b: &String| Card::C { id: s("C1"), a: a.clone(), b: b.clone(), v: lit(&cc) };
    let mut cards = vec![];
    // state: voltage of the capacitor's a end to its b end = response(src, gain, tau)
    let (gain, tau);
    let (mut ca, mut cb) = (out.clone(), g.clone());
    let par = r1.val * r2.val / (r1.val + r2.val);
    match top {
        0 => { cards.push(res("R1", &inn, &out, &r1)); cards.push(cap(&out, &g)); gain = 1.0; tau = r1.val * cc.val; }
        1 => { cards.push(res("R1", &inn, &out, &r1)); cards.push(res("R2", &out, &g, &r2)); cards.push(cap(&out, &g)); gain = r2.val / (r1.val + r2.val); tau = par * cc.val; }
        2 => { cards.push(cap(&inn, &out)); cards.push(res("R1", &out, &g, &r1)); ca = inn.clone(); cb = out.clone(); gain = 1.0; tau = r1.val * cc.val; }
        3 => { cards.push(cap(&inn, &out)); cards.push(res("R1", &inn, &out, &r1)); cards.push(res("R2", &out, &g, &r2)); ca = inn.clone(); cb = out.clone(); gain = r1.val / (r1.val + r2.val); tau = par * cc.val; }
        4 => { cards.push(res("R1", &inn, &out, &r1)); cards.push(cap(&out, &s("m"))); cards.push(res("R2", &s("m"), &g, &r2)); cb = s("m"); gain = 1.0; tau = (r1.val + r2.val) * cc.val; }
        5 => { isrc = true; cards.push(res("R1", &out, &g, &r1)); cards.push(cap(&out, &g)); gain = -r1.val; tau = r1.val * cc.val; }
        6 => { isrc = true; cards.push(res("R1", &out, &g, &r1)); cards.push(res("R2", &out, &s("m"), &r2)); cards.push(cap(&s("m"), &g)); ca = s("m"); gain = -r1.val; tau = (r1.val + r2.val) * cc.val; }
        _ => { // floating between two dividers
            cards.push(res("R1", &inn, &out, &r1)); cards.push(res("R2", &out, &g, &r2)); cards.push(res("R3", &inn, &s("m"), &r2)); cards.push(res("R4", &s("m"), &g, &r1));
            cards.push(cap(&out, &s("m"))); cb = s("m"); gain = (r2.val - r1.val) / (r1.val + r2.val); tau = 2.0 * par * cc.val;
        }
    }
    let src = if isrc { if matches!(src, Src::Pwl { .. }) { let off = amp * c.r.unit(); let f = 0.2 / tscale; Src::Sin(num::near(&mut c.r, off), num::near(&mut c.r, amp), num::near(&mut c.r, f)) } else { src } } else { src };
    let wave = src.wave();
    if isrc { cards.push(Card::I { id: s("I1"), p: out.clone(), n: g.clone(), s: src }) } else { cards.push(Card::V { id: s("V1"), p: inn.clone(), n: g.clone(), s: src }) }
    if c.r.chance(0.4) {
        // in several parts, side by side
        let k = c.r.urange(2, 7);
        let old = cards.clone();
        cards.clear();
        for x in old {
            match x {
                Card::C { id, a, b, v: Val::Lit(n) } => for i in 0..k {
                    let (p, q) = if c.r.chance(0.5) { (a.clone(), b.clone()) } else { (b.clone(), a.clone()) };
                    cards.push(Card::C { id: format!("{}_{}", id, i), a: p, b: q, v: Val::Lit(num::exact(n.val / k as f64)) });
                },
                Card::R { id, a, b, v: Val::Lit(n) } if c.r.chance(0.3) => for i in 0..k { cards.push(Card::R { id: format!("{}_{}", id, i), a: a.clone(), b: b.clone(), v: Val::Lit(num::exact(n.val * k as f64)) }); },
                x => cards.push(x),
            }
        }
        c.count("with_parts_in_parallel", 1);
    }
    c.r.shuffle(&mut cards);
    let stop = { let x = tscale * c.r.logu(0.5, 4.0); num::near(&mut c.r, x) };
    let rmax = *c.r.pick(&[1.0, 1.0, 2.0, 0.5, 5.0]);
    let n0 = c.r.logu(8.0, 60.0);
    for level in 0..3 {
        let step = stop.val / n0 / rmax / [1.0, 4.0, 16.0][level];
        let d = flat_deck(cards.clone(), vec![Ctl::Tran(num::exact(step), stop.clone(), None), Ctl::Option(s("RMAX"), num::exact(rmax))]);
        let f = d.flatten()?;
        let text = d.plain();
        if level == 0 { c.note(&text); }
        let (w, f, _) = tran_ok(c, &text, &f, |_| {})?;
        let at = |n: &String| if is_gnd(n) { 0 } else { f.names.iter().position(|x| x == n).unwrap() };
        let (ia, ib) = (at(&ca), at(&cb));
        let hmax = w.t.windows(2).map(|q| q[1] - q[0]).fold(0.0, f64::max);
        if hmax > rmax * step * (1.0 + 2e-6) { return Err(format!("gap of {:e} in the waveform, RMAX*TSTEP is {:e}", hmax, rmax * step).into()); }
        if w.t.first() != Some(&0.0) || !w.t.last().map_or(false, |x| (x - stop.val).abs() <= 4.0 * EPS * stop.val) { return Err(format!("waveform covers {:?}..{:?}", w.t.first(), w.t.last()).into()); }
        if (w.t.len() as f64) < stop.val / (rmax * step) * (1.0 - 1e-9) - 1.0 { return Err(format!("only {} points", w.t.len()).into()); }
        let (m, j) = motion(&wave, stop.val);
        let bound = hmax * gain.abs() * (m * (1.0 + hmax / tau) + 2.0 * j / tau) * 1.02 + 1e-9 * gain.abs() * wave.max_abs() + 1e-11 * wave.max_abs() * if isrc { r1.val } else { 1.0 } + 1e-15;
        let mut worst: f64 = 0.0;
        for (k, row) in w.rows.iter().enumerate() {
            let u = row[ia] - row[ib];
            let e = response(&wave, gain, tau, w.t[k]);
            let rel = (u - e).abs() / bound;
            if !(rel <= 1.0) { return Err(format!("TSTEP={:e}: at t={:e} the capacitor has {:e} V, the exact response is {:e}, error bound {:e} (tau {:e}, gain {:e})", step, w.t[k], u, e, bound, tau, gain).into()); }
            worst = worst.max(rel);
        }
        c.count("points_compared", w.rows.len() as u64);
        c.max(&format!("error_over_bound_level{}", level), worst);
        if level == 2 && w.rows.len() > 8 && m + j > 0.0 { c.nontrivial(&text); }
    }
    Ok(())
}
