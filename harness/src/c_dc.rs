//! C01, C02, C06: DC solutions
use crate::deck::*;
use crate::driver::*;
use crate::gen::{self, Opts};
use crate::model::*;
use crate::num;
use crate::api::{self, Part};
use crate::c_tran::{check_rows, check_rows_from};
use crate::c_deck::{short_tran, solid};
use crate::gen::HOpts;
use crate::rng::Rng;
use crate::run::*;
use tiny_spice::analysis::{Configuration, Kind};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C01", quick: 120000, thorough: 600000, level: "exploration", cpu: 60, case: c01,
            rule: "random circuits of R, C, V, I (DC/SIN/PWL) of 1-40 nodes in shuffled card order, read from decks or built by hand; non-trivial: at least two non-ground nodes and a non-zero solution" },
        Check { id: "C02", quick: 150000, thorough: 600000, level: "exploration", cpu: 60, case: c02,
            rule: "diode circuits: ordinary ones (fed through resistances: chains, parallel, bridges, clamps, current-fed, random networks) that have to converge, hostile ones (any values, diodes across sources) and library circuits with other saturation currents, temperatures, tolerances and iteration limits, that have to satisfy the junction law or report failure; non-trivial: converged with a diode carrying more than 1 nA" },
        Check { id: "C06", quick: 100000, thorough: 600000, level: "exploration", cpu: 60, case: c06,
            rule: "circuits without a solution (contradictory voltage loops, currents into floating parts, steps that become singular, overflowing gains, diodes across rising sources) or with limits too tight to find it (ITL1, ITL4, RMIN), and solvable linear ones; the messages, the end time and the rows have to agree; non-trivial: a run that reported a failure, or had to" },
        Check { id: "C17", quick: 60000, thorough: 600000, level: "exploration", cpu: 60, case: c17,
            rule: "flat and hierarchical circuits thick with E and G: feedback, cascades, own output as control, grounded and shared terminals, op-amp stages, heavy loads; DC and every row of a transient; ill-conditioned ones left out by a pivot and amplification test; non-trivial: a controlled source whose control voltage is not zero" },
        Check { id: "C18", quick: 40000, thorough: 400000, level: "exploration", cpu: 60, case: c18,
            rule: "pairs of decks: shuffled cards, renamed nodes and designators, swapped R/C terminals, reversed and negated sources; flat and hierarchical, linear ones compared over whole transients, diode ones at DC; non-trivial: both ran and something is not zero" },
        Check { id: "C19", quick: 40000, thorough: 400000, level: "exploration", cpu: 60, case: c19,
            rule: "linear circuits with 2-6 sources: run with all sources, with a part and the rest of them, and with all scaled by a factor, rows combined; power balance and passivity of R/C/D circuits; range of node voltages with one grounded source; non-trivial: a non-zero response" },
        Check { id: "C23", quick: 200000, thorough: 2000000, level: "exploration", cpu: 60, case: c23,
            rule: "diodes with saturation currents 1e-18..1e-3 A at -150..250 C: histories of up to 12 voltages, then the same voltage again and again until it settles; every returned pair (g, i) has to be a tangent of the junction law; non-trivial: settled at a conductance above 1 pS" },
        Check { id: "C24", quick: 40000, thorough: 400000, level: "exploration", cpu: 60, case: c24,
            rule: "random flat circuits built through the library (add_* calls or elements pushed, nodes in any order) and read from the deck describing them, run with the same settings; ids, defaults, DC solutions and waveforms compared; non-trivial: something is not zero" },
    ]
}

pub fn tran_ctl(step: f64, stop: f64) -> Vec<Ctl> { vec![Ctl::Tran(num::exact(step), num::exact(stop), None)] }

fn c01(c: &mut Ctx) -> Verdict {
    let mode = c.r.below(10);
    let mut o = match mode { 0..=4 => Opts::linear(), 5..=7 => Opts::spread(), 8 => Opts { r: (1.0, 1.0), v: (1.0, 1.0), i: (1.0, 1.0), pv: 0.5, ..Opts::linear() }, _ => Opts { nodes: (10, 40), extra: (5, 60), ..Opts::linear() } };
    o.weird_names = c.r.chance(0.2);
    o.self_loops = true;
    if c.r.chance(0.2) { o.pv = 0.8; }
    if c.r.chance(0.1) { o.neg = 0.2; }
    if c.r.chance(0.1) { o.again = 0.2; }
    let cards = gen::cards(&mut c.r, &o);
    let via_tran = c.r.chance(0.4);
    let ctl = if via_tran { tran_ctl(1e-6, 2e-6) } else { vec![Ctl::Op] };
    let mut d = flat_deck(cards, ctl);
    if c.r.chance(0.25) { gen::wrap(&mut c.r, &mut d); c.count("hierarchical_decks", 1); }
    let mut f = d.flatten().map_err(|e| e.to_string())?;
    let text = d.plain();
    c.note(&text);
    if o.neg > 0.0 {
        if !solid(&f, &d.ctl[0]) { c.count("skipped_ill_posed", 1); return Ok(()); }
        c.count("with_negative_resistances", 1);
    }
    // linear resistive trees always have one solution; leave out those where rounding decides
    let x;
    if via_tran {
        let sim = c.run.run(&text);
        // a huge DC voltage across a capacitor leaves the steps that follow no digits: they are not the point here
        let huge = sim.errors() && sim.panic.is_none() && f.has_c() && sim.wave.as_ref().map_or(false, |w| w.rows.first().map_or(false, |x| x.iter().any(|v| v.abs() > 1e9)));
        if huge { c.count("later_steps_given_up_at_huge_voltages", 1); }
        let w = if huge { sim.wave.as_ref().unwrap() } else { sim.clean()? };
        f = w.model(&f)?;
        if w.rows.is_empty() || w.t[0] != 0.0 { return Err("no row at t=0".into()); }
        x = w.rows[0].clone();
        c.count("solved_as_transient_start", 1);
    } else {
        let (v, g, sim) = c.run.dc(&text, &f)?;
        f = g;
        if sim.errors() { return Err(format!("reported {}", sim.last_error()).into()); }
        x = v;
        c.count("solved_as_op", 1);
    }
    let ck = check_point(&f, &Point { t: 0.0, slack: 0.0, x: &x, prev: None }, &Tol::default())?;
    c.count("equations_checked", ck.rows as u64);
    c.max("residual_over_tolerance", ck.worst);
    if f.names.len() > 2 && x.iter().any(|v| *v != 0.0) { c.nontrivial(&text); }
    Ok(())
}

/// every diode is fed through resistances
fn ordinary_diodes(c: &mut Ctx) -> Vec<Card> {
    let mut v: Vec<Card> = vec![];
    let mut n = 0;
    let mut id = |l: &str| { n += 1; format!("{}{}", l, n) };
    let r = &mut c.r;
    let res = |r: &mut crate::rng::Rng, a: &str, b: &str, id: String| { let x = r.logu(100.0, 1e6); Card::R { id, a: s(a), b: s(b), v: Val::Lit(num::near(r, x)) } };
    let dio = |r: &mut crate::rng::Rng, a: &str, b: &str, rev: f64, id: String| { let (a, b) = if r.chance(rev) { (b, a) } else { (a, b) }; Card::D { id, p: s(a), n: s(b), model: None } };
    // where the drive comes from: a voltage through a resistance, or a current
    let feed = |r: &mut crate::rng::Rng, v: &mut Vec<Card>, node: &str, id: &mut dyn FnMut(&str) -> String| {
        if r.chance(0.7) {
            let src = format!("s_{}_{}", node, v.len());
            let amp = r.logu(0.1, 30.0) * if r.chance(0.75) { 1.0 } else { -1.0 };
            let (p, q) = if r.chance(0.8) { (src.clone(), s("0")) } else { (s("0"), src.clone()) };
            let o = Opts { ptime: 0.2, ..Opts::linear() };
            v.push(Card::V { id: id("V"), p, n: q, s: gen::waveform(r, amp, &o, true) });
            v.push(res(r, &src, node, id("R")));
        } else {
            let amp = r.logu(1e-6, 2e-2) * if r.chance(0.75) { 1.0 } else { -1.0 };
            v.push(Card::I { id: id("I"), p: s("0"), n: s(node), s: Src::Dc(num::near(r, amp)) });
            v.push(res(r, node, "0", id("R")));
        }
    };
    match r.below(6) {
        0 => { // chain
            feed(r, &mut v, "a0", &mut id);
            let k = r.urange(1, 6);
            for i in 0..k { let (p, q) = (format!("a{}", i), if i + 1 == k { s("0") } else { format!("a{}", i + 1) }); v.push(dio(r, &p, &q, 0.1, id("D"))); if i > 0 && r.chance(0.3) { v.push(res(r, &p, "0", id("R"))); } }
        }
        1 => { // parallel
            feed(r, &mut v, "a", &mut id);
            for _ in 0..r.urange(1, 6) { v.push(dio(r, "a", "0", 0.5, id("D"))); }
            if r.chance(0.3) { feed(r, &mut v, "a", &mut |l| format!("{}b", id(l))); }
        }
        2 => { // bridge
            feed(r, &mut v, "a", &mut id);
            let b = if r.chance(0.5) { s("0") } else { v.push(res(r, "b", "0", id("R"))); s("b") };
            v.push(dio(r, "a", "p", 0.0, id("D"))); v.push(dio(r, &b, "p", 0.0, id("D")));
            v.push(dio(r, "m", "a", 0.0, id("D"))); v.push(dio(r, "m", &b, 0.0, id("D")));
            v.push(res(r, "p", "m", id("R")));
            if r.chance(0.3) { v.push(res(r, "m", "0", id("R"))); }
        }
        3 => { // clamp
            feed(r, &mut v, "a", &mut id);
            let x = r.logu(0.5, 10.0);
            v.push(Card::V { id: id("V"), p: s("hi"), n: s("0"), s: Src::Dc(num::near(r, x)) });
            v.push(dio(r, "a", "hi", 0.0, id("D")));
            if r.chance(0.5) { v.push(dio(r, "0", "a", 0.0, id("D"))); }
            if r.chance(0.5) { v.push(res(r, "a", "b", id("R"))); v.push(dio(r, "b", "0", 0.5, id("D"))); }
        }
        4 => { // ladder
            feed(r, &mut v, "a0", &mut id);
            for i in 0..r.urange(1, 6) { let (p, q) = (format!("a{}", i), format!("a{}", i + 1)); v.push(res(r, &p, &q, id("R"))); v.push(dio(r, &q, "0", 0.4, id("D"))); if r.chance(0.3) { v.push(dio(r, &q, &p, 0.5, id("D"))); } }
        }
        _ => { // network
            let k = r.urange(1, 6);
            for i in 0..k { let a = format!("a{}", i); v.push(res(r, &a, "0", id("R"))); }
            for _ in 0..r.urange(1, 3) { let a = format!("a{}", r.below(k)); feed(r, &mut v, &a, &mut id); }
            for _ in 0..r.urange(0, 4) { let (a, b) = (r.below(k), r.below(k)); if a != b { v.push(res(r, &format!("a{}", a), &format!("a{}", b), id("R"))); } }
            for _ in 0..r.urange(1, 6) {
                let a = format!("a{}", r.below(k));
                let b = if r.chance(0.4) { s("0") } else { format!("a{}", r.below(k)) };
                if a != b { v.push(dio(r, &a, &b, 0.5, id("D"))); }
            }
        }
    }
    if r.chance(0.2) { let o = Opts { c: (1e-9, 1e-6), ..Opts::linear() }; let x = r.logu(o.c.0, o.c.1); let nodes: Vec<String> = v.iter().filter_map(|x| if let Card::D { p, .. } = x { Some(p.clone()) } else { None }).collect(); if !nodes.is_empty() { let n = r.pick(&nodes).clone(); v.push(Card::C { id: id("C"), a: n, b: s("0"), v: Val::Lit(num::near(r, x)) }); } }
    r.shuffle(&mut v);
    v
}

/// the largest diode current of a solution
fn diode_current(f: &Flat, x: &[f64]) -> f64 {
    f.els.iter().filter_map(|e| if let El::D { p, n, is, tc } = e { Some(is * (((x[*p] - x[*n]) / vt_for(*tc)).exp() - 1.0)) } else { None }).fold(0.0, f64::max)
}

fn c02(c: &mut Ctx) -> Verdict {
    let mode = c.r.below(10);
    let cards = if mode < 6 || mode == 9 { ordinary_diodes(c) } else {
        let mut o = if c.r.chance(0.5) { Opts::spread() } else { Opts { v: (0.1, 1000.0), r: (1e-3, 1e6), ..Opts::linear() } };
        o.wd = 4.0; o.self_loops = true; o.extra = (1, 12);
        if c.r.chance(0.2) { o.we = 1.0; o.wg = 1.0; o.pe = 0.1; }
        gen::cards(&mut c.r, &o)
    };
    let mut cfg = Configuration::new();
    cfg.kind = Some(Kind::DcOperatingPoint);
    if mode >= 8 {
        cfg.RELTOL = c.r.logu(1e-7, 1e-2);
        cfg.VNTOL = c.r.logu(1e-9, 1e-3);
        cfg.ABSTOL = c.r.logu(1e-12, 1e-6);
        cfg.ITL1 = *c.r.pick(&[0, 1, 2, 3, 5, 10, 20, 50, 100, 500]);
    }
    let mut d = flat_deck(cards, vec![Ctl::Op]);
    if mode < 8 && c.r.chance(0.25) { gen::wrap(&mut c.r, &mut d); c.count("hierarchical_decks", 1); }
    let mut f = d.flatten()?;
    let text = d.plain();
    c.note(&text);
    if mode >= 8 {
        let same = c.r.chance(0.3);
        let (is0, tc0) = (c.r.logu(1e-16, 1e-6), if c.r.chance(0.5) { 27.0 } else { c.r.unit() * 200.0 - 50.0 });
        for e in f.els.iter_mut() { if let El::D { is, tc, .. } = e { if same { *is = is0; *tc = tc0; } else { *is = c.r.logu(1e-16, 1e-6); *tc = c.r.unit() * 200.0 - 50.0; } } }
    }
    let tol = Tol { reltol: cfg.RELTOL, vntol: cfg.VNTOL, abstol: cfg.ABSTOL };
    let (sim, g) = if mode >= 8 {
        c.note(&format!("{:?}\nRELTOL={:e} VNTOL={:e} ABSTOL={:e} ITL1={}", f.els, cfg.RELTOL, cfg.VNTOL, cfg.ABSTOL, cfg.ITL1));
        let mut order: Vec<usize> = (0..f.names.len()).collect();
        c.r.shuffle(&mut order);
        let push = c.r.chance(0.5);
        let loose = if push && c.r.chance(0.3) { 0 } else { usize::MAX };
        let (ckt, ids) = api::build(&f, &order, push, loose, usize::MAX)?;
        let sim = c.run.analyse(&ckt, &cfg, Sim::default());
        (sim, api::as_built(&f, &ids))
    } else {
        let sim = c.run.run_with(&text, |c| c.kind = Some(Kind::DcOperatingPoint));
        sim.ran().or_else(|e| if sim.refused { Err(e) } else { Ok(()) })?;
        let g = if let Some(x) = &sim.dc { sim.dc_model(x, &f)? } else { f.clone() };
        (sim, g)
    };
    if sim.panic.is_some() || sim.errors() {
        if mode < 6 { return Err(format!("no operating point for an ordinary circuit: {} {}", sim.panic.clone().unwrap_or_default(), sim.last_error()).into()); }
        c.count("reported_failure", 1);
    } else {
        let x = sim.dc.clone().ok_or("no solution and no message")?;
        let ck = check_point(&g, &Point { t: 0.0, slack: 0.0, x: &x, prev: None }, &tol)?;
        c.count("converged", 1);
        if mode < 6 { c.count("ordinary_circuits", 1); } else if mode < 8 { c.count("hostile_circuits", 1); } else { c.count("library_circuits", 1); }
        c.count("equations_checked", ck.rows as u64);
        c.max("residual_over_tolerance", ck.worst);
        let di = diode_current(&g, &x);
        c.max("diode_current", di);
        if di > 1e-9 { c.nontrivial(&format!("{}{:?}", text, f.els)); }
    }
    if let Some((end, it)) = sim.stats {
        if it > cfg.ITL1 + 1 { return Err(format!("{} iterations with ITL1={}", it, cfg.ITL1).into()); }
        if end != 0.0 { return Err(format!("a DC analysis ends at {}", end).into()); }
        c.max("iterations", it as f64);
    }
    Ok(())
}

/// what an analysis says and what it recorded have to agree
pub fn honest(c: &mut Ctx, sim: &Sim, f: &Flat, tol: &Tol, tstop: f64, must_fail: Option<&str>) -> Result<bool, String> {
    if sim.refused { return Err(format!("deck refused: {}", sim.last_error())); }
    let failed = sim.panic.is_some() || sim.errors();
    if let Some(why) = must_fail { if !failed { return Err(format!("{}: no error was reported", why)); } }
    let no_dc = sim.out.contains("Divergent");
    if let Some(e) = &sim.wave_err { if sim.panic.is_none() { return Err(format!("waveform file: {}", e)); } }
    let stopped = sim.out.contains("breaking out of timestep loop") || sim.panic.is_some();
    if let Some((end, _)) = sim.stats {
        if !failed && end != tstop { return Err(format!("no error, but the run ended at {:e} instead of {:e}", end, tstop)); }
        if failed && !no_dc && !(end < tstop) { return Err(format!("a failed run reports its end at {:e}, TSTOP is {:e}", end, tstop)); }
        if stopped && !(end < tstop) { return Err(format!("a run that stopped reports its end at {:e}, TSTOP is {:e}", end, tstop)); }
        if let Some(w) = &sim.wave {
            if let Some(t) = w.t.last() { if *t > end { return Err(format!("a row at {:e}, after the reported end {:e}", t, end)); } }
            if !stopped && w.t.last() != Some(&tstop) { return Err(format!("last row at {:?}, TSTOP is {:e}", w.t.last(), tstop)); }
        }
    }
    if let Some(w) = &sim.wave {
        let g = w.model(f)?;
        check_rows_from(c, &g, w, tol, no_dc)?;
    } else if !failed { return Err("no waveform file and no message".into()); }
    Ok(failed)
}

fn c06(c: &mut Ctx) -> Verdict {
    let mode = c.r.below(12);
    let pow = |r: &mut crate::rng::Rng, lo: i64, hi: i64| 2f64.powi(r.range(lo, hi) as i32);
    let ex = |x: f64| Val::Lit(num::exact(x));
    let dc = |x: f64| Src::Dc(num::exact(x));
    let step = 2f64.powi(-10);
    let mut stop = step * c.r.range(2, 40) as f64;
    let mut cards: Vec<Card> = vec![];
    let mut must: Option<&str> = None;
    let mut dc_only = false;
    let mut cfg = Configuration::new();
    // an ordinary part around it, with exact numbers
    let around = |c: &mut Ctx, cards: &mut Vec<Card>, nodes: &[&str]| {
        for (i, n) in nodes.iter().enumerate() {
            let k = c.r.below(3);
            for j in 0..k {
                let other = if c.r.chance(0.5) { "0" } else { *c.r.pick(nodes) };
                let v = 2f64.powi(c.r.range(0, 12) as i32);
                cards.push(Card::R { id: format!("Ra{}_{}", i, j), a: s(n), b: s(other), v: Val::Lit(num::exact(v)) });
            }
        }
    };
    match mode {
        0 => { // voltages that contradict each other
            let k = c.r.urange(1, 4);
            let mut sum = 0.0;
            let nodes = ["0", "a", "b", "d"];
            // across one node that something else may hold
            let lone = k == 1 && c.r.chance(0.7);
            if lone {
                let r = pow(&mut c.r, 0, 10);
                if c.r.chance(0.7) { cards.push(Card::R { id: s("Rl"), a: s("a"), b: s("0"), v: ex(r) }); }
                else if c.r.chance(0.5) { let i = pow(&mut c.r, -10, 2); cards.push(Card::I { id: s("Il"), p: s("0"), n: s("a"), s: dc(i) }); }
            }
            for i in 0..k {
                let v = c.r.range(-16, 16) as f64 / 4.0;
                let v = if i + 1 == k && v + sum == 0.0 { v + 1.0 } else { v };
                sum += v;
                let (p, q) = if lone { ("a", "a") } else { (nodes[(i + 1) % k], nodes[i]) };
                // around the loop the voltages add up to something
                let (p, q, v) = if c.r.chance(0.5) { (p, q, v) } else { (q, p, -v) };
                cards.push(Card::V { id: format!("V{}", i), p: s(p), n: s(q), s: dc(v) });
            }
            around(c, &mut cards, &nodes[..k]);
            if c.r.chance(0.3) { let n = nodes[c.r.below(k)]; let v = pow(&mut c.r, -20, -10); cards.push(Card::C { id: s("C1"), a: s(n), b: s("0"), v: ex(v) }); }
            must = Some("the voltages around a loop do not add up to zero");
        }
        1 => { // a current into a part that leads nowhere
            let i = pow(&mut c.r, -10, 2) * c.r.sign();
            let v = pow(&mut c.r, 0, 10);
            cards.push(Card::R { id: s("R1"), a: s("x"), b: s("y"), v: ex(v) });
            cards.push(Card::I { id: s("I1"), p: s("0"), n: s("x"), s: dc(i) });
            if c.r.chance(0.5) { cards.push(Card::R { id: s("R2"), a: s("a"), b: s("0"), v: ex(1.0) }); cards.push(Card::V { id: s("V1"), p: s("a"), n: s("0"), s: dc(1.0) }); }
            let cap = pow(&mut c.r, -20, -10);
            if c.r.chance(0.5) { cards.push(Card::C { id: s("C1"), a: s("y"), b: s("0"), v: ex(cap) }); }
            must = Some("a current is forced into a part without a path to ground");
        }
        2 | 3 => { // too few iterations
            cards = ordinary_diodes(c);
            cfg.ITL1 = *c.r.pick(&[0, 1, 2, 3, 4, 6, 8]);
            dc_only = mode == 2;
            cfg.RMIN = 1e-3;
        }
        4 | 5 => { // steps that may not get short enough
            cards = ordinary_diodes(c);
            let amp = c.r.logu(1.0, 30.0);
            let f = c.r.logu(0.1, 3.0) / step;
            for x in cards.iter_mut() { if let Card::V { s, .. } = x { *s = Src::Sin(num::int(0), num::near(&mut c.r, amp), num::near(&mut c.r, f)); } }
            cfg.ITL4 = *c.r.pick(&[1, 2, 3, 4, 5, 8]);
            cfg.RMIN = c.r.logu(1e-4, 1.0);
            cfg.FT = 0.1 + 0.8 * c.r.unit();
        }
        6 => { // a step at which a controlled source cancels everything else
            let (gr, at) = (pow(&mut c.r, -6, 0), c.r.range(-2, 1) as i32);
            let gc = pow(&mut c.r, -4, 2);
            // steps are step/4, step/2, step, 2*step, 4*step
            let cap = gc * step * 2f64.powi(at);
            let k = gr + gc;
            stop = step * 64.0;
            cards.push(Card::R { id: s("R1"), a: s("x"), b: s("0"), v: ex(1.0 / gr) });
            cards.push(Card::C { id: s("C1"), a: s("x"), b: s("0"), v: ex(cap) });
            cards.push(if c.r.chance(0.5) { Card::G { id: s("G1"), p: s("0"), n: s("x"), cp: s("x"), cn: s("0"), k: ex(k) } } else { Card::G { id: s("G1"), p: s("x"), n: s("0"), cp: s("x"), cn: s("0"), k: ex(-k) } });
            cards.push(Card::I { id: s("I1"), p: s("0"), n: s("x"), s: Src::Sin(num::exact(0.0), num::exact(1.0), num::exact(3.0)) });
            if c.r.chance(0.4) { cards.push(Card::V { id: s("V1"), p: s("in"), n: s("0"), s: dc(1.0) }); cards.push(Card::R { id: s("R2"), a: s("in"), b: s("0"), v: ex(4.0) }); }
            must = Some("the equations are singular at one of the steps");
        }
        7 => { // gains that overflow part-way
            let n = c.r.urange(2, 5);
            let g = 10f64.powf(308.0 / n as f64 * c.r.logu(0.7, 1.5));
            let end = num::exact(step * 8.0);
            let start = c.r.chance(0.5);
            cards.push(Card::V { id: s("V1"), p: s("e0"), n: s("0"), s: Src::Pwl { pts: vec![(num::int(0), num::int(start as i64)), (end, num::exact(1e3))], td: None, r: None } });
            for i in 0..n {
                cards.push(Card::E { id: format!("E{}", i), p: format!("e{}", i + 1), n: s("0"), cp: format!("e{}", i), cn: s("0"), k: ex(g) });
                cards.push(Card::R { id: format!("R{}", i), a: format!("e{}", i + 1), b: s("0"), v: ex(1e3) });
            }
        }
        8 | 9 => { // a diode across something stiff that keeps rising
            let v = c.r.logu(1.0, 300.0) * c.r.sign();
            let r = c.r.logu(1e-6, 10.0);
            let (p, q) = if c.r.chance(0.5) { ("a", "0") } else { ("0", "a") };
            let t1 = num::exact(stop * c.r.unit().max(0.01));
            cards.push(Card::V { id: s("V1"), p: s("in"), n: s("0"), s: if c.r.chance(0.3) { Src::Dc(num::near(&mut c.r, v)) } else { Src::Pwl { pts: vec![(num::int(0), num::int(0)), (t1, num::near(&mut c.r, v))], td: None, r: None } } });
            let a = if c.r.chance(0.5) { cards.push(Card::R { id: s("R1"), a: s("in"), b: s("a"), v: Val::Lit(num::near(&mut c.r, r)) }); "a" } else { "in" };
            let k = c.r.urange(1, 2);
            for i in 0..k { cards.push(Card::D { id: format!("D{}", i), p: s(if p == "a" { a } else { p }), n: s(if q == "a" { a } else { q }), model: None }); }
            cfg.RMIN = 1e-3;
        }
        _ => { // nothing wrong
            let mut o = if c.r.chance(0.5) { Opts::spread() } else { Opts::linear() };
            o.tscale = step * 4.0;
            o.self_loops = true;
            cards = gen::cards(&mut c.r, &o);
        }
    }
    if mode != 0 && mode < 10 { c.r.shuffle(&mut cards); }
    let mut d = flat_deck(cards, vec![if dc_only { Ctl::Op } else { Ctl::Tran(num::exact(step), num::exact(stop), None) }]);
    if c.r.chance(0.15) { gen::wrap(&mut c.r, &mut d); c.count("hierarchical_decks", 1); }
    let f = d.flatten()?;
    let text = d.plain();
    c.note(&text);
    c.note(&format!("ITL1={} ITL4={} RMIN={:e} FT={:e}", cfg.ITL1, cfg.ITL4, cfg.RMIN, cfg.FT));
    let (itl1, itl4, rmin, ft) = (cfg.ITL1, cfg.ITL4, cfg.RMIN, cfg.FT);
    let sim = c.run.run_with(&text, |g| { g.ITL1 = itl1; g.ITL4 = itl4; g.RMIN = rmin; g.FT = ft; });
    let kind = ["contradictions", "floating", "few_iterations", "few_iterations", "short_steps", "short_steps", "singular_steps", "overflows", "stiff", "stiff", "solvable", "solvable"][mode];
    let failed;
    if dc_only {
        failed = sim.panic.is_some() || sim.errors();
        if !failed {
            let x = sim.dc.clone().ok_or("no solution and no message")?;
            let g = sim.dc_model(&x, &f)?;
            check_point(&g, &Point { t: 0.0, slack: 0.0, x: &x, prev: None }, &Tol::default())?;
        }
    } else {
        failed = honest(c, &sim, &f, &Tol::default(), stop, must)?;
    }
    // a step is only given up once there is none short enough: ITL4 iterations went into each
    if let (Some((end, it)), true) = (sim.stats, sim.out.contains("timestep too small")) {
        if end == 0.0 {
            let first = step * 0.25;
            let rmin = if rmin == Configuration::new().RMIN { 1e-9 } else { rmin }; // the default
            let tries = if rmin * step < first { ((rmin * step / first).ln() / ft.ln() - 1e-9).floor().max(0.0) + 1.0 } else { 1.0 };
            let least = tries.min(1e6) as usize * itl4;
            if it < least { return Err(format!("the first step was given up after {} iterations altogether; down to RMIN*TSTEP = {:e} there are {} steps of {} iterations to try", it, rmin * step, tries, itl4).into()); }
            c.count("steps_given_up", 1);
        }
    }
    if mode >= 10 && failed { return Err(format!("a solvable linear circuit was reported as failed: {}", sim.last_error()).into()); }
    if failed { c.count(&format!("failed_{}", kind), 1); } else { c.count(&format!("solved_{}", kind), 1); }
    if failed || must.is_some() { c.nontrivial(&text); }
    Ok(())
}

fn c17(c: &mut Ctx) -> Verdict {
    let style = c.r.below(5);
    let tran = c.r.chance(0.6);
    let ctl = if tran { short_tran(c, 1e-3) } else { Ctl::Op };
    let mut open = false;
    let mut d = if style == 0 {
        let mut o = HOpts::ordinary();
        o.ctrl = 0.5;
        o.params = 0.5;
        gen::hier(&mut c.r, &o)
    } else {
        let mut o = Opts::linear();
        o.we = 2.0; o.wg = 2.0; o.pe = 0.35; o.wi = 1.0; o.wc = 1.0;
        o.self_loops = c.r.chance(0.3);
        o.ptime = 0.4;
        match style {
            1 => { o.k = (0.01, 1e3); o.gm = (1e-6, 1e-2); }
            2 => { o.k = (0.1, 3.0); o.gm = (1e-6, 1e-3); o.r = (1e-3, 1e3); }
            3 => { o.k = (1.0, 1.0); o.gm = (1e-3, 1e-3); o.r = (1.0, 1e3); o.nodes = (1, 4); }
            _ => { o.k = (0.1, 3.0); o.gm = (1e-6, 1e-3); }
        }
        let mut cards = gen::cards(&mut c.r, &o);
        if style == 4 {
            // amplifier stages with feedback, one after the other
            let r = &mut c.r;
            let lit = |r: &mut Rng, lo: f64, hi: f64| { let x = r.logu(lo, hi); Val::Lit(num::near(r, x)) };
            let mut prev = { let ns: Vec<String> = cards.iter().filter_map(|x| match x { Card::R { a, .. } => Some(a.clone()), Card::V { p, .. } => Some(p.clone()), _ => None }).collect(); if ns.is_empty() { s("0") } else { r.pick(&ns).clone() } };
            for i in 0..r.urange(1, 3) {
                let (o, m) = (format!("o{}", i), format!("m{}", i));
                let top = if r.chance(0.3) { 1e9 } else { 1e5 };
                let gain = lit(r, 10.0, top);
                if r.chance(0.5) { // inverting
                    cards.push(Card::R { id: format!("Ri{}", i), a: prev.clone(), b: m.clone(), v: lit(r, 100.0, 1e5) });
                    cards.push(Card::R { id: format!("Rf{}", i), a: m.clone(), b: o.clone(), v: lit(r, 100.0, 1e5) });
                    let (cp, cn) = (s("0"), m.clone());
                    cards.push(if r.chance(0.5) { Card::E { id: format!("Eo{}", i), p: o.clone(), n: s("0"), cp, cn, k: gain } } else { Card::E { id: format!("Eo{}", i), p: s("0"), n: o.clone(), cp: cn, cn: cp, k: gain } });
                } else { // follower with gain
                    cards.push(Card::R { id: format!("Ri{}", i), a: s("0"), b: m.clone(), v: lit(r, 100.0, 1e5) });
                    cards.push(Card::R { id: format!("Rf{}", i), a: m.clone(), b: o.clone(), v: lit(r, 100.0, 1e5) });
                    cards.push(Card::E { id: format!("Eo{}", i), p: o.clone(), n: s("0"), cp: prev.clone(), cn: m, k: gain });
                }
                if r.chance(0.5) { cards.push(Card::R { id: format!("Rl{}", i), a: o.clone(), b: s("0"), v: lit(r, 1e-2, 1e3) }); }
                prev = o;
            }
            r.shuffle(&mut cards);
        }
        if style != 4 && c.r.chance(0.25) {
            // an open loop: a large gain, from a small voltage, into a load as stiff as may be
            // (nothing feeds back, so it is as solvable as the rest is)
            if !solid(&flat_deck(cards.clone(), vec![ctl.clone()]).flatten()?, &ctl) { c.count("skipped_ill_posed", 1); return Ok(()); }
            open = true;
            let r = &mut c.r;
            let lit = |r: &mut Rng, lo: f64, hi: f64| { let x = r.logu(lo, hi); Val::Lit(num::near(r, x)) };
            for i in 0..r.urange(1, 2) {
                let gain = r.logu(1e2, 1e9) * r.sign();
                let small = r.logu(0.01, 10.0) / gain;
                let (a, o) = (format!("oli{}", i), format!("olo{}", i));
                let base = if r.chance(0.75) { s("0") } else { format!("olb{}", i) };
                if base != "0" { cards.push(Card::R { id: format!("Rolb{}", i), a: base.clone(), b: s("0"), v: lit(r, 1e-3, 1e3) }); }
                let gnd = if r.chance(0.5) { base.clone() } else { s("0") };
                let (p, n, v) = if r.chance(0.5) { (a.clone(), base.clone(), small) } else { (base.clone(), a.clone(), -small) };
                cards.push(Card::V { id: format!("Vol{}", i), p, n, s: Src::Dc(num::near(r, v)) });
                let k = Val::Lit(num::near(r, gain));
                if r.chance(0.7) {
                    cards.push(Card::E { id: format!("Eol{}", i), p: o.clone(), n: gnd.clone(), cp: a, cn: base, k });
                } else {
                    let k = Val::Lit(num::near(r, gain * 1e-3));
                    cards.push(Card::G { id: format!("Gol{}", i), p: o.clone(), n: gnd.clone(), cp: a, cn: base, k });
                }
                cards.push(Card::R { id: format!("Rol{}", i), a: o, b: gnd, v: lit(r, 1e-3, 1e4) });
            }
            r.shuffle(&mut cards);
            c.count("open_loops", 1);
        }
        let mut d = flat_deck(cards, vec![]);
        if c.r.chance(0.2) { gen::wrap(&mut c.r, &mut d); c.count("hierarchical_decks", 1); }
        d
    };
    d.ctl = vec![ctl];
    let mut f = d.flatten()?;
    if f.count(|e| matches!(e, El::E { .. } | El::G { .. })) == 0 { return Ok(()); }
    if !open && !solid(&f, &d.ctl[0]) { c.count("skipped_ill_posed", 1); return Ok(()); }
    let text = d.text(&mut Layout::random(c.r.u64(), 0.0, true));
    c.note(&text);
    let mut live = false;
    let watch = |c: &mut Ctx, f: &Flat, x: &[f64], live: &mut bool| {
        for e in &f.els { if let El::E { cp, cn, k, .. } | El::G { cp, cn, k, .. } = e {
            c.count("controlled_values_observed", 1);
            if k * (x[*cp] - x[*cn]) != 0.0 { *live = true; }
        } }
    };
    if tran {
        let sim = c.run.run(&text);
        let w = sim.clean()?.clone();
        f = w.model(&f)?;
        check_rows(c, &f, &w, &Tol::default())?;
        for x in &w.rows { watch(c, &f, x, &mut live); }
    } else {
        let (x, g, sim) = c.run.dc(&text, &f)?;
        if sim.errors() { return Err(format!("reported {}", sim.last_error()).into()); }
        let ck = check_point(&g, &Point { t: 0.0, slack: 0.0, x: &x, prev: None }, &Tol::default())?;
        c.max("residual_over_tolerance", ck.worst);
        watch(c, &g, &x, &mut live);
    }
    if live { c.nontrivial(&text); }
    Ok(())
}

/// column of each quantity of `f` in a run of `g`: node name map and branch map
fn part<'a>(co: f64, f: &'a Flat, rows: &'a [Vec<f64>]) -> Part<'a> { Part { co, f, rows, map: None } }

fn rename_cards(r: &mut Rng, cards: &mut Vec<Card>, fixed: &[String], map: &mut Vec<(String, String)>, flips: &mut Vec<(String, bool)>, tag: &str) {
    for x in cards.iter_mut() {
        match x {
            Card::R { a, b, .. } | Card::C { a, b, .. } => if r.chance(0.5) { std::mem::swap(a, b); },
            Card::V { id, p, n, s } => { let fl = r.chance(0.5); if fl { std::mem::swap(p, n); *s = s.negated(); } flips.push((format!("{}{}", tag, id), fl)); }
            Card::I { p, n, s, .. } => if r.chance(0.5) { std::mem::swap(p, n); *s = s.negated(); },
            _ => {}
        }
        for n in x.nodes_mut() {
            if is_gnd(n) || fixed.contains(n) { continue; }
            let new = match map.iter().find(|m| m.0 == *n) {
                Some(m) => m.1.clone(),
                None => { let k = format!("{}{}", r.pick(&["z", "A", "n_", "9", "Gnd", "x"]), map.len() * 7 + 3); map.push((n.clone(), k.clone())); k }
            };
            *n = new;
        }
    }
}

fn c18(c: &mut Ctx) -> Verdict {
    let style = c.r.below(4);
    if style == 3 { return c18_hier(c); }
    let mut o = Opts::linear();
    o.ptime = 0.4;
    o.we = 0.5; o.wg = 0.7; o.pe = 0.1; o.k = (0.1, 3.0); o.gm = (1e-6, 1e-4); o.c = (1e-9, 1e-6);
    let mut cards = if style == 2 { ordinary_diodes(c) } else { gen::cards(&mut c.r, &o) };
    if style == 2 && c.r.chance(0.05) {
        // very many of them
        let r = &mut c.r;
        cards.push(Card::V { id: s("V9"), p: s("rail"), n: s("0"), s: Src::Dc(num::int(10)) });
        for i in 0..r.urange(33, 60) {
            let (a, k) = (format!("da{}", i), format!("dk{}", i));
            let (x, y) = (r.logu(300.0, 1e4), r.logu(300.0, 1e4));
            cards.push(Card::R { id: format!("Rda{}", i), a: s("rail"), b: a.clone(), v: Val::Lit(num::near(r, x)) });
            cards.push(Card::R { id: format!("Rdk{}", i), a: k.clone(), b: s("0"), v: Val::Lit(num::near(r, y)) });
            let (p, n) = if r.chance(0.8) { (a, k) } else { (k, a) };
            cards.push(Card::D { id: format!("Dd{}", i), p, n, model: None });
        }
        c.count("circuits_with_very_many_diodes", 1);
    }
    // unambiguous designators, to find the sources again
    for (i, x) in cards.iter_mut().enumerate() { match x { Card::V { id, .. } | Card::E { id, .. } => *id = format!("{}{}", &id[..1], i), _ => {} } }
    let ctl = if style == 2 { Ctl::Op } else { short_tran(c, 1e-3) };
    let da = flat_deck(cards.clone(), vec![ctl.clone()]);
    let fa = da.flatten()?;
    if !solid(&fa, &ctl) { c.count("skipped_ill_posed", 1); return Ok(()); }
    let mut other = cards.clone();
    let (mut map, mut flips) = (vec![], vec![]);
    rename_cards(&mut c.r, &mut other, &[], &mut map, &mut flips, "");
    c.r.shuffle(&mut other);
    // where each source went
    let order = |cards: &Vec<Card>| -> Vec<String> {
        let mut v: Vec<String> = cards.iter().filter_map(|x| if let Card::V { id, .. } = x { Some(id.clone()) } else { None }).collect();
        v.extend(cards.iter().filter_map(|x| if let Card::E { id, .. } = x { Some(id.clone()) } else { None }));
        v
    };
    let (oa, ob) = (order(&cards), order(&other));
    if c.r.chance(0.7) { for (i, x) in other.iter_mut().enumerate() { match x { Card::R { id, .. } | Card::C { id, .. } | Card::D { id, .. } | Card::V { id, .. } | Card::I { id, .. } | Card::E { id, .. } | Card::G { id, .. } => *id = format!("{}{}", &id[..1], 1000 - i), _ => {} } } }
    let db = flat_deck(other, vec![ctl]);
    let fb = db.flatten()?;
    let (ta, tb) = (da.plain(), db.plain());
    c.note(&ta); c.note(&tb);
    let run = |c: &mut Ctx, text: &str, f: &Flat| -> Result<(Vec<f64>, Vec<Vec<f64>>, Flat), String> {
        if style == 2 { let (x, g, sim) = c.run.dc(text, f)?; if sim.errors() { return Err(sim.last_error()); } Ok((vec![0.0], vec![x], g)) }
        else { let sim = c.run.run(text); let w = sim.clean()?; Ok((w.t.clone(), w.rows.clone(), w.model(f)?)) }
    };
    let (t1, ra, ga) = run(c, &ta, &fa)?;
    let (t2, rb, gb) = run(c, &tb, &fb)?;
    if t1 != t2 { return Err(format!("different time axes: {} and {} rows", t1.len(), t2.len()).into()); }
    let mut to = vec![];
    let mut sign = vec![];
    for (i, n) in ga.names.iter().enumerate() {
        let m = if i == 0 { gb.names[0].clone() } else { map.iter().find(|m| m.0 == *n).map_or(n.clone(), |m| m.1.clone()) };
        to.push(gb.names.iter().position(|x| *x == m).ok_or(format!("node {} is gone", m))?);
        sign.push(1.0);
    }
    for id in &oa {
        to.push(gb.names.len() + ob.iter().position(|x| x == id).unwrap());
        sign.push(if flips.iter().any(|f| f.0 == *id && f.1) { -1.0 } else { 1.0 });
    }
    let (rows, worst) = api::vanish(&[part(1.0, &ga, &ra), Part { co: -1.0, f: &gb, rows: &rb, map: Some((&to, &sign)) }], &t1, &Tol::default(), &|i| label(&ga, i))?;
    c.count("rows_compared", rows as u64);
    c.max("difference_over_bound", worst);
    if style == 2 { c.count("diode_circuits", 1); }
    if rows > 0 && ra.iter().any(|r| r.iter().any(|v| v.abs() > 1e-12)) { c.nontrivial(&ta); }
    Ok(())
}

fn c18_hier(c: &mut Ctx) -> Verdict {
    let mut o = HOpts::ordinary();
    o.ctrl = 0.1;
    let mut da = gen::hier(&mut c.r, &o);
    let ctl = short_tran(c, o.tscale);
    da.ctl.push(ctl.clone());
    let fa = da.flatten()?;
    if !solid(&fa, &ctl) { c.count("skipped_ill_posed", 1); return Ok(()); }
    let mut db = da.clone();
    // the cards inside change places, ends and names; nets of the top level keep theirs
    let mut tops: Vec<Item> = vec![];
    for it in db.items.iter_mut() {
        match it {
            Item::Sub(sd) => {
                let (mut map, mut flips) = (vec![], vec![]);
                if c.r.chance(0.5) { rename_cards(&mut c.r, &mut sd.cards, &[], &mut map, &mut flips, ""); for p in sd.ports.iter_mut() { if let Some(m) = map.iter().find(|m| m.0 == *p) { *p = m.1.clone(); } } }
                c.r.shuffle(&mut sd.cards);
            }
            Item::Card(x) => tops.push(Item::Card(x.clone())),
        }
    }
    c.r.shuffle(&mut db.items);
    let fb = db.flatten()?;
    let (ta, tb) = (da.plain(), db.plain());
    c.note(&ta); c.note(&tb);
    let (sa, sb) = (c.run.run(&ta), c.run.run(&tb));
    let (wa, wb) = (sa.clean()?.clone(), sb.clean()?.clone());
    if wa.t != wb.t { return Err("different time axes".into()); }
    let (ga, gb) = (wa.model(&fa)?, wb.model(&fb)?);
    check_rows(c, &gb, &wb, &Tol::default())?;
    // the nets of the top level; the others have new names, but their voltages are the same ones
    let mut n = 0;
    for (i, name) in ga.names.iter().enumerate() {
        if name.contains('.') { continue; }
        if let Some(j) = gb.names.iter().position(|x| x == name) {
            let col: Vec<f64> = wa.rows.iter().map(|r| r[i]).collect();
            let scale = wa.rows.iter().flat_map(|r| r[..ga.names.len()].iter()).fold(0.0f64, |s, v| s.max(v.abs()));
            for (k, r) in wb.rows.iter().enumerate() {
                if !((r[j] - col[k]).abs() <= 1e-4 * scale + 1e-9) { return Err(format!("row {}: v({}) is {:e} in one and {:e} in the other", k, name, col[k], r[j]).into()); }
                n += 1;
            }
        } else { return Err(format!("net {} is gone", name).into()); }
    }
    let sorted = |f: &Flat, w: &Wavefile| -> Vec<f64> { let mut v: Vec<f64> = w.rows.last().map_or(vec![], |r| r[..f.names.len()].to_vec()); v.sort_by(|a, b| a.partial_cmp(b).unwrap()); v };
    let scale = wa.rows.iter().flat_map(|r| r[..ga.names.len()].iter()).fold(0.0f64, |s, v| s.max(v.abs()));
    for (x, y) in sorted(&ga, &wa).iter().zip(sorted(&gb, &wb)) { if !((x - y).abs() <= 1e-4 * scale + 1e-9) { return Err(format!("some net is at {:e} in one and {:e} in the other", x, y).into()); } }
    c.count("top_level_values_compared", n);
    c.nontrivial(&ta);
    Ok(())
}

fn c19(c: &mut Ctx) -> Verdict {
    if c.r.chance(0.3) { return c19_power(c); }
    let mut o = Opts::linear();
    o.ptime = 0.5;
    o.pv = 0.35; o.wi = 3.0; o.wc = 2.0; o.c = (1e-9, 1e-6);
    if c.r.chance(0.5) { o.we = 0.7; o.wg = 1.0; o.pe = 0.15; o.k = (0.1, 3.0); o.gm = (1e-6, 1e-4); }
    let cards = gen::cards(&mut c.r, &o);
    let ctl = short_tran(c, 1e-3);
    let d = flat_deck(cards.clone(), vec![ctl.clone()]);
    let f = d.flatten()?;
    if !solid(&f, &ctl) { c.count("skipped_ill_posed", 1); return Ok(()); }
    let scaled = |x: &Src, k: f64| -> Src {
        let m = |n: &num::Num| num::exact(n.val * k);
        match x {
            Src::Dc(n) => Src::Dc(m(n)),
            Src::Sin(a, b, f) => Src::Sin(m(a), m(b), f.clone()),
            Src::Pwl { pts, td, r } => Src::Pwl { pts: pts.iter().map(|(t, v)| (t.clone(), m(v))).collect(), td: td.clone(), r: r.clone() },
        }
    };
    let with = |f: &dyn Fn(usize) -> f64| -> Deck {
        let mut i = 0;
        let v = cards.iter().map(|x| { let mut x = x.clone(); if let Card::V { s, .. } | Card::I { s, .. } = &mut x { *s = scaled(s, f(i)); i += 1; } x }).collect();
        flat_deck(v, vec![ctl.clone()])
    };
    let mask = c.r.u64();
    let subset = |b: bool| move |i: usize| if (mask >> (i % 60)) & 1 == b as u64 { 1.0 } else { 0.0 };
    let k = if c.r.chance(0.3) { 2f64.powi(c.r.range(-8, 8) as i32) * c.r.sign() } else { c.r.logu(1e-3, 1e3) * c.r.sign() };
    let decks = [with(&|_| 1.0), with(&subset(false)), with(&subset(true)), with(&|_| k)];
    let mut runs = vec![];
    for (i, d) in decks.iter().enumerate() {
        let text = d.plain();
        if i == 0 || i == 3 { c.note(&text); }
        let g = d.flatten()?;
        let sim = c.run.run(&text);
        let w = sim.clean()?.clone();
        let g = w.model(&g)?;
        runs.push((g, w));
    }
    for (_, w) in &runs { if w.t != runs[0].1.t || w.names != runs[0].1.names { return Err("the runs differ in their times or columns".into()); } }
    let t = runs[0].1.t.clone();
    let g0 = runs[0].0.clone();
    let (n1, w1) = api::vanish(&[part(1.0, &runs[0].0, &runs[0].1.rows), part(-1.0, &runs[1].0, &runs[1].1.rows), part(-1.0, &runs[2].0, &runs[2].1.rows)], &t, &Tol::default(), &|i| label(&g0, i)).map_err(|e| format!("superposition: {}", e))?;
    let (n2, w2) = api::vanish(&[part(k, &runs[0].0, &runs[0].1.rows), part(-1.0, &runs[3].0, &runs[3].1.rows)], &t, &Tol::default(), &|i| label(&g0, i)).map_err(|e| format!("scaling: {}", e))?;
    c.count("rows_superposed", n1 as u64);
    c.count("rows_scaled", n2 as u64);
    c.max("superposition_over_bound", w1);
    c.max("scaling_over_bound", w2);
    if runs[0].1.rows.iter().any(|r| r.iter().any(|v| v.abs() > 1e-9)) { c.nontrivial(&decks[0].plain()); }
    Ok(())
}

fn c19_power(c: &mut Ctx) -> Verdict {
    let single = c.r.chance(0.4);
    let diodes = !single && c.r.chance(0.4);
    let mut o = Opts::linear();
    o.ptime = 0.5; o.wc = 2.0; o.c = (1e-9, 1e-6);
    if single { o.pv = 0.0; o.wi = 0.0; o.ptime = 0.0; }
    let mut cards = if diodes { ordinary_diodes(c) } else { gen::cards(&mut c.r, &o) };
    let mut vs = 0.0;
    if single {
        cards.retain(|x| !matches!(x, Card::V { .. }));
        let names: Vec<String> = cards.iter().filter_map(|x| if let Card::R { a, b, .. } = x { Some([a.clone(), b.clone()]) } else { None }).flatten().filter(|n| !is_gnd(n)).collect();
        // every node keeps a path to ground
        let all: Vec<String> = { let mut v: Vec<String> = cards.iter_mut().flat_map(|x| x.nodes_mut().into_iter().map(|n| n.clone())).filter(|n| !is_gnd(n)).collect(); v.sort(); v.dedup(); v };
        for (i, n) in all.iter().enumerate() { let x = c.r.logu(1.0, 1e6); cards.push(Card::R { id: format!("Rg{}", i), a: n.clone(), b: s("0"), v: Val::Lit(num::near(&mut c.r, x)) }); }
        let at = if names.is_empty() { s("n1") } else { c.r.pick(&names).clone() };
        let x = c.r.logu(0.1, 100.0) * c.r.sign();
        let v = num::near(&mut c.r, x);
        vs = v.val;
        if c.r.chance(0.5) { cards.push(Card::V { id: s("Vs"), p: at, n: s("0"), s: Src::Dc(v) }); }
        else { cards.push(Card::V { id: s("Vs"), p: s("0"), n: at, s: Src::Dc(num::exact(-v.val)) }); }
        if !cards.iter().any(|x| matches!(x, Card::R { .. })) { return Ok(()); }
    }
    let ctl = if diodes { Ctl::Op } else { short_tran(c, 1e-3) };
    let d = flat_deck(cards, vec![ctl]);
    let text = d.plain();
    c.note(&text);
    let f = d.flatten()?;
    let (t, rows, f) = if diodes { let (x, g, sim) = c.run.dc(&text, &f)?; if sim.errors() { return Err(sim.last_error().into()); } (vec![0.0], vec![x], g) }
        else { let sim = c.run.run(&text); let w = sim.clean()?; (w.t.clone(), w.rows.clone(), w.model(&f)?) };
    let n = f.names.len();
    for (k, x) in rows.iter().enumerate() {
        let prev = if k == 0 { None } else { Some((rows[k - 1].as_slice(), t[k - 1])) };
        let ck = check_point(&f, &Point { t: t[k], slack: 4.0 * EPS * t[k], x, prev }, &Tol::default())?;
        // power out of the sources and into everything else
        let (mut out, mut into, mut tol) = (0.0, 0.0, 1e-18);
        let mut br = n;
        for e in &f.els {
            match e {
                El::V { w, .. } => { let (lo, hi) = w.range(t[k], 4.0 * EPS * t[k]); out -= 0.5 * (lo + hi) * x[br]; tol += (hi - lo) * x[br].abs(); br += 1; }
                El::I { p, n: q, w } => { let (lo, hi) = w.range(t[k], 4.0 * EPS * t[k]); out -= 0.5 * (lo + hi) * (x[*p] - x[*q]); tol += (hi - lo) * (x[*p] - x[*q]).abs(); }
                El::R { a, b, v } => into += (x[*a] - x[*b]).powi(2) / v,
                El::D { p, n: q, is, tc } => { let v = x[*p] - x[*q]; let i = is * ((v / vt_for(*tc)).exp() - 1.0); if v * i < 0.0 { return Err("a diode delivers energy".into()); } into += v * i; }
                El::C { a, b, v } => if k > 0 { let (v1, v0) = (x[*a] - x[*b], rows[k - 1][*a] - rows[k - 1][*b]); into += v1 * v * (v1 - v0) / (t[k] - t[k - 1]); },
                _ => {}
            }
        }
        for i in 0..f.dim() { tol += 1.01 * ck.tol[i] * x[i].abs(); }
        if !((out - into).abs() <= tol + 1e-9 * into.abs()) { return Err(format!("row {}: the sources deliver {:e} W, {:e} W are absorbed (tolerance {:e})", k, out, into, tol).into()); }
        c.count("power_balances", 1);
    }
    if single {
        let e = 1e-6 * vs.abs();
        for i in 0..n { let v = rows[0][i]; if !(v >= vs.min(0.0) - e && v <= vs.max(0.0) + e) { return Err(format!("v({}) is {:e} with a single source of {:e} V", f.names[i], v, vs).into()); } }
        c.count("single_source_ranges", 1);
    }
    if rows.iter().any(|r| r.iter().any(|v| v.abs() > 1e-9)) { c.nontrivial(&text); }
    Ok(())
}

/// Is (g, i) a tangent of the junction law at all, or at v? Relative misses.
fn tangent(is: f64, vt: f64, g: f64, i: f64, at: Option<f64>) -> bool {
    let gm = GMIN;
    let near = |a: f64, b: f64, m: f64| (a - b).abs() <= m;
    let mut v = (g * vt / is).ln() * vt; // where the conductance is that
    if let Some(x) = at {
        let e = (x / vt).exp();
        let want = (is / vt * e).max(gm);
        if !near(g, want, 1e-9 * (1.0 + (x / vt).abs()) * want) { return false; }
        let wi = is * (e - 1.0) - want * x;
        return near(i, wi, 1e-9 * (1.0 + (x / vt).abs()) * (is * e + is + want * x.abs()));
    }
    if g > gm * (1.0 + 1e-12) {
        let e = g * vt / is;
        let wi = is * (e - 1.0) - g * v;
        return near(i, wi, 1e-9 * (2.0 + (v / vt).abs()) * (is * e + is + g * v.abs()));
    }
    // the smallest conductance: somewhere below
    if !near(g, gm, 1e-9 * gm) { return false; }
    v = (gm * vt / is).ln() * vt;
    let lowest = is * ((v / vt).exp() - 1.0) - gm * v;
    i >= lowest - 1e-9 * (lowest.abs() + gm * v.abs() + is)
}

fn c23(c: &mut Ctx) -> Verdict {
    let deck = c.r.chance(0.01);
    let is = if deck { 1e-9 } else if c.r.chance(0.2) { *c.r.pick(&[1e-3, 1e-9, 1e-12, 1e-15, 1e-18]) } else { c.r.logu(1e-18, 1e-3) };
    let tc = if deck { 27.0 } else if c.r.chance(0.3) { 27.0 } else { c.r.unit() * 400.0 - 150.0 };
    let d = if deck {
        let (sim, x) = c.run.read("t\nV1 a 0 1\nR1 a b 1k\nD1 b 0\n.control\nop\n.endc\n");
        sim.ran()?;
        let (ckt, _) = x.ok_or("no circuit")?;
        let k = ckt.elements.iter().find_map(|e| if let tiny_spice::circuit::Element::D(d) = e { Some(d.clone()) } else { None }).ok_or("no diode")?;
        c.count("deck_diodes", 1);
        k
    } else { tiny_spice::circuit::Diode::new("D1", 1, 0, is, tc) };
    // candidates for its thermal voltage: physics, with constants of usual precision, and the simulator's own
    let mut vts = vec![];
    for t0 in [273.15, 273.0, 273.16] { for k in [1.380649e-23, 1.3806488e-23, 1.38e-23, 1.381e-23] { for q in [1.602176634e-19, 1.602e-19, 1.603e-19, 1.6e-19] { vts.push(k * (t0 + tc) / q); } } }
    let own = vt_for(tc);
    // a voltage with a representable current, whichever thermal voltage it is
    let vlow = vts[0].min(own);
    let any = |r: &mut Rng| -> f64 {
        let top = (300f64.min((1e30 / is).ln())) * vlow;
        match r.below(6) { 0 => -r.logu(1e-6, 1e3), 1 => 0.0, 2 => r.unit() * top * 0.1, 3 => r.unit() * vlow * 40.0, 4 => (r.unit() - 0.5) * vlow * 4.0, _ => r.unit() * top }
    };
    let n = c.r.urange(0, 12);
    let mut seen = vec![];
    c.note(&format!("is={:e} tdegc={:e}", is, tc));
    for _ in 0..n {
        let v = any(&mut c.r);
        let (g, i) = d.linearize(v, any(&mut c.r));
        c.note(&format!("linearize({:e}) = {:e}, {:e}", v, g, i));
        seen.push((v, g, i));
    }
    let v = any(&mut c.r);
    let mut last = None;
    let (mut calls, mut same) = (0, 0);
    loop {
        let p = d.linearize(v, any(&mut c.r));
        calls += 1;
        seen.push((v, p.0, p.1));
        if !p.0.is_finite() || !p.1.is_finite() { return Err(format!("linearize({:e}) gave {:e}, {:e}", v, p.0, p.1).into()); }
        if last == Some(p) { same += 1; if same >= 4 { break; } } else { same = 0; }
        if calls > 2000 { return Err(format!("linearize({:e}) does not settle", v).into()); }
        last = Some(p);
    }
    let (g, i) = last.unwrap();
    c.note(&format!("settled after {} calls at {:e}: {:e}, {:e}", calls, v, g, i));
    for (v, g, i) in &seen { if !g.is_finite() || !i.is_finite() { return Err(format!("linearize({:e}) gave {:e}, {:e}", v, g, i).into()); } if *g < GMIN * (1.0 - 1e-12) { return Err(format!("linearize({:e}) gave a conductance of {:e}", v, g).into()); } }
    c.count("linearisations_observed", seen.len() as u64);
    c.max("calls_until_settled", calls as f64);
    let fits = |vt: f64| tangent(is, vt, g, i, Some(v)) && seen.iter().all(|(_, g, i)| tangent(is, vt, *g, *i, None));
    if g > GMIN { c.nontrivial(&format!("{:e} {:e} {:e}", is, tc, v)); }
    if vts.iter().any(|vt| fits(*vt)) { return Ok(()); }
    if fits(own) {
        return Err(Fail::Known("thermal-voltage-363".into(), format!("at {} C the thermal voltage is {:.4} V, that of {} C, instead of {:.4} V", tc, own, tc + 89.85, vts[0])));
    }
    Err(format!("saturation current {:e}, {} C: linearize({:e}) settles at {:e} S and {:e} A, no tangent of the junction law there, or a pair on the way is none", is, tc, v, g, i).into())
}

fn c24(c: &mut Ctx) -> Verdict {
    let diodes = c.r.chance(0.25);
    let mut o = Opts::linear();
    o.ptime = 0.5; o.wc = 2.0; o.c = (1e-9, 1e-6); o.wg = 0.7; o.we = 0.5; o.pe = 0.1; o.k = (0.1, 3.0); o.gm = (1e-6, 1e-4);
    o.weird_names = c.r.chance(0.3);
    if c.r.chance(0.15) { o.again = 0.2; }
    let cards = if diodes { ordinary_diodes(c) } else { gen::cards(&mut c.r, &o) };
    // no settings at all: what they are by default
    let mut ctl = match c.r.below(4) { 0 => vec![], 1 if !diodes => vec![Ctl::Op], _ if diodes => vec![Ctl::Op], _ => vec![short_tran(c, 1e-3)] };
    let late = c.r.chance(0.15);
    if late { if let Some(Ctl::Tran(step, stop, start)) = ctl.first_mut() { let x = match c.r.below(3) { 0 => step.val * c.r.unit(), 1 => stop.val * c.r.unit(), _ => stop.val * (1.0 + c.r.unit()) }; *start = Some(num::near(&mut c.r, x)); } }
    let d = flat_deck(cards, ctl.clone());
    let f = d.flatten()?;
    if !solid(&f, ctl.first().unwrap_or(&Ctl::Op)) { c.count("skipped_ill_posed", 1); return Ok(()); }
    let text = d.plain();
    c.note(&text);
    let (sim, x) = c.run.read(&text);
    sim.ran()?;
    let (dckt, dcfg) = x.ok_or("no circuit")?;
    // the hand-made settings
    let mut cfg = Configuration::new();
    match ctl.first() {
        Some(Ctl::Op) => if c.r.chance(0.5) { cfg.set_dc_operating_point() } else { cfg.kind = Some(Kind::DcOperatingPoint) },
        Some(Ctl::Tran(st, en, b)) => cfg.set_transient(en.val, st.val, b.as_ref().map_or(0.0, |b| b.val)),
        _ => {}
    }
    let all = |g: &Configuration| format!("kind={} GMIN={:e} TDEGC={:e} RELTOL={:e} VNTOL={:e} ABSTOL={:e} ITL1={} TSTART={:e} TSTOP={:e} TSTEP={:e} FS={:e} FT={:e} RMIN={:e} RMAX={:e} ITL3={} ITL4={}",
        g.kind.as_ref().map_or("none".to_string(), |k| k.to_string()), g.GMIN, g.TDEGC, g.RELTOL, g.VNTOL, g.ABSTOL, g.ITL1, g.TSTART, g.TSTOP, g.TSTEP, g.FS, g.FT, g.RMIN, g.RMAX, g.ITL3, g.ITL4);
    // values written with a suffix may be off by the rounding of the multiplication
    if let Some(Ctl::Tran(..)) = ctl.first() {
        for (a, b) in [(&mut cfg.TSTEP, dcfg.TSTEP), (&mut cfg.TSTOP, dcfg.TSTOP), (&mut cfg.TSTART, dcfg.TSTART)] { if (*a - b).abs() <= 4.0 * EPS * b.abs() { *a = b; } }
    }
    if all(&cfg) != all(&dcfg) { return Err(format!("settings differ: by hand {}, from the deck {}", all(&cfg), all(&dcfg)).into()); }
    c.count("settings_compared", 1);
    let mut order: Vec<usize> = (0..f.names.len()).collect();
    c.r.shuffle(&mut order);
    let push = c.r.chance(0.4);
    let loose = if c.r.chance(0.3) { c.r.below(f.els.len() + 1) } else { usize::MAX };
    let idents = *c.r.pick(&[usize::MAX, usize::MAX, 1, 2]);
    let (mut ckt, ids) = api::build(&f, &order, push, loose, idents)?;
    for k in 1..f.names.len() { if ckt.add_node(&f.names[k]) != ids[k] { return Err(format!("add_node({}) gives another id for a known name", f.names[k]).into()); } }
    for n in ["0", "gnd", "GND"] { if c.r.chance(0.1) { let k = ckt.add_node(n); if k != 0 { return Err(format!("add_node({}) gives {}", n, k).into()); } } }
    if ckt.count_nodes() != f.names.len() { return Err(format!("{} nodes after adding {}", ckt.count_nodes(), f.names.len()).into()); }
    if ctl.is_empty() { // what happens without a command is the same
        let (a, b) = (c.run.analyse(&ckt, &cfg, Sim::default()), c.run.analyse(&dckt, &dcfg, sim));
        if a.stats.is_some() != b.stats.is_some() || a.wave.is_some() != b.wave.is_some() { return Err("without a command, one is simulated and the other is not".into()); }
        return Ok(());
    }
    let tran = matches!(ctl[0], Ctl::Tran(..));
    let a = c.run.analyse(&ckt, &cfg, Sim::default());
    let b = c.run.analyse(&dckt, &dcfg, sim);
    let g = api::as_built(&f, &ids);
    let (t, ra, rb, gb);
    if tran {
        let (wa, wb) = (a.clean()?.clone(), b.clean()?.clone());
        wa.model(&g)?;
        if wa.t != wb.t { return Err("different time axes".into()); }
        // rounding may cost one of them an iteration more
        if a.stats.map(|x| x.0) != b.stats.map(|x| x.0) { return Err(format!("end and iterations: {:?} by hand, {:?} from the deck", a.stats, b.stats).into()); }
        gb = wb.model(&f)?;
        if late { // rows are missing: no more than that they are the same ones
            if wa.rows.len() != wb.rows.len() { return Err("different numbers of rows".into()); }
            c.count("runs_with_a_start", 1);
            return Ok(());
        }
        t = wa.t.clone(); ra = wa.rows; rb = wb.rows;
        // the columns are where the ids say
        for k in 1..f.names.len() { if wa.names[1 + ids[k]] != format!("v({})", f.names[k]) { return Err(format!("column {} is {} instead of v({})", ids[k], wa.names[1 + ids[k]], f.names[k]).into()); } }
    } else {
        a.ran()?; b.ran()?;
        if a.errors() || b.errors() { return Err(format!("reported {} {}", a.last_error(), b.last_error()).into()); }
        t = vec![0.0];
        let (xa, xb) = (a.dc.clone().ok_or("no solution")?, b.dc.clone().ok_or("no solution")?);
        gb = b.dc_model(&xb, &f)?;
        ra = vec![xa]; rb = vec![xb];
    }
    // columns of the deck run for those of the library run; in both, sources in card order with E's last in the deck
    let mut to = vec![0; g.dim()];
    for (i, n) in g.names.iter().enumerate() { to[i] = gb.names.iter().position(|x| x == n).ok_or("name")?; }
    for k in 0..g.branches.len() { to[g.names.len() + k] = gb.names.len() + k; }
    let ones = vec![1.0; g.dim()];
    let (n, worst) = api::vanish(&[part(1.0, &g, &ra), Part { co: -1.0, f: &gb, rows: &rb, map: Some((&to, &ones)) }], &t, &Tol::default(), &|i| label(&g, i))?;
    c.count("rows_compared", n as u64);
    c.count(if push { "built_from_elements" } else { "built_with_add_calls" }, 1);
    c.max("difference_over_bound", worst);
    if n > 0 && ra.iter().any(|r| r.iter().any(|v| v.abs() > 1e-9)) { c.nontrivial(&text); }
    Ok(())
}
