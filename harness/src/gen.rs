//! Random circuits, as cards
use crate::deck::*;
use crate::num::{self, Num};
use crate::rng::Rng;

#[derive(Clone)]
pub struct Opts {
    pub nodes: (usize, usize),
    pub extra: (usize, usize),
    /// relative weights of extra elements
    pub wr: f64, pub wc: f64, pub wd: f64, pub wi: f64, pub we: f64, pub wg: f64,
    /// probability that a tree edge is a V / E
    pub pv: f64, pub pe: f64,
    pub r: (f64, f64), pub c: (f64, f64), pub v: (f64, f64), pub i: (f64, f64), pub k: (f64, f64), pub gm: (f64, f64),
    /// probability that a source varies in time, and the time scale
    pub ptime: f64, pub tscale: f64,
    /// attach every node to ground through R as well (keeps diode circuits ordinary)
    pub weird_names: bool,
    pub self_loops: bool,
    /// probability that a resistance is negative, and that a designator is used again
    pub neg: f64, pub again: f64,
    /// probability that a capacitance is negative
    pub negc: f64,
}
impl Opts {
    pub fn linear() -> Opts {
        Opts { nodes: (1, 9), extra: (0, 10), wr: 5.0, wc: 1.0, wd: 0.0, wi: 2.0, we: 0.0, wg: 0.0, pv: 0.25, pe: 0.0,
            r: (1.0, 1e6), c: (1e-9, 1e-5), v: (0.1, 100.0), i: (1e-6, 1.0), k: (0.1, 10.0), gm: (1e-6, 1e-2), ptime: 0.2, tscale: 1e-3,
            weird_names: false, self_loops: false, neg: 0.0, again: 0.0, negc: 0.0 }
    }
    pub fn spread() -> Opts { Opts { r: (1e-4, 1e9), v: (1e-6, 1e4), i: (1e-9, 1e3), c: (1e-12, 1e-2), ..Opts::linear() } }
}

pub const WEIRD: [&str; 68] = ["1", "2", "3", "007", "00", "Gnd", "gnD", "gnd0", "gnd_", "GNDX", "vss", "in", "out", "OUT", "Out", "op", "tran", "R1", "V1", "X1",
    "SIN", "PWL", "a", "A", "_", "__", "n_1", "1n", "10k", "1e3", "end", "subckt", "Time", "v", "i", "0x", "0_", "000", "node_with_a_very_long_name_0123456789_abcdefghijklmnopqrstuvwxyz", "e",
    "VCC", "VDD", "VEE", "VSS", "vcc", "vdd", "Vdd", "ground", "GROUND", "Ground", "agnd", "earth", "nan", "inf", "NaN", "01", "001", "_0", "0e0", "00000", "true", "nc", "NC", "net", "global", "k", "99999999999999999999", "i0"];

/// a name that could be taken for another one
pub fn lookalike(r: &mut Rng, x: &str) -> String {
    match r.below(8) {
        0 => x.to_uppercase(), 1 => x.to_lowercase(),
        2 => format!("0{}", x), 3 => format!("{}_", x), 4 => format!("_{}", x), 5 => format!("{}{}", x, x),
        6 => x.chars().take((x.len() + 1) / 2).collect(),
        _ => x.chars().rev().collect(),
    }
}
pub fn node_name(r: &mut Rng, k: usize, weird: bool) -> String {
    if weird {
        if r.chance(0.6) { return r.pick(&WEIRD).to_string(); }
        // alike but for the very end
        if r.chance(0.03) { return format!("{}{}", "long_".repeat(*r.pick(&[13, 26, 52, 206])), k); }
        match r.below(3) { 0 => format!("{}", 100 + k), 1 => format!("N{}_{}", k, r.below(10)), _ => format!("n{}", k) }
    } else { format!("n{}", k) }
}
pub fn gnd(r: &mut Rng) -> String { r.pick(&["0", "0", "gnd", "GND"]).to_string() }

pub fn waveform(r: &mut Rng, amp: f64, o: &Opts, voltage: bool) -> Src {
    if !r.chance(o.ptime) { return Src::Dc(num::near(r, amp)); }
    if !voltage || r.chance(0.4) {
        let off = if r.chance(0.4) { 0.0 } else { amp * r.unit() * r.sign() };
        let f = r.logu(0.2, 5.0) / o.tscale * if r.chance(0.15) { -1.0 } else { 1.0 };
        return Src::Sin(num::near(r, off), num::near(r, amp), num::near(r, f));
    }
    pwl(r, amp, o.tscale, false)
}

/// also with vertical steps (two points at one time), and with a late first point (at 0 V)
pub fn pwl(r: &mut Rng, amp: f64, tscale: f64, dyadic: bool) -> Src {
    let mut s = pwl_smooth(r, amp, tscale, dyadic);
    if let Src::Pwl { pts, .. } = &mut s {
        if r.chance(0.3) {
            for _ in 0..r.urange(1, 2) {
                let k = r.below(pts.len());
                let v = match r.below(3) { 0 => num::int(0), _ => { let x = amp * r.unit() * r.sign(); if dyadic { num::exact((x * 64.0).round() / 64.0) } else { num::near(r, x) } } };
                let t = pts[k].0.clone();
                if k > 0 || r.chance(0.3) { pts.insert(k + 1, (t, v)); }
            }
        }
        if pts.len() > 1 && pts[1].0.val > 0.0 && r.chance(0.15) {
            // starts late, from 0 V
            pts.remove(0);
            pts[0].1 = num::int(0);
        }
    }
    if let Src::Pwl { td, .. } = &mut s {
        // under way before the start
        if r.chance(0.08) { *td = Some(if dyadic { num::exact(r.range(-64, -1) as f64 * 2f64.powi(-12)) } else { let x = -tscale * r.unit(); num::near(r, x) }); }
    }
    s
}

/// the same, without steps
pub fn pwl_smooth(r: &mut Rng, amp: f64, tscale: f64, dyadic: bool) -> Src {
    let n = r.urange(1, 6);
    let mut pts = vec![];
    let mut t = 0.0;
    for k in 0..n {
        let v = match r.below(4) { 0 => 0.0, 1 => amp, _ => amp * r.unit() * r.sign() };
        if dyadic {
            let q = 2f64.powi(-12);
            if k > 0 { t += r.range(1, 32) as f64 * q; }
            pts.push((num::exact(t), num::exact((v * 64.0).round() / 64.0)));
        } else {
            if k > 0 { t += tscale * r.logu(0.02, 0.6); }
            let tn = num::near(r, t);
            t = tn.val;
            if let Some((l, _)) = pts.last() { let l: &Num = l; if t <= l.val { continue; } }
            pts.push((tn, num::near(r, v)));
        }
    }
    let td = if r.chance(0.4) {
        Some(if dyadic { num::exact(r.range(0, 64) as f64 * 2f64.powi(-12)) } else { let x = tscale * r.unit(); num::near(r, x) })
    } else { None };
    let rr = match r.below(4) { 0 => Some(Num { text: r.pick(&["0", "0.0"]).to_string(), val: 0.0 }), 1 => Some(Num { text: "-1".into(), val: -1.0 }), _ => None };
    Src::Pwl { pts, td, r: rr }
}

/// Cards of a circuit where every node has a path of R/V/E to ground without voltage loops
pub fn cards(r: &mut Rng, o: &Opts) -> Vec<Card> {
    let n = r.urange(o.nodes.0, o.nodes.1);
    let mut names: Vec<String> = vec![];
    for k in 1..=n {
        let mut x = node_name(r, k, o.weird_names);
        if o.weird_names && k > 1 && r.chance(0.2) { let y = r.pick(&names).clone(); x = lookalike(r, &y); }
        while names.contains(&x) || is_gnd(&x) { x = format!("{}_{}", x, k); }
        names.push(x);
    }
    let mut v: Vec<Card> = vec![];
    let mut id = 0;
    let nd = |r: &mut Rng, names: &Vec<String>, k: usize| if k == 0 { gnd(r) } else { names[k - 1].clone() };
    let mut any_v = false;
    for k in 1..=n {
        let other = if r.chance(0.5) { 0 } else { r.below(k) };
        let (mut a, mut b) = (k, other);
        if r.chance(0.5) { std::mem::swap(&mut a, &mut b); }
        let (a, b) = (nd(r, &names, a), nd(r, &names, b));
        id += 1;
        let x = r.unit();
        if x < o.pv || (k == n && !any_v && r.chance(0.7)) {
            any_v = true;
            let amp = r.logu(o.v.0, o.v.1) * r.sign();
            v.push(Card::V { id: format!("V{}", id), p: a, n: b, s: waveform(r, amp, o, true) });
        } else if x < o.pv + o.pe && k > 1 {
            let (c, d) = (r.below(k), r.below(k));
            let kk = r.logu(o.k.0, o.k.1) * r.sign();
            v.push(Card::E { id: format!("E{}", id), p: a, n: b, cp: nd(r, &names, c), cn: nd(r, &names, d), k: Val::Lit(num::near(r, kk)) });
        } else {
            let x = r.logu(o.r.0, o.r.1) * if r.chance(o.neg) { -1.0 } else { 1.0 };
            v.push(Card::R { id: format!("R{}", id), a, b, v: Val::Lit(num::near(r, x)) });
        }
    }
    let extra = r.urange(o.extra.0, o.extra.1);
    let tot = o.wr + o.wc + o.wd + o.wi + o.we + o.wg;
    for _ in 0..extra {
        id += 1;
        let a = r.below(n + 1);
        let mut b = r.below(n + 1);
        if a == b && !(o.self_loops && r.chance(0.5)) { b = (a + 1 + r.below(n)) % (n + 1); }
        let (an, bn) = (nd(r, &names, a), nd(r, &names, b));
        let mut x = r.unit() * tot;
        let mut take = |w: f64| { if x < w { x = f64::INFINITY; true } else { x -= w; false } };
        if take(o.wr) {
            let y = r.logu(o.r.0, o.r.1) * if r.chance(o.neg) { -1.0 } else { 1.0 };
            v.push(Card::R { id: format!("R{}", id), a: an, b: bn, v: Val::Lit(num::near(r, y)) });
        } else if take(o.wc) {
            let y = r.logu(o.c.0, o.c.1) * if r.chance(o.negc) { -1.0 } else { 1.0 };
            v.push(Card::C { id: format!("C{}", id), a: an, b: bn, v: Val::Lit(num::near(r, y)) });
        } else if take(o.wd) {
            v.push(Card::D { id: format!("D{}", id), p: an, n: bn, model: None });
        } else if take(o.wi) {
            let y = r.logu(o.i.0, o.i.1) * r.sign();
            v.push(Card::I { id: format!("I{}", id), p: an, n: bn, s: waveform(r, y, o, false) });
        } else if take(o.wg) {
            let (c, d) = (r.below(n + 1), r.below(n + 1));
            let y = r.logu(o.gm.0, o.gm.1) * r.sign();
            v.push(Card::G { id: format!("G{}", id), p: an, n: bn, cp: nd(r, &names, c), cn: nd(r, &names, d), k: Val::Lit(num::near(r, y)) });
        } else if take(o.we) {
            // an E between existing nodes could close a voltage loop: through a resistor
            let (c, d) = (r.below(n + 1), r.below(n + 1));
            let y = r.logu(o.k.0, o.k.1) * r.sign();
            let m = format!("m{}", id);
            v.push(Card::E { id: format!("E{}", id), p: m.clone(), n: bn, cp: nd(r, &names, c), cn: nd(r, &names, d), k: Val::Lit(num::near(r, y)) });
            let z = r.logu(o.r.0, o.r.1);
            v.push(Card::R { id: format!("R{}", id), a: m, b: an, v: Val::Lit(num::near(r, z)) });
        }
    }
    if o.again > 0.0 {
        // nothing says that a designator may be used once only
        for k in 0..v.len() {
            if !r.chance(o.again) { continue; }
            let old = v[r.below(v.len())].clone();
            match (&mut v[k], &old) {
                (Card::R { id, .. }, Card::R { id: x, .. }) | (Card::C { id, .. }, Card::C { id: x, .. }) | (Card::I { id, .. }, Card::I { id: x, .. })
                | (Card::V { id, .. }, Card::V { id: x, .. }) | (Card::D { id, .. }, Card::D { id: x, .. }) => *id = x.clone(),
                _ => {}
            }
        }
        // and two of them may be between the same nodes
        if r.chance(0.5) {
            let like: Vec<Card> = v.iter().filter(|x| matches!(x, Card::R { .. } | Card::C { .. } | Card::I { .. })).cloned().collect();
            if !like.is_empty() { let mut x = r.pick(&like).clone(); if let Card::R { v, .. } = &mut x { if r.chance(0.5) { let y = r.logu(o.r.0, o.r.1); *v = Val::Lit(num::near(r, y)); } } v.push(x); }
        }
    }
    r.shuffle(&mut v);
    v
}

/// cards of a flat circuit, with exact values and its own node names (dots are not allowed in a deck)
pub fn flat_cards(f: &crate::model::Flat) -> Vec<Card> {
    use crate::model::{El, Wave};
    let nm = |i: usize| if i == 0 { "0".to_string() } else { f.names[i].replace('.', "_") };
    let src = |w: &Wave| match w {
        Wave::Dc(v) => Src::Dc(num::exact(*v)),
        Wave::Sin { vo, va, f } => Src::Sin(num::exact(*vo), num::exact(*va), num::exact(*f)),
        Wave::Pwl { pts, td, rep } => Src::Pwl {
            pts: pts.iter().map(|p| (num::exact(p.0), num::exact(p.1))).collect(),
            td: Some(num::exact(*td)),
            r: Some(num::exact(if *rep { 0.0 } else { -1.0 })),
        },
    };
    let lit = |v: &f64| Val::Lit(num::exact(*v));
    f.els.iter().enumerate().map(|(i, e)| match e {
        El::R { a, b, v } => Card::R { id: format!("R{}", i), a: nm(*a), b: nm(*b), v: lit(v) },
        El::C { a, b, v } => Card::C { id: format!("C{}", i), a: nm(*a), b: nm(*b), v: lit(v) },
        El::D { p, n, .. } => Card::D { id: format!("D{}", i), p: nm(*p), n: nm(*n), model: None },
        El::I { p, n, w } => Card::I { id: format!("I{}", i), p: nm(*p), n: nm(*n), s: src(w) },
        El::V { p, n, w } => Card::V { id: format!("V{}", i), p: nm(*p), n: nm(*n), s: src(w) },
        El::E { p, n, cp, cn, k } => Card::E { id: format!("E{}", i), p: nm(*p), n: nm(*n), cp: nm(*cp), cn: nm(*cn), k: lit(k) },
        El::G { p, n, cp, cn, k } => Card::G { id: format!("G{}", i), p: nm(*p), n: nm(*n), cp: nm(*cp), cn: nm(*cn), k: lit(k) },
    }).collect()
}

/// Random hierarchies
#[derive(Clone)]
pub struct HOpts {
    pub defs: (usize, usize),
    pub top_insts: (usize, usize),
    pub params: f64,
    pub sources: f64,
    pub ctrl: f64,
    pub diodes: f64,
    pub caps: f64,
    pub ptime: f64,
    pub tscale: f64,
    /// expanded nodes
    pub max_nodes: usize,
    /// probability of a value that is out of all proportion
    pub wide: f64,
}
impl HOpts {
    pub fn ordinary() -> HOpts {
        HOpts { defs: (1, 5), top_insts: (1, 4), params: 0.4, sources: 0.3, ctrl: 0.15, diodes: 0.0, caps: 0.3, ptime: 0.4, tscale: 1e-3, max_nodes: 50, wide: 0.0 }
    }
}

const LOCAL: [&str; 24] = ["in", "out", "a", "b", "mid", "n1", "1", "2", "x", "p", "n", "X1", "val", "vdd", "VCC", "VEE", "vss", "00", "01", "IN", "A", "Gnd", "VDD", "vcc"];
const INST: [&str; 10] = ["X1", "X2", "X3", "Xa", "XA", "X", "Xin", "X_1", "X10", "Xout"];
const DEFS: [&str; 10] = ["sub", "amp", "cell", "X1", "in", "R1", "block_2", "SUB", "load", "s"];
/// parameter names by what they are for: a name never means two kinds of quantity
const PAR: [[&str; 4]; 4] = [["r", "rv", "val", "R"], ["c", "cv", "cval", "CV"], ["k", "gain", "a1", "K"], ["gm", "g", "y2", "Gm"]];

/// what the hosts of a definition have to know
#[derive(Clone)]
struct Known {
    name: String,
    nports: usize,
    /// port 0 is driven from inside: it has to be a net of its own
    drives: bool,
    /// (name, kind, has default)
    params: Vec<(String, usize, bool)>,
    nodes: usize,
    depth: usize,
}

fn pvalue(r: &mut Rng, kind: usize, o: &HOpts) -> Num {
    if o.wide > 0.0 && kind < 2 && r.chance(o.wide) {
        let x = match (kind, r.below(2)) { (0, 0) => r.logu(1e9, 1e16), (0, _) => r.logu(1e-7, 1e-2), (_, 0) => o.tscale * r.logu(1.0, 1e16), _ => o.tscale * r.logu(1e-20, 1e-10) };
        return num::near(r, x);
    }
    let x = match kind { 0 => r.logu(100.0, 1e5), 1 => o.tscale * r.logu(1e-6, 1e-4),
        // a gain of nothing is a value like any other
        _ if r.chance(0.12) => return Num { text: r.pick(&["0", "0.0", "-0", "0k"]).to_string(), val: 0.0 },
        2 => r.logu(0.1, 3.0) * r.sign(),
        _ => r.logu(1e-6, 1e-4) * r.sign() };
    num::near(r, x)
}

/// the inside of a scope: `nets` exist already and have their path to ground, except that `fresh` has none yet
#[allow(clippy::too_many_arguments)]
fn scope(r: &mut Rng, o: &HOpts, top: bool, ports: &[String], drives: bool, mine: &[(String, usize, bool)], known: &[Known], want: usize, budget: &mut usize) -> (Vec<Card>, usize) {
    let mut nets: Vec<String> = ports.to_vec();
    if drives { nets.remove(0); }
    let mut cards: Vec<Card> = vec![];
    let mut made = 0;
    let mut names: Vec<String> = LOCAL.iter().map(|x| x.to_string()).filter(|x| !ports.contains(x)).collect();
    r.shuffle(&mut names);
    let mut k = 0;
    let mut newnet = |made: &mut usize| { k += 1; *made += 1; if k <= names.len() { names[k - 1].clone() } else { format!("w{}", k) } };
    let some = |r: &mut Rng, nets: &Vec<String>| if nets.is_empty() || r.chance(0.35) { gnd(r) } else { r.pick(nets).clone() };
    let mut num_id = 0;
    let mut id = |r: &mut Rng, l: &str| { num_id += 1; if r.chance(0.3) { format!("{}1", l) } else { format!("{}{}", l, num_id) } };
    // instance names are unique in a scope, so are the names of primitives that share a scope with them
    let value = |r: &mut Rng, kind: usize| -> Val {
        let c: Vec<&(String, usize, bool)> = mine.iter().filter(|p| p.1 == kind).collect();
        if !c.is_empty() && r.chance(0.7) { Val::Par(r.pick(&c).0.clone()) } else { Val::Lit(pvalue(r, kind, o)) }
    };
    let wopt = Opts { ptime: o.ptime, tscale: o.tscale, ..Opts::linear() };
    let tree = |r: &mut Rng, cards: &mut Vec<Card>, nets: &mut Vec<String>, net: &String, forcev: bool, id: &mut dyn FnMut(&mut Rng, &str) -> String| {
        let other = some(r, nets);
        let (a, b) = if r.chance(0.5) { (net.clone(), other) } else { (other, net.clone()) };
        let x = r.unit();
        if forcev || x < o.sources * 0.6 {
            let amp = r.logu(0.5, 20.0) * r.sign();
            cards.push(Card::V { id: id(r, "V"), p: a, n: b, s: waveform(r, amp, &wopt, true) });
        } else if x < o.sources * 0.6 + o.ctrl && !nets.is_empty() {
            let (c, d) = (some(r, nets), some(r, nets));
            cards.push(Card::E { id: id(r, "E"), p: a, n: b, cp: c, cn: d, k: value(r, 2) });
        } else {
            cards.push(Card::R { id: id(r, "R"), a, b, v: value(r, 0) });
        }
    };
    if drives {
        let other = if nets.is_empty() || r.chance(0.6) { gnd(r) } else { r.pick(&nets).clone() };
        let amp = r.logu(0.5, 20.0) * r.sign();
        let (p, n) = if r.chance(0.7) { (ports[0].clone(), other) } else { (other, ports[0].clone()) };
        if r.chance(0.75) || nets.is_empty() { cards.push(Card::V { id: id(r, "V"), p, n, s: waveform(r, amp, &wopt, true) }); }
        else { let (c, d) = (some(r, &nets), some(r, &nets)); cards.push(Card::E { id: id(r, "E"), p, n, cp: c, cn: d, k: value(r, 2) }); }
        nets.push(ports[0].clone());
    }
    let n = r.urange(if top { 1 } else { 0 }, 3);
    for j in 0..n {
        let net = newnet(&mut made);
        tree(r, &mut cards, &mut nets, &net, top && j == 0, &mut id);
        nets.push(net);
    }
    let extra = r.urange(if top { 0 } else { 1 }, 3);
    for _ in 0..extra {
        let (a, b) = (some(r, &nets), some(r, &nets));
        let x = r.unit();
        if x < o.caps { cards.push(Card::C { id: id(r, "C"), a, b, v: value(r, 1) }); }
        else if x < o.caps + o.diodes { cards.push(Card::D { id: id(r, "D"), p: a, n: b, model: None }); }
        else if x < o.caps + o.diodes + o.sources * 0.4 { let y = r.logu(1e-5, 1e-2) * r.sign(); cards.push(Card::I { id: id(r, "I"), p: a, n: b, s: waveform(r, y, &wopt, false) }); }
        else if x < o.caps + o.diodes + o.sources * 0.4 + o.ctrl {
            let (c, d) = (some(r, &nets), some(r, &nets));
            cards.push(Card::G { id: id(r, "G"), p: a, n: b, cp: c, cn: d, k: value(r, 3) });
        }
        else { cards.push(Card::R { id: id(r, "R"), a, b, v: value(r, 0) }); }
    }
    let mut inames: Vec<&str> = INST.to_vec();
    if r.chance(0.6) { inames.truncate(5); } else { r.shuffle(&mut inames); }
    let mut used = 0;
    for j in 0..want {
        if known.is_empty() { break; }
        // the newest definitions are the deepest
        let mut d = if r.chance(0.5) { known[known.len() - 1].clone() } else { r.pick(known).clone() };
        if d.nodes + 2 > *budget { d = known.iter().min_by_key(|k| k.nodes).unwrap().clone(); }
        if d.nodes + 2 > *budget { break; }
        *budget -= d.nodes + 2;
        used += d.nodes;
        let mut conns = vec![];
        let mut driven = None;
        for p in 0..d.nports {
            if p == 0 && d.drives {
                // one of the other ports may be what it is driven from: none of them is this net
                let net = newnet(&mut made);
                conns.push(net.clone());
                cards.push(Card::R { id: id(r, "R"), a: net.clone(), b: some(r, &nets), v: value(r, 0) });
                driven = Some(net);
            } else if r.chance(0.2) {
                let net = newnet(&mut made);
                tree(r, &mut cards, &mut nets, &net, false, &mut id);
                conns.push(net.clone());
                nets.push(net);
            } else {
                conns.push(some(r, &nets));
            }
        }
        nets.extend(driven);
        let mut over = vec![];
        for (pn, kind, has) in &d.params {
            if !*has || r.chance(0.5) { over.push((pn.clone(), value(r, *kind))); }
        }
        r.shuffle(&mut over);
        let iname = if j < inames.len() { inames[j].to_string() } else { format!("X{}z", j) };
        cards.push(Card::X { id: iname, conns, sub: d.name.clone(), over });
    }
    r.shuffle(&mut cards);
    // ids of primitives with a value must differ only where they matter: repeats are allowed
    (cards, made + used)
}

pub fn hier(r: &mut Rng, o: &HOpts) -> Deck {
    let nd = r.urange(o.defs.0, o.defs.1);
    let mut known: Vec<Known> = vec![];
    let mut subs: Vec<SubDef> = vec![];
    let mut dnames: Vec<&str> = DEFS.to_vec();
    r.shuffle(&mut dnames);
    for i in 0..nd {
        let name = if i < dnames.len() { dnames[i].to_string() } else { format!("sub{}", i) };
        let mut pool: Vec<&str> = LOCAL.to_vec();
        r.shuffle(&mut pool);
        let nports = if r.chance(0.05) { 0 } else { r.urange(1, 4) };
        let ports: Vec<String> = pool[..nports].iter().map(|x| x.to_string()).collect();
        let drives = nports > 0 && r.chance(o.sources * 0.5);
        let mut params = vec![];
        for kind in 0..4 {
            for n in PAR[kind] { if r.chance(o.params * 0.6) { params.push((n.to_string(), kind, r.chance(0.85))); } }
        }
        r.shuffle(&mut params);
        let want = if known.is_empty() { 0 } else { r.urange(0, 2) };
        let mut budget = o.max_nodes / 2;
        let (cards, nodes) = scope(r, o, false, &ports, drives, &params, &known, want, &mut budget);
        let depth = 1 + cards.iter().filter_map(|c| if let Card::X { sub, .. } = c { known.iter().find(|k| &k.name == sub).map(|k| k.depth) } else { None }).max().unwrap_or(0);
        let defaults = params.iter().filter(|p| p.2).map(|p| (p.0.clone(), pvalue(r, p.1, o))).collect();
        known.push(Known { name: name.clone(), nports, drives, params, nodes, depth });
        subs.push(SubDef { name, ports, params: defaults, cards });
    }
    let mut budget = o.max_nodes;
    let want = r.urange(o.top_insts.0, o.top_insts.1);
    let (cards, _) = scope(r, o, true, &[], false, &[], &known, want, &mut budget);
    let mut items: Vec<Item> = vec![];
    if r.chance(0.5) { r.shuffle(&mut subs); }
    for c in cards { items.push(Item::Card(c)); }
    for sd in subs {
        let at = match r.below(3) { 0 => 0, 1 => items.len(), _ => r.below(items.len() + 1) };
        items.insert(at, Item::Sub(sd));
    }
    Deck { title: "title".into(), items, ctl: vec![] }
}

/// levels of the hierarchy and instances in it
pub fn shape(d: &Deck) -> (usize, usize) {
    fn go(cards: &[&Card], subs: &[&SubDef], depth: usize) -> (usize, usize) {
        let mut r = (depth, 0);
        for c in cards {
            if let Card::X { sub, .. } = c {
                if let Some(sd) = subs.iter().find(|s| &s.name == sub) {
                    let inner: Vec<&Card> = sd.cards.iter().collect();
                    let x = go(&inner, subs, depth + 1);
                    r.0 = r.0.max(x.0);
                    r.1 += 1 + x.1;
                }
            }
        }
        r
    }
    let subs: Vec<&SubDef> = d.items.iter().filter_map(|i| if let Item::Sub(s) = i { Some(s) } else { None }).collect();
    go(&d.cards(), &subs, 0)
}

/// The same circuit as a hierarchy: some of the cards at the top level go into definitions of their own
/// (that may go into another one in turn). The nets they share with the rest become ports.
pub fn wrap(r: &mut Rng, d: &mut Deck) {
    for level in 0..r.urange(1, 3) {
        let top: Vec<usize> = (0..d.items.len()).filter(|i| matches!(&d.items[*i], Item::Card(x) if !matches!(x, Card::Lib { .. }))).collect();
        let p = *r.pick(&[0.15, 0.4, 0.4, 0.8, 1.0]);
        let mut chosen: Vec<usize> = top.iter().copied().filter(|_| r.chance(p)).collect();
        if level > 0 && r.chance(0.7) { for i in &top { if matches!(&d.items[*i], Item::Card(Card::X { .. })) && !chosen.contains(i) { chosen.push(*i); } } }
        chosen.sort();
        if chosen.is_empty() { continue; }
        let nets = |x: &Card| -> Vec<String> { let mut y = x.clone(); y.nodes_mut().into_iter().map(|n| n.clone()).filter(|n| !is_gnd(n)).collect() };
        let (mut inside, mut outside): (Vec<String>, Vec<String>) = (vec![], vec![]);
        let mut cards: Vec<Card> = vec![];
        for i in &top {
            if let Item::Card(x) = &d.items[*i] {
                let mine = chosen.contains(i);
                for n in nets(x) { let v = if mine { &mut inside } else { &mut outside }; if !v.contains(&n) { v.push(n); } }
                if mine { cards.push(x.clone()); }
            }
        }
        let mut shared: Vec<String> = inside.iter().filter(|n| outside.contains(n) || r.chance(0.1)).cloned().collect();
        r.shuffle(&mut shared);
        // inside, the ports may be called otherwise
        let mut ports: Vec<String> = vec![];
        for (k, n) in shared.iter().enumerate() {
            let mut x = match r.below(3) { 0 => n.clone(), 1 => format!("p{}", k), _ => { let i = r.below(WEIRD.len()); WEIRD[i].to_string() } };
            if x != *n && (inside.contains(&x) || ports.contains(&x) || is_gnd(&x)) { x = n.clone(); }
            while ports.contains(&x) { x = format!("{}_{}", x, k); }
            ports.push(x);
        }
        for x in cards.iter_mut() { for n in x.nodes_mut() { if let Some(k) = shared.iter().position(|q| q == n) { *n = ports[k].clone(); } } }
        // some of the values become parameters
        let (mut params, mut over) = (vec![], vec![]);
        for x in cards.iter_mut() {
            if let Card::R { v, .. } | Card::C { v, .. } | Card::E { k: v, .. } | Card::G { k: v, .. } = x {
                if let Val::Lit(n) = v.clone() {
                    if r.chance(0.15) {
                        let name = format!("z{}", params.len() + over.len());
                        if r.chance(0.5) { params.push((name.clone(), n)); } else { if r.chance(0.5) { params.push((name.clone(), num::int(7))); } over.push((name.clone(), Val::Lit(n))); }
                        *v = Val::Par(name);
                    }
                }
            }
        }
        let name = format!("w{}", level);
        for i in chosen.iter().rev() { d.items.remove(*i); }
        let at = r.below(d.items.len() + 1);
        d.items.insert(at, Item::Card(Card::X { id: format!("Xw{}", level), conns: shared, sub: name.clone(), over }));
        let at = r.below(d.items.len() + 1);
        d.items.insert(at, Item::Sub(SubDef { name, ports, params, cards }));
    }
}
