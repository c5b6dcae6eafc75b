//! C08-C15: what a deck means
use crate::api;
use crate::c_tran::{check_rows, tran_ok};
use crate::deck::*;
use crate::driver::*;
use crate::gen::{self, HOpts, Opts};
use crate::model::*;
use crate::num;
use crate::rng::Rng;
use crate::run::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C08", quick: 150000, thorough: 1000000, level: "exploration", cpu: 60, case: c08,
            rule: "decks with random literals (1-17 digits, exponents to 1e+-250, leading zeros, signs, units, suffixes) in every position a number can stand, read back from the expanded circuit and the settings; and text that is no number in each of these positions, that has to be refused; all non-trivial" },
        Check { id: "C09", quick: 60000, thorough: 500000, level: "exploration", cpu: 60, case: c09,
            rule: "pairs of texts of one deck (hierarchies and flat circuits, op and tran, options): plain, and with random blank lines, comments of both kinds holding cards and commands, indentation, tabs, ground spellings, titles that look like cards or commands, with or without a last newline; all results compared bit for bit; non-trivial: there is a waveform or an operating point" },
        Check { id: "C10", quick: 100000, thorough: 400000, level: "exploration", cpu: 60, case: c10,
            rule: "flat decks of all element kinds with hostile node names, repeated designators and every ground spelling; every row of a short transient is checked against the circuit the cards describe; non-trivial: at least four cards and a non-zero row" },
        Check { id: "C11", quick: 50000, thorough: 400000, level: "exploration", cpu: 60, case: c11,
            rule: "random hierarchies (up to five definitions, four levels, 1% of up to 30 levels under much the same names, names reused between scopes, sources and controlled sources inside, shuffled definitions); every row against an independent expansion, and against the flat deck it amounts to; non-trivial: at least two instances" },
        Check { id: "C12", quick: 70000, thorough: 400000, level: "exploration", cpu: 60, case: c12,
            rule: "random hierarchies where most R, C, E and G values are parameters with defaults, overrides and pass-through under clashing names; every row against an independent resolution; a fifth have one unresolvable name and have to stop; non-trivial: at least three values that are parameters" },
        Check { id: "C14", quick: 120000, thorough: 1000000, level: "exploration", cpu: 60, case: c14,
            rule: "valid decks (hierarchies, flat circuits, some with libraries, layouts) with one card or structure broken in one of 24 ways, anywhere; each has to be refused with a diagnostic (in process: by reading or expansion; 2% as a program: no waveform); non-trivial: all that were broken" },
        Check { id: "C15", quick: 40000, thorough: 400000, level: "exploration", cpu: 60, case: c15,
            rule: "decks with one to four control blocks anywhere between the cards, holding random sequences of op, tran (with and without start), options in every spelling, bare option and commands the program does not know, and look-alikes of all of them in comments, titles, names and unused library sections; the settings are compared with those the sequence means, the results bit for bit with a run of the same circuit with hand-made settings, 3% as a program; non-trivial: at least four commands" },
        Check { id: "C13", quick: 40000, thorough: 300000, level: "exploration", cpu: 60, case: c13,
            rule: "decks with one or two stretches of lines (cards, definitions, parts of definitions; 4% with a section used up to 50 times) moved into sections of one or two library files beside, below or above the deck, among other sections with similar names and contents, cards, control blocks and nonsense outside; compared bit for bit with the pasted deck, 3% as a program started in other directories with decoy files; a seventh with file, section or .endl missing; non-trivial: a result was compared, or a fault refused" },
    ]
}

/// stop and step of a short transient on the scale the generator used
pub fn short_tran(c: &mut Ctx, tscale: f64) -> Ctl {
    let x = tscale * c.r.logu(0.02, 0.2);
    let step = num::near(&mut c.r, x);
    let stop = step.val * c.r.logu(0.8, 12.0);
    Ctl::Tran(step, num::near(&mut c.r, stop), None)
}

/// is it safe to insist on a solution? (controlled sources can make a circuit nearly singular)
pub fn solid(f: &Flat, ctl: &Ctl) -> bool {
    let mut g = f.clone();
    // diodes do not make it any worse
    g.els.retain(|e| !matches!(e, El::D { .. }));
    g.branches = (0..g.els.len()).filter(|i| matches!(g.els[*i], El::V { .. } | El::E { .. })).collect();
    if f.count(|e| match e { El::E { .. } | El::G { .. } => true, El::R { v, .. } => *v < 0.0, _ => false }) == 0 { return true; }
    if !well_posed(&g, 0.0, None, 1e6) { return false; }
    if let Ctl::Tran(step, _, _) = ctl {
        if f.has_c() && !steps_solvable(&g, step.val * 6.0) { return false; }
        for k in [0.25, 1.0, 5.0] { if !well_posed(&g, 0.0, Some(step.val * k), 1e6) { return false; } }
    }
    true
}

/// run a transient deck whose rows have to solve what the deck describes
/// None: left out, or it reported that it found no solution (diodes only)
fn simulate(c: &mut Ctx, d: &Deck, text: &str) -> Result<Option<(Wavefile, Flat)>, String> {
    let f = d.flatten()?;
    if !solid(&f, &d.ctl[0]) { c.count("skipped_ill_posed", 1); return Ok(None); }
    // diodes may make it try very small steps: bound their number
    let nl = f.nonlinear();
    let sim = c.run.run_with(text, |g| if nl { g.RMIN = 1e-3 });
    if f.nonlinear() && !sim.refused && (sim.panic.as_ref().map_or(false, |p| p.contains("I_d")) || (sim.panic.is_none() && sim.errors())) {
        // the columns are those of the circuit all the same
        if let Some(w) = &sim.wave { w.model(&f)?; }
        c.count("runs_that_reported_failure", 1);
        return Ok(None);
    }
    let w = sim.clean()?.clone();
    let f = w.model(&f)?;
    check_rows(c, &f, &w, &Tol::default())?;
    Ok(Some((w, f)))
}

fn moving(w: &Wavefile) -> bool { w.rows.iter().any(|r| r.iter().any(|x| x.abs() > 1e-12)) }

fn c10(c: &mut Ctx) -> Verdict {
    let mut o = Opts::linear();
    o.weird_names = true;
    o.self_loops = true;
    o.wc = 2.0;
    o.pe = 0.1; o.wg = 1.0; o.we = 0.7; o.k = (0.1, 3.0); o.gm = (1e-6, 1e-4);
    o.c = (1e-9, 1e-6);
    o.ptime = 0.4;
    if c.r.chance(0.3) { o.wd = 2.0; o.r = (100.0, 1e6); o.v = (0.1, 10.0); o.i = (1e-6, 1e-2); }
    else if c.r.chance(0.3) { o.r = (1e-6, 1e10); o.c = (1e-15, 1.0); }
    let mut cards = gen::cards(&mut c.r, &o);
    if c.r.chance(0.02) {
        // a card longer than any line of text
        let n = c.r.urange(60, 900);
        let mut t = 0.0;
        let mut pts = vec![];
        for _ in 0..n {
            let (x, y) = (num::near(&mut c.r, t), c.r.logu(0.1, 10.0));
            if pts.last().map_or(true, |p: &(num::Num, num::Num)| x.val > p.0.val) { pts.push((x, num::near(&mut c.r, y))); }
            t += 1e-3 * c.r.logu(1e-3, 3e-2);
        }
        let at = c.r.below(cards.len() + 1);
        cards.insert(at, Card::V { id: s("Vlong"), p: s("n_long"), n: gen::gnd(&mut c.r), s: Src::Pwl { pts, td: None, r: None } });
        cards.push(Card::R { id: s("Rlong"), a: s("n_long"), b: gen::gnd(&mut c.r), v: Val::Lit(num::int(1000)) });
        c.count("long_cards", 1);
    }
    // repeated designators, and designators that look like something else
    let style = c.r.below(4);
    for x in cards.iter_mut() {
        let l = x.id().chars().next().unwrap();
        let new = match style {
            0 => continue,
            1 => format!("{}1", l),
            2 => l.to_string(),
            _ => format!("{}{}", l, c.r.pick(&["1", "2", "IN", "ctl", "out", "_", "X1", "/param0", "0", "gnd", "#", "-", "\u{3a9}", "(1)", "SIN"])),
        };
        match x {
            Card::R { id, .. } | Card::C { id, .. } | Card::D { id, .. } | Card::V { id, .. } | Card::I { id, .. } | Card::E { id, .. } | Card::G { id, .. } => *id = new,
            _ => {}
        }
    }
    // diodes may name a model: there is only one
    for x in cards.iter_mut() {
        if let Card::D { model, .. } = x { if c.r.chance(0.4) { *model = Some(s(c.r.pick(&["dmod", "1N4148", "D1N4002", "D", "1", "0.5", "default", "2k", "x=1", "-1"]))); } }
    }
    // the same card twice is two elements (not a voltage: two in parallel have no unique current)
    if c.r.chance(0.3) {
        let k = c.r.below(cards.len());
        if !matches!(cards[k], Card::V { .. } | Card::E { .. }) { let x = cards[k].clone(); let at = c.r.below(cards.len() + 1); cards.insert(at, x); c.count("decks_with_twin_cards", 1); }
    }
    let ctl = short_tran(c, 1e-3);
    let n = cards.len();
    let mut d = flat_deck(cards, vec![ctl]);
    // the same cards within definitions
    if c.r.chance(0.25) { gen::wrap(&mut c.r, &mut d); c.count("hierarchical_decks", 1); }
    let text = d.text(&mut Layout::random(c.r.u64(), 0.0, true));
    c.note(&text);
    if let Some((w, _)) = simulate(c, &d, &text)? {
        c.count("cards_checked", n as u64);
        if n >= 4 && moving(&w) { c.nontrivial(&text); }
    }
    Ok(())
}

/// many levels, more than once, where the names are much alike
fn deep_hier(r: &mut Rng) -> Deck {
    let depth = r.urange(9, 30);
    let same = r.chance(0.4);
    let val = |r: &mut Rng| { let x = r.logu(100.0, 1e4); Val::Lit(num::near(r, x)) };
    let xname = |k: usize| if same { s("X1") } else { format!("X{}", k) };
    let mut items: Vec<Item> = vec![];
    for k in 0..depth {
        let mut cards = vec![];
        let mut inner = s("a");
        if k + 1 == depth || r.chance(0.4) {
            cards.push(Card::R { id: s("R1"), a: s("a"), b: s("m"), v: val(r) });
            cards.push(Card::R { id: s("R2"), a: s("m"), b: r.pick(&["0", "gnd"]).to_string(), v: val(r) });
            if r.chance(0.5) { inner = s("m"); }
        }
        if k + 1 < depth { cards.push(Card::X { id: xname(k), conns: vec![inner], sub: format!("l{}", k + 1), over: vec![] }); }
        r.shuffle(&mut cards);
        items.push(Item::Sub(SubDef { name: format!("l{}", k), ports: vec![s("a")], params: vec![], cards }));
    }
    if r.chance(0.5) { r.shuffle(&mut items); }
    for (k, n) in ["p", "q", "q"].iter().take(r.urange(2, 3)).enumerate() {
        let at = r.below(items.len() + 1);
        items.insert(at, Item::Card(Card::X { id: format!("X{}", ["a", "b", "1"][k]), conns: vec![n.to_string()], sub: format!("l{}", if r.chance(0.7) { 0 } else { r.below(3) }), over: vec![] }));
    }
    for (n, v) in [("p", 1.0), ("q", -3.0)] { items.push(Item::Card(Card::V { id: format!("V{}", n), p: s(n), n: s("0"), s: Src::Dc(num::exact(v)) })); }
    Deck { title: s("deep"), items, ctl: vec![] }
}

fn c11(c: &mut Ctx) -> Verdict {
    let mut o = HOpts::ordinary();
    if c.r.chance(0.15) { o.defs = (3, 8); o.top_insts = (2, 8); o.max_nodes = 90; }
    if c.r.chance(0.2) { o.diodes = 0.2; }
    if c.r.chance(0.5) { o.params = 0.0; }
    let deep = c.r.chance(0.01);
    let mut d = if deep { deep_hier(&mut c.r) } else { gen::hier(&mut c.r, &o) };
    let ctl = if deep { Ctl::Tran(num::exact(1e-4), num::exact(3e-4), None) } else { short_tran(c, o.tscale) };
    d.ctl.push(ctl);
    let text = d.text(&mut Layout::random(c.r.u64(), 0.1, true));
    c.note(&text);
    if deep { c.count("deep_hierarchies", 1); }
    let (levels, insts) = gen::shape(&d);
    let (w, f) = match simulate(c, &d, &text)? { Some(x) => x, None => return Ok(()) };
    c.count("instances_expanded", insts as u64);
    c.max("levels", levels as f64);
    // the flat deck it amounts to
    if c.r.chance(0.3) {
        let cards = gen::flat_cards(&f);
        let flat = flat_deck(cards, d.ctl.clone());
        let g = flat.flatten()?;
        let t2 = flat.plain();
        let nl = f.nonlinear();
        let sim = c.run.run_with(&t2, |g| if nl { g.RMIN = 1e-3 });
        if f.nonlinear() && (sim.panic.is_some() || sim.errors()) { return Ok(()); }
        let w2 = sim.clean()?.clone();
        let g = w2.model(&g)?;
        if !f.nonlinear() && w.t.len() != w2.t.len() { return Err(format!("{} rows with subcircuits, {} without", w.t.len(), w2.t.len()).into()); }
        // column of g for each of f
        let mut to = vec![0; f.dim()];
        for (i, n) in f.names.iter().enumerate() { if let Some(j) = g.names.iter().position(|m| *m == n.replace('.', "_")) { to[i] = j; } else if f.connected()[i] { return Err(format!("node {} is missing from the flat deck", n).into()); } }
        // top-level V come before any E there
        let e = |k: &usize| matches!(f.els[f.branches[*k]], El::E { .. });
        let order: Vec<usize> = (0..f.branches.len()).filter(|k| !e(k)).chain((0..f.branches.len()).filter(|k| e(k))).collect();
        for (j, k) in order.iter().enumerate() { to[f.names.len() + k] = g.names.len() + j; }
        let sign = vec![1.0; f.dim()];
        let (ra, rb) = (vec![w.rows[0].clone()], vec![w2.rows[0].clone()]);
        let (_, wr) = api::vanish(&[api::Part { co: 1.0, f: &f, rows: &ra, map: None }, api::Part { co: -1.0, f: &g, rows: &rb, map: Some((&to, &sign)) }], &[0.0], &Tol::default(), &|i| label(&f, i))?;
        c.max("difference_from_flat_deck", wr);
        c.count("compared_with_flat_decks", 1);
    }
    // the names of the files have nothing to do with it
    if !f.nonlinear() && c.r.chance(0.03) {
        let subs: Vec<String> = d.items.iter().filter_map(|i| if let Item::Sub(x) = i { Some(x.name.clone()) } else { None }).collect();
        if !subs.is_empty() {
            let name = c.r.pick(&subs).clone();
            let dir = c.run.subdir("named");
            std::fs::write(dir.join(&name), &text).unwrap();
            let r = c.run.cli(&dir, &name, Limits::default());
            let raw = std::fs::read_to_string(dir.join("waves").join(&name).join("tran.dat")).map_err(|_| format!("as a file called {}: {}", name, r.brief()))?;
            let w2 = Wavefile::parse(&raw)?;
            if w2.names != w.names || w2.rows != w.rows { return Err(format!("as a file called {}: other results", name).into()); }
            c.count("files_named_like_definitions", 1);
        }
    }
    // an instance may not be called like one within another
    if !f.nonlinear() && c.r.chance(0.05) {
        let deep: Vec<String> = f.names.iter().filter_map(|n| n.rsplit_once('.').map(|x| x.0.to_string())).filter(|p| p.contains('.')).collect();
        let mut e = d.clone();
        let mut tops: Vec<&mut String> = e.items.iter_mut().filter_map(|i| if let Item::Card(Card::X { id, .. }) = i { Some(id) } else { None }).collect();
        if !deep.is_empty() && tops.len() > 1 {
            let to = c.r.pick(&deep).clone();
            let k = c.r.below(tops.len());
            *tops[k] = to.clone();
            let t2 = e.text(&mut Layout::plain());
            let sim = c.run.run(&t2);
            if !sim.refused && sim.panic.is_none() && !sim.errors() {
                let w2 = sim.clean()?.clone();
                for (i, n) in w.names.iter().enumerate() {
                    if i == 0 || !n.starts_with("v(") || n.contains('.') { continue; }
                    let j = w2.names.iter().position(|m| m == n).ok_or(format!("with an instance called {} node {} is missing", to, n))?;
                    let (x, y) = (w.rows[0][i - 1], w2.rows[0][j - 1]);
                    if (x - y).abs() > 1e-6 * x.abs().max(y.abs()) + 1e-6 { return Err(format!("an instance called {} changes {} from {:e} to {:e}", to, n, x, y).into()); }
                }
            }
            c.count("dotted_instances", 1);
        }
    }
    if insts >= 2 && moving(&w) { c.nontrivial(&text); }
    Ok(())
}

/// all parameter references
fn refs(d: &Deck) -> usize {
    let one = |c: &Card| match c {
        Card::R { v, .. } | Card::C { v, .. } => matches!(v, Val::Par(_)) as usize,
        Card::E { k, .. } | Card::G { k, .. } => matches!(k, Val::Par(_)) as usize,
        Card::X { over, .. } => over.len(),
        _ => 0,
    };
    d.items.iter().map(|i| match i { Item::Card(c) => one(c), Item::Sub(s) => s.cards.iter().map(one).sum() }).sum()
}

fn c12(c: &mut Ctx) -> Verdict {
    let mut o = HOpts::ordinary();
    o.params = 0.9;
    o.sources = 0.15;
    o.caps = 0.35;
    o.ctrl = if c.r.chance(0.5) { 0.2 } else { 0.0 };
    o.defs = (1, 6);
    o.top_insts = (1, 5);
    if c.r.chance(0.25) { o.wide = 0.2; }
    let mut d = gen::hier(&mut c.r, &o);
    let ctl = short_tran(c, o.tscale);
    d.ctl.push(ctl);
    if c.r.chance(0.2) {
        // one name that resolves to nothing, in something that is used
        let used = used_subs(&d);
        let bad = c.r.pick(&["nosuch", "R", "r0", "cval2", "X1", "rr", "1"]).to_string();
        let mut spots: Vec<(usize, Option<usize>)> = vec![];
        for (i, it) in d.items.iter().enumerate() {
            match it {
                Item::Card(x) => if has_value(x) { spots.push((i, None)) },
                Item::Sub(sd) => if used.contains(&sd.name) { for (j, x) in sd.cards.iter().enumerate() { if has_value(x) { spots.push((i, Some(j))); } } },
            }
        }
        if spots.is_empty() { return Ok(()); }
        let (i, j) = *c.r.pick(&spots);
        let how = match &mut d.items[i] {
            Item::Card(x) => spoil(x, &bad),
            Item::Sub(sd) => { let at = j.unwrap(); spoil(&mut sd.cards[at], &bad) }
        };
        let text = d.plain();
        c.note(&text);
        if d.flatten().is_ok() { return Ok(()); }
        let sim = c.run.run(&text);
        if sim.panic.is_none() && !sim.refused { return Err(format!("{} {{{}}} cannot be resolved, but the deck was simulated", how, bad).into()); }
        c.count("unresolvable_names_refused", 1);
        return Ok(());
    }
    let text = d.plain();
    c.note(&text);
    let n = refs(&d);
    // values out of all proportion may leave nothing to solve
    if o.wide > 0.0 && !solid_enough(&d) { c.count("skipped_ill_posed", 1); return Ok(()); }
    if let Some((w, _)) = simulate(c, &d, &text)? {
        c.count("parameter_uses", n as u64);
        if n >= 3 && moving(&w) { c.nontrivial(&text); }
    }
    Ok(())
}

fn solid_enough(d: &Deck) -> bool {
    let Ok(f) = d.flatten() else { return true };
    let Some(Ctl::Tran(step, ..)) = d.ctl.iter().find(|x| matches!(x, Ctl::Tran(..))) else { return true };
    well_posed(&f, 0.0, None, 1e6) && steps_solvable(&f, step.val * 6.0) && [0.25, 1.0, 5.0].iter().all(|k| well_posed(&f, 0.0, Some(step.val * k), 1e6))
}

pub fn used_subs(d: &Deck) -> Vec<String> {
    let mut todo: Vec<String> = d.cards().iter().filter_map(|c| if let Card::X { sub, .. } = c { Some(sub.clone()) } else { None }).collect();
    let mut seen: Vec<String> = vec![];
    while let Some(n) = todo.pop() {
        if seen.contains(&n) { continue; }
        for i in &d.items { if let Item::Sub(sd) = i { if sd.name == n { for c in &sd.cards { if let Card::X { sub, .. } = c { todo.push(sub.clone()); } } } } }
        seen.push(n);
    }
    seen
}
fn has_value(c: &Card) -> bool {
    match c { Card::R { .. } | Card::C { .. } | Card::E { .. } | Card::G { .. } => true, Card::X { over, .. } => !over.is_empty(), _ => false }
}
fn spoil(c: &mut Card, bad: &str) -> &'static str {
    let b = Val::Par(bad.to_string());
    match c {
        Card::R { v, .. } => { *v = b; "R value" }
        Card::C { v, .. } => { *v = b; "C value" }
        Card::E { k, .. } => { *k = b; "E gain" }
        Card::G { k, .. } => { *k = b; "G gain" }
        Card::X { over, .. } => { over[0].1 = b; "override" }
        _ => "?",
    }
}

/// a literal with all its digits, of any size; exact: no suffix, so no rounding is allowed
struct Lit { text: String, val: f64, exact: bool }

fn literal(r: &mut Rng, pos: bool, span: (i32, i32)) -> Lit {
    let nd = match r.below(4) { 0 => 1, 1 => r.urange(2, 4), 2 => r.urange(5, 9), _ => r.urange(10, 17) };
    let mut digits: String = (0..nd).map(|i| char::from(b'0' + if i == 0 { 1 + r.below(9) } else { r.below(10) } as u8)).collect();
    if r.chance(0.1) { digits = "0".repeat(r.urange(1, 4)); if pos { digits.push('7'); } }
    let neg = !pos && r.chance(0.35);
    let sign = if neg { "-" } else if r.chance(0.15) { "+" } else { "" };
    let e = r.range(span.0 as i64, span.1 as i64) as i32;
    let style = r.below(4);
    let lead = if r.chance(0.1) { "0".repeat(r.urange(1, 3)) } else { String::new() };
    // digits with a point somewhere (or none)
    let put = |r: &mut Rng, d: &str| -> String {
        match r.below(4) {
            0 => d.to_string(),
            1 => format!("{}.{}", d, "0".repeat(r.below(4))),
            2 if d.len() > 1 => { let k = r.urange(1, d.len() - 1); format!("{}.{}", &d[..k], &d[k..]) }
            _ => { let n = if r.chance(0.1) { r.urange(10, 60) } else { r.below(6) }; format!("0.{}{}", "0".repeat(n), d) }
        }
    };
    let m = put(r, &digits);
    let unit = r.pick(&["", "", "", "", "V", "A", "F", "s", "Hz", "Ohm", "S", "H", "volts", "a", "b", "c", "d", "f", "g", "h", "t", "w", "x", "y", "z", "G", "K", "M", "T", "P", "N", "U", "X", "_"]).to_string();
    match style {
        0 => { let t = format!("{}{}{}", sign, lead, m); Lit { val: t.parse().unwrap(), text: t + &unit, exact: true } }
        1 | 2 => {
            let es = match (e < 0, r.below(3)) { (true, 0) => format!("-0{}", -e), (true, _) => format!("-{}", -e), (false, 0) => format!("+{}", e), (false, 1) => format!("0{}", e), _ => e.to_string() };
            // any number of zeros in front
            let es = if r.chance(0.08) { let (sg, n) = es.split_at(es.len() - es.trim_start_matches(|c| c == '-' || c == '+').len()); format!("{}{}{}", sg, "0".repeat(r.urange(1, 8)), n) } else { es };
            let t = format!("{}{}{}{}{}", sign, lead, m, if r.chance(0.2) { "E" } else { "e" }, es);
            Lit { val: t.parse().unwrap(), text: t + &unit, exact: true }
        }
        _ => {
            let (sx, p) = *r.pick(&num::SUFFIX);
            let unit = if r.chance(0.3) { num::unit(r) } else { r.pick(&["", "", "", "V", "A", "F", "s", "Hz", "Ohm", "eg", "m", "k", "p", "e3", "1", "_"]).to_string() };
            let t = format!("{}{}{}", sign, lead, m);
            let val: f64 = format!("{}e{}", t, p).parse().unwrap();
            Lit { text: format!("{}{}{}", t, sx, unit), val, exact: false }
        }
    }
}
impl Lit {
    fn is(&self, v: f64) -> Result<(), String> {
        let ok = if self.exact { v == self.val } else { (v - self.val).abs() <= 4.0 * EPS * self.val.abs() };
        if ok { Ok(()) } else { Err(format!("'{}' was read as {:e} instead of {:e}", self.text, v, self.val)) }
    }
}

fn c08(c: &mut Ctx) -> Verdict {
    if c.r.chance(0.2) { return c08_not(c); }
    let r = &mut c.r;
    let any = (-250, 250);
    let mut lits: Vec<(&str, Lit)> = vec![];
    let mut deck = String::from("title\n");
    // where each is found again: by a node of its own
    let mut want = |k: &'static str, l: Lit| { lits.push((k, l)); lits.len() - 1 };
    let l = |r: &mut Rng, pos: bool| { let span = if r.chance(0.7) { (-15, 9) } else { any }; literal(r, pos, span) };
    let mut cards: Vec<String> = vec![];
    let n = r.urange(1, 12);
    let mut uses: Vec<(usize, usize)> = vec![]; // card, first literal
    let mut kinds: Vec<&str> = vec![];
    let mut sub = String::new();
    for i in 0..n {
        let kind = *r.pick(&["R", "C", "E", "G", "V", "I", "VSIN", "ISIN", "PWL", "DEF", "OVER", "THRU"]);
        let at = format!("n{}", i);
        let first = match kind {
            "R" | "C" => { let x = l(r, false); cards.push(format!("{}{} {} 0 {}", kind, i, at, x.text)); want(kind, x) }
            "E" | "G" => { let x = l(r, false); cards.push(format!("{}{} {} 0 a b {}", kind, i, at, x.text)); want(kind, x) }
            "V" | "I" => { let x = l(r, false); cards.push(format!("{}{} {} 0 {}", kind, i, at, x.text)); want(kind, x) }
            "VSIN" | "ISIN" => {
                let (x, y, z) = (l(r, false), l(r, false), l(r, false));
                let t = match r.below(3) { 0 => format!("SIN({} {} {})", x.text, y.text, z.text), 1 => format!("SIN( {} {} {} )", x.text, y.text, z.text), _ => format!("SIN({} {} {} )", x.text, y.text, z.text) };
                cards.push(format!("{}{} {} 0 {}", &kind[..1], i, at, t));
                let f = want(kind, x); want(kind, y); want(kind, z); f
            }
            "PWL" => {
                let np = r.urange(1, 5);
                let mut t = String::new();
                let mut last = 0.0;
                let mut f = None;
                for k in 0..np {
                    // increasing times; the first one is 0
                    let mut x = if k == 0 { Lit { text: r.pick(&["0", "0.0", "0n", "0e0", "00"]).to_string(), val: 0.0, exact: true } } else { l(r, true) };
                    if k > 0 { let mut tries = 0; while x.val <= last * (1.0 + 1e-9) && tries < 50 { x = literal(r, true, (-15, 9)); tries += 1; } if x.val <= last * (1.0 + 1e-9) { break; } last = x.val; }
                    let y = l(r, false);
                    if k > 0 { t += r.pick(&[", ", ",", " , "]); }
                    t += &format!("{}{}{}", x.text, r.pick(&[", ", ",", " ,"]), y.text);
                    let a = want("PWL", x);
                    want("PWL", y);
                    if f.is_none() { f = Some(a); }
                }
                let d = l(r, true);
                cards.push(format!("V{} {} 0 PWL({}) td={} r={}", i, at, t, d.text, r.pick(&["0", "-1", "0.0", "-1.0"])));
                want("td", d);
                f.unwrap()
            }
            _ => {
                let x = l(r, false);
                let y = l(r, false);
                match kind {
                    "DEF" => { sub += &format!(".subckt s{} p val={} other={}\nR1 p 0 {{val}}\n.ends\n", i, x.text, y.text); cards.push(format!("X{} {} s{}", i, at, i)); }
                    "OVER" => { sub += &format!(".subckt s{} p val={}\nC1 p 0 {{val}}\n.ends\n", i, y.text); cards.push(format!("X{} {} s{} val={}", i, at, i, x.text)); }
                    _ => { sub += &format!(".subckt s{} p v={}\nX1 p t{} w={{v}}\n.ends\n.subckt t{} q w=1\nE1 q 0 a b {{w}}\n.ends\n", i, y.text, i, i); cards.push(format!("X{} {} s{} v={}", i, at, i, x.text)); }
                }
                want(kind, x)
            }
        };
        kinds.push(kind);
        uses.push((i, first));
    }
    let before = r.chance(0.5);
    if before { deck += &sub; }
    for x in &cards { deck += x; deck.push('\n'); }
    if !before { deck += &sub; }
    deck += "R_a a 0 1\nR_b b 0 1\n";
    let (s1, s2, s3) = (l(r, false), l(r, false), l(r, false));
    let with3 = r.chance(0.6);
    let opts: Vec<(&str, Lit)> = ["RELTOL", "ABSTOL", "RMAX"].iter().map(|n| (*n, l(r, true))).collect();
    deck += ".control\n";
    let mut set = vec![];
    for (n, x) in opts { if r.chance(0.5) { deck += &format!("option {}{}{}\n", n, r.pick(&[" = ", "=", " =", "= "]), x.text); set.push((n, x)); } }
    deck += &format!("tran {} {}{}\n.endc\n", s1.text, s2.text, if with3 { format!(" {}", s3.text) } else { String::new() });
    c.note(&deck);
    let (sim, x) = c.run.read(&deck);
    sim.ran()?;
    let (ckt, cfg) = x.ok_or("no circuit")?;
    let id = |n: &str| ckt.node_id_lut.iter().find(|x| x.1 == n).map(|x| *x.0);
    use tiny_spice::circuit::Element as L;
    let mut n = 0;
    for ((i, f), kind) in uses.iter().zip(&kinds) {
        let node = id(&format!("n{}", i)).ok_or(format!("no node n{}", i))?;
        let mine: Vec<&L> = ckt.elements.iter().filter(|e| match e {
            L::R(x) => x.a == node, L::C(x) => x.a == node, L::V(x) => x.p == node, L::I(x) => x.p == node, L::Vsin(x) => x.p == node, L::Isin(x) => x.p == node,
            L::Vpwl(x) => x.p == node, L::Vcvs(x) => x.p == node, L::Vccs(x) => x.p == node, _ => false,
        }).collect();
        if mine.len() != 1 { return Err(format!("{} elements at n{}", mine.len(), i).into()); }
        let got: Vec<f64> = match (mine[0], *kind) {
            (L::R(x), "R" | "DEF") => vec![x.value],
            (L::C(x), "C" | "OVER") => vec![x.value],
            (L::V(x), "V") => vec![x.value],
            (L::I(x), "I") => vec![x.value],
            (L::Vsin(x), "VSIN") => vec![x.vo, x.va, x.freq],
            (L::Isin(x), "ISIN") => vec![x.vo, x.va, x.freq],
            (L::Vpwl(x), "PWL") => x.pat.iter().flat_map(|p| [p.0, p.1]).chain([x.t_delay]).collect(),
            (L::Vcvs(x), "E" | "THRU") => vec![x.k],
            (L::Vccs(x), "G") => vec![x.k],
            _ => return Err(format!("n{} has an element of another kind than {}", i, kind).into()),
        };
        let next = uses.iter().map(|u| u.1).find(|u| u > f).unwrap_or(lits.len());
        if got.len() != next - f { return Err(format!("{} values at n{} instead of {}", got.len(), i, next - f).into()); }
        for (g, (k, x)) in got.iter().zip(&lits[*f..next]) { x.is(*g).map_err(|e| format!("{}: {}", k, e))?; n += 1; }
    }
    s1.is(cfg.TSTEP).map_err(|e| format!("tran step: {}", e))?;
    s2.is(cfg.TSTOP).map_err(|e| format!("tran stop: {}", e))?;
    if with3 { s3.is(cfg.TSTART).map_err(|e| format!("tran start: {}", e))?; }
    for (o, x) in &set { x.is(match *o { "RELTOL" => cfg.RELTOL, "ABSTOL" => cfg.ABSTOL, _ => cfg.RMAX }).map_err(|e| format!("option {}: {}", o, e))?; n += 1; }
    c.count("literals_checked", n + 2 + with3 as u64);
    c.nontrivial(&deck);
    Ok(())
}

/// text that is no number, where a number has to be
fn c08_not(c: &mut Ctx) -> Verdict {
    let bad = c.r.pick(&["abc", "k", "-", "+", "e5", "--5", "+-5", "nan", "inf", "-inf", "NaN", "x10", "k10", "-k", "_1", "#5", "(5", "[5]", "/5", "\"5\"", "m", "u1", "\u{b5}", "\u{664}5", "\u{ff15}", "e", "E", "E3", "-E3", "-e3", "*5*", "V1", "!", "$5", "&", "~1", "infinity", "-x"]).to_string();
    let pos = c.r.below(16);
    let g = |r: &mut Rng| { let x = r.logu(1.0, 10.0); num::near(r, x).text };
    let (a, b, d) = (g(&mut c.r), g(&mut c.r), g(&mut c.r));
    // within parentheses and after '=' other text has a meaning
    if matches!(pos, 4..=9) && bad.contains('(') { return Ok(()); }
    let (card, ctl) = match pos {
        0 => (format!("R1 a 0 {}", bad), s("op")),
        1 => (format!("C1 a 0 {}", bad), s("op")),
        2 => (format!("V2 a b {}", bad), s("op")),
        3 => (format!("I1 a 0 {}", bad), s("op")),
        4 => (format!("V2 b 0 SIN({} {} {})", bad, b, d), s("op")),
        5 => (format!("V2 b 0 SIN({} {} {})", a, bad, d), s("op")),
        6 => (format!("I1 b 0 SIN({} {} {})", a, b, bad), s("op")),
        7 => (format!("V2 b 0 PWL(0, {}, 20, {})", bad, d), s("op")),
        8 => (format!("V2 b 0 PWL(0, {}, {}, {})", a, bad, d), s("op")),
        9 => (format!("V2 b 0 PWL(0, {}, 20, {}) td={}", a, d, bad), s("op")),
        10 => (format!("E1 b 0 a 0 {}", bad), s("op")),
        11 => (format!("G1 b 0 a 0 {}", bad), s("op")),
        12 => (format!(".subckt s p v={}\nR1 p 0 {{v}}\n.ends\nX1 a s", bad), s("op")),
        13 => (format!(".subckt s p v=1\nR1 p 0 {{v}}\n.ends\nX1 a s v={}", bad), s("op")),
        14 => (s("R2 a 0 1"), match c.r.below(3) { 0 => format!("tran {} 1", bad), 1 => format!("tran 1 {}", bad), _ => format!("tran 1 2 {}", bad) }),
        _ => (s("R2 a 0 1"), format!("option {} = {}\nop", c.r.pick(&["RELTOL", "ABSTOL", "RMAX"]), bad)),
    };
    let text = format!("title\nV1 a 0 1\nR9 a b 1\nR8 b 0 1\n{}\n.control\n{}\n.endc\n", card, ctl);
    c.note(&text);
    let sim = c.run.run(&text);
    if sim.panic.is_none() && !sim.refused { return Err(format!("'{}' was taken for a number", bad).into()); }
    if sim.panic.is_none() && !sim.errors() { return Err("refused without a message".into()); }
    c.count("non_numbers_refused", 1);
    c.nontrivial(&text);
    Ok(())
}

/// some deck: a hierarchy or a flat circuit, an analysis and options
pub fn any_deck(c: &mut Ctx, diodes: f64) -> Deck {
    let mut d;
    let scale = 1e-3;
    if c.r.chance(0.6) {
        let mut o = HOpts::ordinary();
        if c.r.chance(diodes) { o.diodes = 0.2; }
        d = gen::hier(&mut c.r, &o);
    } else {
        let mut o = Opts::linear();
        o.ptime = 0.5; o.weird_names = c.r.chance(0.4); o.wc = 2.0; o.c = (1e-9, 1e-6);
        o.pe = 0.1; o.wg = 0.7; o.we = 0.5; o.k = (0.1, 3.0); o.gm = (1e-6, 1e-4);
        if c.r.chance(diodes) { o.wd = 1.5; o.r = (100.0, 1e6); o.v = (0.1, 10.0); o.i = (1e-6, 1e-2); }
        let cards = gen::cards(&mut c.r, &o);
        d = flat_deck(cards, vec![]);
    }
    let r = &mut c.r;
    if r.chance(0.15) { d.ctl.push(Ctl::Other(r.pick(&["plot v(out)", "print v(1) v(2)", "run", "set filetype=ascii", "write out.raw v(a)", "tranquil 1 2", "opt 3", "dc V1 0 1 0.1", "ac dec 10 1 1k", "temp 50", "options RELTOL=0.5"]).to_string())); }
    if r.chance(0.3) { let x = r.logu(1e-5, 1e-3); d.ctl.push(Ctl::Option(s("RELTOL"), num::near(r, x))); }
    if r.chance(0.2) { let x = r.logu(1e-10, 1e-8); d.ctl.push(Ctl::Option(s("ABSTOL"), num::near(r, x))); }
    if r.chance(0.3) { let x = r.logu(0.5, 8.0); d.ctl.push(Ctl::Option(s("RMAX"), num::near(r, x))); }
    if r.chance(0.25) { d.ctl.push(Ctl::Op); } else { let t = short_tran(c, scale); d.ctl.push(t); }
    d
}

/// everything an analysis gives, to the last bit
pub fn bits(s: &Sim) -> String {
    let mut o = format!("{:?} {:?} refused {} stats {:?}\n", s.panic, s.wave_err, s.refused, s.stats.map(|(a, b)| (a.to_bits(), b)));
    if let Some(x) = &s.dc { for v in x { o += &format!("{:x} ", v.to_bits()); } o.push('\n'); }
    o += &s.node_names.join(" ");
    o.push('\n');
    if let Some(w) = &s.wave { o += &w.raw; }
    for l in s.out.lines().filter(|l| l.contains("*ERROR*") || l.contains("*FATAL*")) { o += l; o.push('\n'); }
    o
}
pub fn first_difference(a: &str, b: &str) -> String {
    for (k, (x, y)) in a.lines().zip(b.lines()).enumerate() { if x != y { return format!("line {}: '{}' and '{}'", k, x.chars().take(300).collect::<String>(), y.chars().take(300).collect::<String>()); } }
    format!("{} and {} lines", a.lines().count(), b.lines().count())
}

const TITLES: [&str; 24] = ["", "title", "R1 a 0 1k", "V9 n1 0 100", ".control", ".subckt foo a b", ".ends", ".lib nosuch.lib tt", ".endc", ".end", "* comment", "; nothing", "   ", "\t.control", "X1 a b nosuch", "D1 0 n1", "Q1 what is this", "50% \u{3a9} {x} (1,2)", ".endl", "tran 1 2", "op", "option RELTOL = 1", "gnd 0 GND", "\"quoted\" 'title' \\n"];

fn c09(c: &mut Ctx) -> Verdict {
    let d = any_deck(c, 0.2);
    let a = d.plain();
    let mut e = d.clone();
    e.title = c.r.pick(&TITLES).to_string();
    if c.r.chance(0.3) {
        // a name that is used in the deck, as it is or as part of something
        let words: Vec<&str> = a.split(|x: char| x.is_whitespace() || "={}(),".contains(x)).filter(|x| !x.is_empty()).collect();
        let w = c.r.pick(&words).to_string();
        e.title = match c.r.below(5) { 0 | 1 => w, 2 => format!("{} * {}", w, w), 3 => format!(" {} ; x", w), _ => format!("* {}", w) };
    }
    let noise = c.r.unit();
    let mut b = e.text(&mut Layout::random(c.r.u64(), noise, true));
    if c.r.chance(0.3) { b.pop(); } else if c.r.chance(0.3) { b += c.r.pick(&["\n", "\n\n\n", "* end", "\n; end", "\n   \n", "\n*"]); }
    c.note(&a); c.note("--- laid out otherwise:"); c.note(&b);
    // comments and titles are not always in UTF-8
    let mut bytes = b.clone().into_bytes();
    if c.r.chance(0.15) {
        let n = c.r.urange(1, 4);
        for _ in 0..n {
            let l: Vec<(usize, usize)> = { let mut v = vec![]; let mut i = 0; for x in bytes.split(|x| *x == b'\n') { v.push((i, i + x.len())); i += x.len() + 1; } v };
            let k = if c.r.chance(0.4) { 0 } else { c.r.below(l.len()) };
            let (i, j) = l[k];
            let line = &bytes[i..j];
            let from = if k == 0 { i } else if line.iter().find(|x| !x.is_ascii_whitespace()) == Some(&b'*') { i + 1 + line.iter().position(|x| *x == b'*').unwrap() } else if let Some(p) = line.iter().position(|x| *x == b';') { i + p + 1 } else { continue };
            let at = c.r.urange(from, j);
            let w: &[u8] = *c.r.pick(&[&b"\xb5"[..], b"\xe9", b"\xff", b"\xc3", b"\xe2\x84", b"\x80\x81", b"\xf8\x88\x80\x80\x80", b"\x00", b"\xc0\xaf", b"\xed\xa0\x80"]);
            // not within a character
            if std::str::from_utf8(&bytes).map_or(false, |t| !t.is_char_boundary(at)) { continue; }
            bytes.splice(at..at, w.iter().cloned());
            c.count("bytes_that_are_not_text", 1);
        }
    }
    let f = d.flatten()?;
    let nl = f.nonlinear();
    let run = |c: &mut Ctx, t: &[u8]| { let mut k = None; let sim = c.run.run_bytes(t, |g| { if nl { g.RMIN = 1e-3; } k = Some(format!("{:?} {:e} {:e} {:e} {:e} {:e} {:e}", g.kind.as_ref().map(|k| k.to_string()), g.RELTOL, g.ABSTOL, g.RMAX, g.TSTEP, g.TSTOP, g.TSTART)); }); (sim, k) };
    let (sa, ka) = run(c, a.as_bytes());
    if sa.refused || (sa.panic.is_some() && !nl) { return Err(format!("a valid deck is refused: {} {}", sa.last_error(), sa.panic.clone().unwrap_or_default()).into()); }
    let (sb, kb) = run(c, &bytes);
    if ka != kb { return Err(format!("settings {:?} and {:?}", ka, kb).into()); }
    let (x, y) = (bits(&sa), bits(&sb));
    if x != y { return Err(format!("results differ: {}", first_difference(&x, &y)).into()); }
    c.count("pairs_compared", 1);
    c.count("lines_of_layout", b.lines().count() as u64);
    c.count("rows_compared", sa.wave.as_ref().map_or(1, |w| w.rows.len()) as u64);
    if sa.wave.is_some() || sa.dc.is_some() { c.nontrivial(&b); }
    Ok(())
}

/// lines of a deck without title and control block, and the control block
fn split_deck(text: &str) -> (Vec<String>, Vec<String>) {
    let l: Vec<String> = text.lines().skip(1).map(|x| x.to_string()).collect();
    let k = l.iter().position(|x| x == ".control").unwrap_or(l.len());
    (l[..k].to_vec(), l[k..].to_vec())
}

/// a stretch of lines that can be moved elsewhere: balanced, or inside one definition
fn stretch(r: &mut Rng, l: &[String]) -> Option<(usize, usize)> {
    if l.is_empty() { return None; }
    for _ in 0..20 {
        let i = r.below(l.len());
        let j = r.urange(i + 1, l.len());
        let mut open = 0i32;
        let mut ok = true;
        for x in &l[i..j] { if x.starts_with(".subckt") { open += 1; } if x.starts_with(".ends") { open -= 1; } if x.starts_with(".lib") { ok = false; } ok &= open >= 0; }
        if ok && open == 0 { return Some((i, j)); }
    }
    None
}

fn laid_out(r: &mut Rng, lines: &[String], noise: f64) -> String {
    let mut o = String::new();
    let mut l = Layout::random(r.u64(), noise, false);
    for x in lines { let f: Vec<String> = x.split_whitespace().map(s).collect(); l.line(&mut o, &f); }
    o
}

const SECTIONS: [&str; 14] = ["tt", "TT", "ss", "ff", "t", "tt2", "section_1", "1", "typ-typ", "lib", ".lib", "in", "R1", "endl"];

/// the text of a library file: sections with their lines, and all kinds of things around them
fn library(r: &mut Rng, sections: &[(String, Vec<String>)], noise: f64) -> String {
    let mut o = format!("{}\n", r.pick(&TITLES));
    let decoys = |r: &mut Rng| -> Vec<String> {
        match r.below(if sections.is_empty() { 6 } else { 8 }) {
            6 => { let n = r.pick(sections).0.clone(); let l = r.pick(&[format!(".lib other.lib {}", n), format!(".lib {} {}", n, n), format!(".lib {} x", n), format!("lib {}", n), format!(".LIB {}", n), format!(".lib x{}", n), format!(".lib {}x", n), format!("x .lib {}", n), s(".lib")]).clone(); vec![l, s("R667 n1 0 1"), s("V667 nowhere 0 7")] }
            7 => { let n = r.pick(sections).0.clone(); let l = r.pick(&[format!("*.lib {}", n), format!("; .lib {}", n), format!("* .lib {}", n)]).clone(); vec![l, s("R668 n1 0 1")] }
            0 => vec![s("R666 n1 0 1"), s("V666 nowhere 0 7")],
            1 => vec![s(".control"), s("op"), s("option RELTOL = 0.5"), s(".endc")],
            2 => vec![s("this is no card at all")],
            3 => vec![s(".subckt cell a b c"), s("R1 a b 1"), s(".ends")],
            4 => vec![s(".ends"), s(".endc"), s(".include something")],
            _ => vec![],
        }
    };
    for (name, body) in sections {
        let d = decoys(r); o += &laid_out(r, &d, noise);
        o += &laid_out(r, &[format!(".lib {}", name)], noise);
        o += &laid_out(r, body, noise);
        let e = if r.chance(0.3) { format!(".endl {}", name) } else { s(".endl") };
        o += &laid_out(r, &[e], noise);
    }
    let d = decoys(r); o += &laid_out(r, &d, noise);
    o
}

fn c13(c: &mut Ctx) -> Verdict {
    let d = any_deck(c, 0.1);
    let whole = d.plain();
    let nl = d.flatten()?.nonlinear();
    let (mut lines, ctl) = split_deck(&whole);
    let r = &mut c.r;
    // move one or two stretches into sections of one or two files
    let mut names: Vec<&str> = SECTIONS.to_vec();
    r.shuffle(&mut names);
    let mut taken: Vec<(String, Vec<String>)> = vec![];
    let mut commands = 0;
    let mut many: Option<Vec<String>> = None;
    for _ in 0..r.urange(1, 2) {
        let k = taken.len();
        if let Some((i, j)) = stretch(r, &lines) {
            let body: Vec<String> = lines.drain(i..j).collect();
            lines.insert(i, format!(".lib @{} {}", k, names[k]));
            taken.push((names[k].to_string(), body));
        }
    }
    if taken.is_empty() { return Ok(()); }
    // a section may have commands of its own
    let (mut whole, mut ctl) = (whole, ctl);
    if r.chance(0.25) {
        let k = r.below(taken.len());
        let at = lines.iter().position(|l| l.starts_with(&format!(".lib @{} ", k))).unwrap();
        if !lines[..at].iter().rev().find(|l| l.starts_with(".subckt") || l.starts_with(".ends")).map_or(false, |l| l.starts_with(".subckt")) {
            let block: Vec<String> = if r.chance(0.3) && !ctl.is_empty() { std::mem::take(&mut ctl) } else {
                let opt = match r.below(3) { 0 => format!("option RELTOL={}", num::near(r, 1e-5).text), 1 => format!("option RMAX = {}", r.range(1, 9)), _ => s("option ABSTOL=1e-10") };
                let mut b = vec![s(".control"), opt];
                match r.below(4) { 0 => b.push(s("op")), 1 => b.push(s("tran 0.1m 0.6m")), _ => {} }
                b.push(s(".endc"));
                b
            };
            let at = if r.chance(0.5) { 0 } else { taken[k].1.len() };
            taken[k].1.splice(at..at, block);
            let mut all = vec![];
            for l in &lines { match (0..taken.len()).find(|k| l.starts_with(&format!(".lib @{} ", k))) { Some(k) => all.extend(taken[k].1.clone()), None => all.push(l.clone()) } }
            all.extend(ctl.clone());
            whole = format!("title\n{}\n", all.join("\n"));
            commands = 1;
        }
    }
    // a section may be used any number of times
    if r.chance(0.04) {
        let m = r.urange(2, 50);
        let body: Vec<String> = (0..r.urange(1, 2)).map(|k| format!("R_{} many_{} {} {}", k, k, r.pick(&["0", "gnd", "many_0"]), r.range(1, 900))).collect();
        let mut all: Vec<String> = whole.lines().map(s).collect();
        for _ in 0..m { lines.insert(0, s(".lib @0 many_of_them")); all.splice(1..1, body.clone()); }
        whole = all.join("\n") + "\n";
        many = Some(body);
        c.count("sections_used_many_times", 1);
    }
    let r = &mut c.r;
    let two_files = r.chance(0.4);
    let places = ["models.lib", "libs/models.lib", "../shared/models.lib", "./m", "a/b/../x.lib", "deck.lib"];
    let p0 = r.below(places.len());
    let p1 = (p0 + 1 + r.below(places.len() - 1)) % places.len();
    let file = |k: usize| if two_files && k == 1 { places[p1] } else { places[p0] };
    for l in lines.iter_mut() { for k in 0..2 { *l = l.replace(&format!(".lib @{} ", k), &format!(".lib {} ", file(k))); } }
    let noise = if r.chance(0.5) { r.unit() * 0.6 } else { 0.0 };
    let mut sections: Vec<Vec<(String, Vec<String>)>> = vec![vec![], vec![]];
    for (k, t) in taken.iter().enumerate() { sections[if two_files { k } else { 0 }].push(t.clone()); }
    if let Some(b) = many { sections[0].push((s("many_of_them"), b)); }
    // other sections, with the same cards and other values
    for sec in sections.iter_mut() {
        let mut free: Vec<&str> = names[2..].to_vec();
        for _ in 0..r.below(3) {
            if sec.is_empty() { break; }
            let mut body = r.pick(sec).1.clone();
            for b in body.iter_mut() { *b = b.replace('1', "3"); }
            if r.chance(0.3) { body.push(s("nonsense")); }
            let at = r.below(sec.len() + 1);
            sec.insert(at, (free.pop().unwrap().to_string(), body));
        }
        if r.chance(0.5) { r.shuffle(sec); }
    }
    // what can go wrong
    let fault = if r.chance(0.15) { 1 + r.below(4) } else { 0 };
    let spoilt = taken[r.below(taken.len())].0.clone();
    let mut files: Vec<(String, String)> = vec![];
    for (k, sec) in sections.iter().enumerate() {
        if sec.is_empty() { continue; }
        let mut sec = sec.clone();
        let mut has = false;
        if let Some(at) = sec.iter().position(|x| x.0 == spoilt) {
            has = true;
            if fault == 2 { sec.remove(at); }
            if fault == 3 { let x = sec.remove(at); sec.push(x); }
        }
        let mut t = library(r, &sec, noise);
        if fault == 3 && has {
            // cut the file inside the section
            let k = t.rfind(".endl").unwrap();
            t.truncate(t[..k].rfind('\n').map_or(k, |x| x + 1));
        }
        if fault == 4 && has { t = t.replace(".endl", "* .endl"); }
        if fault == 1 && has { continue; }
        files.push((file(k).to_string(), t));
    }
    let mut text = format!("{}\n", r.pick(&TITLES));
    text += &laid_out(r, &lines, noise);
    text += &laid_out(r, &ctl, noise);
    c.note(&text);
    for (f, t) in &files { c.note(&format!("--- {}:\n{}", f, t)); }
    let as_program = c.r.chance(0.03);
    let dir = c.run.subdir("libs");
    let home = dir.join("work/decks");
    for x in ["work/decks/a/b", "work/decks/libs", "work/shared", "else/libs", "else/decks", "shared"] { std::fs::create_dir_all(dir.join(x)).unwrap(); }
    std::fs::write(home.join("deck.spi"), &text).unwrap();
    std::fs::write(home.join("whole.spi"), &whole).unwrap();
    for (f, t) in &files { std::fs::write(home.join(f), t).unwrap(); }
    if as_program {
        // started elsewhere, where there are files of the same names with other contents
        for (f, _) in &files { let decoy = dir.join("else/decks").join(f); if let Some(p) = decoy.parent() { let _ = std::fs::create_dir_all(p); } let _ = std::fs::write(dir.join("else").join(f), "t\n.lib tt\nR777 n1 0 1\n.endl\n"); let _ = std::fs::write(decoy, "t\n.lib tt\nR777 n1 0 1\n.endl\n"); }
        let cwd = match c.r.below(4) { 0 => home.clone(), 1 => dir.clone(), 2 => dir.join("else"), _ => dir.join("work/decks/libs") };
        let path = |f: &str, abs: bool| -> String {
            let abs_path = home.join(f).to_str().unwrap().to_string();
            if abs { return abs_path; }
            if cwd == home { f.to_string() } else if cwd == dir { format!("work/decks/{}", f) } else if cwd == dir.join("else") { format!("../work/decks/{}", f) } else { format!("../{}", f) }
        };
        let abs = c.r.chance(0.3);
        let (a, b) = (path("deck.spi", abs), path("whole.spi", abs));
        let ra = c.run.cli(&cwd, &a, Limits::default());
        let waves = |cwd: &std::path::Path| -> Vec<(String, String)> { files_below(&cwd.join("waves")).into_iter().map(|f| { let t = std::fs::read_to_string(cwd.join("waves").join(&f)).unwrap_or_default(); (f, t) }).collect() };
        let wa = waves(&cwd);
        let _ = std::fs::remove_dir_all(cwd.join("waves"));
        if fault > 0 {
            if !ra.diagnosed() || !wa.is_empty() { return Err(format!("a missing library, section or end of section, but {} ({} data files)", ra.brief(), wa.len()).into()); }
            c.count("program_faults_refused", 1);
            return Ok(());
        }
        let rb = c.run.cli(&cwd, &b, Limits::default());
        let wb = waves(&cwd);
        if ra.code != rb.code { return Err(format!("with the library {}, pasted {}", ra.brief(), rb.brief()).into()); }
        if wa.iter().map(|x| &x.1).collect::<Vec<_>>() != wb.iter().map(|x| &x.1).collect::<Vec<_>>() { return Err(format!("waveforms differ between the program's runs with the library and pasted: {} and {} files; {}", wa.len(), wb.len(), ra.brief()).into()); }
        c.count("program_runs_compared", 1);
        if !wa.is_empty() { c.nontrivial(&text); }
        return Ok(());
    }
    let go = |c: &mut Ctx, f: &str| { let (sim, x) = c.run.read_path(&home.join(f)); match x { None => (sim, String::new()), Some((ckt, mut g)) => { if nl { g.RMIN = 1e-3; }
        let k = format!("{:?} {:e} {:e} {:e} {:e} {:e} {:e}", g.kind.as_ref().map(|k| k.to_string()), g.RELTOL, g.ABSTOL, g.RMAX, g.TSTEP, g.TSTOP, g.TSTART);
        (c.run.analyse(&ckt, &g, sim), k) } } };
    let (a, ka) = go(c, "deck.spi");
    if fault > 0 {
        if a.panic.is_none() && !a.refused { return Err("a missing library, section or end of section, but it was simulated".into()); }
        c.count("faults_refused", 1);
        c.nontrivial(&text);
        return Ok(());
    }
    let (b, kb) = go(c, "whole.spi");
    if a.refused != b.refused || ka != kb { return Err(format!("with the library: {} {} {:?} settings {}; pasted: {} settings {}", a.refused, a.last_error(), a.panic, ka, b.refused, kb).into()); }
    let (x, y) = (bits(&a), bits(&b));
    if x != y { return Err(format!("results differ: {}", first_difference(&x, &y)).into()); }
    c.count("imports_compared", taken.len() as u64);
    c.count("sections_with_commands", commands);
    if a.wave.is_some() || a.dc.is_some() { c.nontrivial(&text); }
    Ok(())
}

/// one card or structure of a valid deck is broken; what was done
fn broken(r: &mut Rng, l: &mut Vec<String>, ctl: &mut Vec<String>) -> Option<String> {
    let fields = |x: &String| -> Vec<String> { x.split_whitespace().map(s).collect() };
    // lines of definitions that are used from the top level
    let mut scope = vec![];
    { let mut cur = String::new(); for x in l.iter() { let f = fields(x); if f[0] == ".subckt" { cur = f[1].clone(); } scope.push(cur.clone()); if f[0] == ".ends" { cur.clear(); } } }
    let mut used: Vec<String> = vec![String::new()];
    let sub_of = |f: &Vec<String>| f.iter().rev().find(|x| !x.contains('=')).cloned().unwrap_or_default();
    let mut k = 0;
    while k < used.len() { for (i, x) in l.iter().enumerate() { if scope[i] == used[k] && x.starts_with('X') { let n = sub_of(&fields(x)); if !used.contains(&n) { used.push(n); } } } k += 1; }
    let alive: Vec<usize> = (0..l.len()).filter(|i| used.contains(&scope[*i])).collect();
    let cards: Vec<usize> = (0..l.len()).filter(|i| !l[*i].starts_with('.')).collect();
    let subs: Vec<usize> = (0..l.len()).filter(|i| l[*i].starts_with(".subckt")).collect();
    let of = |ks: &str, only_alive: bool| -> Vec<usize> { cards.iter().filter(|i| ks.contains(l[**i].chars().next().unwrap()) && (!only_alive || alive.contains(i))).cloned().collect() };
    let any_place = |r: &mut Rng, n: usize| r.below(n + 1);
    let kind = r.below(26);
    match kind {
        24 => { // a longer list of points with something wrong in it
            let i = any_place(r, l.len());
            let n = r.urange(2, 12);
            let mut f: Vec<String> = (0..2 * n).map(|k| if k % 2 == 0 { format!("{}{}", k, r.pick(&["u", "m", "e-6"])) } else { format!("{}", r.below(9)) }).collect();
            match r.below(3) {
                0 => { f.pop(); }
                1 => { let k = r.below(f.len()); f[k] = r.pick(&["x", "", "1 2", "--1", "{x}", "k", "1e"]).to_string(); if f[0].is_empty() { f[0] = s("x"); } }
                _ => { f.remove(0); }
            }
            let x = format!("V77 {} {} PWL({}){}", r.pick(&["n1", "zz", "0"]), r.pick(&["n2", "yy", "gnd"]), f.join(r.pick(&[", ", ","])), r.pick(&["", " td=1m", " r=0"]));
            l.insert(i, x);
            Some(format!("bad source: '{}'", l[i]))
        }
        25 => { // commands
            let e = ctl.iter().position(|x| x == ".endc")?;
            let at = r.urange(1, e);
            ctl.insert(at, r.pick(&["tran", "tran 1u", "tran 1u x", "tran x 1m", "tran 1u 1m uic", "tran 1u 1m x", "tran 1u {x}", "tran 1u 1m -", "tran - 1m", "option RELTOL", "option RELTOL=abc", "option ABSTOL = x1", "option RMAX=", "option rmax = =", "option RELTOL = {x}", "option RMAX 3"]).to_string());
            Some(format!("bad command: '{}'", ctl[at]))
        }
        0 | 1 => { // a field is missing
            let v = of("RCDVIEG", false);
            if v.is_empty() { return None; }
            let i = *r.pick(&v);
            let mut f = fields(&l[i]);
            let need = match l[i].chars().next().unwrap() { 'D' => 3, 'E' | 'G' => 6, _ => 4 };
            if f.len() > need { // SIN, PWL
                let keep = if r.chance(0.5) { r.urange(1, 3) } else { f.remove(r.urange(1, 2)); f.len() };
                f.truncate(keep);
            } else if r.chance(0.5) { f.truncate(r.urange(1, need - 1)); } else { f.remove(r.urange(1, need - 1)); }
            // SIN and PWL can be one field less
            if f.len() == 4 && "VI".contains(&f[0][..1]) && f[3].contains('(') { return None; }
            // an inner parameter reference or number is still there: only its place is wrong
            l[i] = f.join(" ");
            Some(format!("missing field: '{}'", l[i]))
        }
        2 => { // a value is no number
            let v = of("RCEG", false);
            if v.is_empty() { return None; }
            let i = *r.pick(&v);
            let mut f = fields(&l[i]);
            let last = f.len() - 1;
            f[last] = r.pick(&["abc", "k", "{", "{a", "a}", "{2*x}", "{a+b}", "{a b}", "ten", "#", "-", "'1k'", "\"1k\"", "=5", "R=5", "(5)", "{ ", "x1", "[1]", "{r}k", "{r}{r}", "{r}}", "{val}0", "{c}*2", "{r}u", "{r},", "{r}V"]).to_string();
            l[i] = f.join(" ");
            Some(format!("no number: '{}'", l[i]))
        }
        3 => { // a word too many before the value
            let v = of("RCEG", false);
            if v.is_empty() { return None; }
            let i = *r.pick(&v);
            let mut f = fields(&l[i]);
            let at = f.len() - 1;
            f.insert(at, r.pick(&["n7x", "abc", "x", "gnd", "_"]).to_string());
            l[i] = f.join(" ");
            Some(format!("a name where the value is: '{}'", l[i]))
        }
        4 | 5 => { // illegal node name
            let v = of("RCDVIEGX", false);
            if v.is_empty() { return None; }
            let i = *r.pick(&v);
            let mut f = fields(&l[i]);
            let n = match f[0].chars().next().unwrap() { 'E' | 'G' => 4, 'X' => { let p = f.iter().rposition(|x| !x.contains('=')).unwrap(); if p < 2 { return None; } p - 1 } _ => 2 };
            f[r.urange(1, n)] = r.pick(&["a-b", "a.b", "X1.a", "a/b", "a+", "-1", "n(1)", "{n}", "\u{e9}", "a,b", "#1", "$n", "1.5", "a:b", "n'", "\u{661}", "<3>", "[0]", "a|b", "!", "@x", "n\u{200b}"]).to_string();
            l[i] = f.join(" ");
            Some(format!("illegal node name: '{}'", l[i]))
        }
        6 | 7 => { // source specification
            let i = any_place(r, l.len());
            let v = r.chance(0.6);
            let spec: &[&str] = if v { &["SIN(1 2)", "SIN(1)", "SIN()", "SIN(1 2 3 4)", "SINE(0 1 1k)", "sin(0 1 1k)", "PWL()", "PWL(0, 1, 2)", "PWL(0,1,2m)", "PWL(0 1 2 3)", "PWL(0 1, 2 3)", "PWL(0, 1, x, 3)", "PWL(0,1,,2)", "PULSE(0 5 1m 1m)", "EXP(0 1 2 3)", "DC 5", "AC 1", "5 AC 1", "5 6", "PWL(0, 1, 1m, 2) td=abc", "PWL(0, 1, 1m, 2) r=", "PWL(0, 1, 1m, 2) foo=1", "PWL(0, 1, 1m, 2) td=1=2", "PWL(0, 1, 1m, 2) td={x}", "PWL(0, 1, 1m, 2) 3", "PWL(0, 1, 1m, 2) TD=1m", "SIN(0 x 1k)", "SIN(0 1 1k) 5", "pwl(0,1)", "PWL 0, 1", "", "(5)", "V=5"] }
                else { &["SIN(1 2)", "SIN(1)", "SIN()", "SIN(1 2 3 4)", "SINE(0 1 1k)", "sin(0 1 1k)", "PWL(0, 1)", "PWL(0,1)", "PULSE(0 5 1m 1m)", "DC 5", "AC 1", "5 6", "SIN(0 x 1k)", "SIN(0 1 1k) 5", "", "(5)", "I=5"] };
            let x = format!("{}77 {} {} {}", if v { "V" } else { "I" }, r.pick(&["n1", "zz", "0"]), r.pick(&["n2", "yy", "gnd"]), r.pick(spec));
            l.insert(i, x.trim_end().to_string());
            Some(format!("bad source: '{}'", l[i]))
        }
        8 | 9 => { // unknown card
            let i = any_place(r, l.len());
            l.insert(i, r.pick(&["L1 a b 1m", "Q1 a b c npn", "M1 d g s b nmos", "r1 a b 1k", "c1 a b 1n", "v1 a 0 5", "x1 a b foo", "d1 a 0", "e1 a 0 b 0 2", "i1 a 0 1", "g1 a 0 b 0 1", "B1 a 0 V=1", "F1 a 0 V1 2", "H1 a 0 V1 2", "J1 a b c", "K1 L1 L2 1", "S1 a b c d", "T1 a b c d", "+ a b 5", "1R a b 5", "/R1 a b 5", "#R1 a b 1", "_", "?", "Z9", "\u{3a9}1 a b 1k", "a 0 5", "0 a 5", "=", "{x}", "tran 1 2", "op", "option RELTOL=1", "plot v(1)", "\\"]).to_string());
            Some(format!("unknown card: '{}'", l[i]))
        }
        10 | 11 => { // unknown dot command
            let i = any_place(r, l.len());
            l.insert(i, r.pick(&[".model d d", ".tran 1 2", ".op", ".end", ".param x=1", ".include foo", ".global vdd", ".options reltol=1", ".ic v(1)=0", ".SUBCKT foo a", ".ENDS", ".", "..", ".foo", ".endc", ".endl", ".CONTROL", ".subcktx a b", ".endsx", ".controls", ".library a b", ".print tran v(1)", ".temp 5", ".meas x"]).to_string());
            Some(format!("unknown dot command: '{}'", l[i]))
        }
        12 => { // ends too many
            let i = any_place(r, l.len());
            let open = l[..i].iter().filter(|x| x.starts_with(".subckt")).count() > l[..i].iter().filter(|x| x.starts_with(".ends")).count();
            l.insert(i, s(".ends"));
            Some(format!(".ends too many ({})", if open { "inside a definition" } else { "outside" }))
        }
        13 => { // nested
            if subs.is_empty() { return None; }
            let b = *r.pick(&subs);
            let e = (b..l.len()).find(|i| l[*i].starts_with(".ends")).unwrap();
            let i = r.urange(b + 1, e);
            l.insert(i, s(".subckt inner a b"));
            if r.chance(0.7) { l.insert(i + 1, s(".ends")); if r.chance(0.5) { l.insert(i + 1, s("R1 a b 5")); } }
            Some(s("nested definition"))
        }
        14 => { // no ends
            if subs.is_empty() { return None; }
            let b = *r.pick(&subs);
            let e = (b..l.len()).find(|i| l[*i].starts_with(".ends")).unwrap();
            l.remove(e);
            Some(s("no .ends"))
        }
        15 => { // no endc
            let at = ctl.iter().position(|x| x == ".endc")?;
            ctl.remove(at);
            if r.chance(0.5) { // the rest of the deck is after it
                let n = any_place(r, l.len());
                // not within a definition
                let tail: Vec<String> = l.drain(n..).collect();
                ctl.extend(tail);
                if l.is_empty() { return None; }
            }
            Some(s("no .endc"))
        }
        16 => { // undefined subcircuit
            let v = of("X", true);
            if v.is_empty() { return None; }
            let i = *r.pick(&v);
            let mut f = fields(&l[i]);
            let p = f.iter().rposition(|x| !x.contains('=')).unwrap();
            let names: Vec<String> = subs.iter().map(|i| fields(&l[*i])[1].clone()).collect();
            let mut n = match r.below(4) { 0 => f[p].to_uppercase(), 1 => f[p].to_lowercase(), 2 => format!("{}x", f[p]), _ => s("nosuch") };
            while names.contains(&n) { n.push('z'); }
            f[p] = n;
            if r.chance(0.15) && p > 1 { f.remove(p); if names.contains(&f[p - 1]) { return None; } }
            l[i] = f.join(" ");
            Some(format!("undefined subcircuit: '{}'", l[i]))
        }
        17 => { // wrong number of connections
            let v = of("X", true);
            if v.is_empty() { return None; }
            let i = *r.pick(&v);
            let mut f = fields(&l[i]);
            let p = f.iter().rposition(|x| !x.contains('=')).unwrap();
            if r.chance(0.5) || p < 2 { f.insert(r.urange(1, p), r.pick(&["n1", "0", "extra"]).to_string()); } else { f.remove(r.urange(1, p - 1)); }
            l[i] = f.join(" ");
            Some(format!("wrong number of connections: '{}'", l[i]))
        }
        18 => { // recursion
            let v: Vec<usize> = subs.iter().filter(|i| used.contains(&fields(&l[**i])[1])).cloned().collect();
            if v.is_empty() { return None; }
            let b = *r.pick(&v);
            let f = fields(&l[b]);
            let n = f.iter().skip(2).filter(|x| !x.contains('=')).count();
            let conns: Vec<String> = (0..n).map(|k| format!("q{}", k)).collect();
            let x = format!("Xrec {} {}", conns.join(" "), f[1]);
            if r.chance(0.6) { l.insert(b + 1, x); }
            else { // through another one
                l.insert(b + 1, format!("Xrec {} loop", conns.join(" ")));
                let at = if r.chance(0.5) { 0 } else { l.len() };
                for (k, y) in [format!(".subckt loop {}", conns.join(" ")), x, s(".ends")].into_iter().enumerate() { l.insert(at + k, y); }
            }
            Some(s("recursion"))
        }
        19 => { // ports
            if subs.is_empty() { return None; }
            let b = *r.pick(&subs);
            let mut f = fields(&l[b]);
            let n = f.iter().skip(2).filter(|x| !x.contains('=')).count();
            let again = if n > 0 && r.chance(0.5) { f[2 + r.below(n)].clone() } else { r.pick(&["0", "gnd", "GND"]).to_string() };
            if n == 0 || r.chance(0.5) { let at = r.urange(2, 2 + n); f.insert(at, again); } else { let at = r.urange(2, 1 + n); if f[at] == again { return None; } f[at] = again; }
            l[b] = f.join(" ");
            Some(format!("ground or repeated port: '{}'", l[b]))
        }
        20 => { // two instances of a name
            let v = of("X", true);
            if v.is_empty() { return None; }
            let i = *r.pick(&v);
            let x = l[i].clone();
            // in the same scope
            let mut at: Vec<usize> = (0..l.len()).filter(|k| scope[*k] == scope[i] && !l[*k].starts_with('.')).collect();
            at.push(i);
            let k = *r.pick(&at);
            l.insert(k + 1, x);
            Some(format!("two instances of a name: '{}'", l[k + 1]))
        }
        21 => { // a parameter nobody has
            let v: Vec<usize> = of("RCEG", true);
            if v.is_empty() { return None; }
            let i = *r.pick(&v);
            let mut f = fields(&l[i]);
            let last = f.len() - 1;
            // one that another scope has
            let of_line = |x: &String| -> Vec<String> { fields(x).iter().filter_map(|y| y.split_once('=').map(|z| z.0.to_string())).collect() };
            let own: Vec<String> = l.iter().filter(|x| { let g = fields(x); (g[0] == ".subckt" && g[1] == scope[i]) || (g[0].starts_with('X') && sub_of(&g) == scope[i]) }).flat_map(|x| of_line(x)).collect();
            let others: Vec<String> = l.iter().filter(|x| x.starts_with(".subckt") || x.starts_with('X')).flat_map(|x| of_line(x)).filter(|x| !own.contains(x)).collect();
            if r.chance(0.6) {
                if others.is_empty() {
                    // give it to a scope around this one
                    let around: Vec<usize> = (0..l.len()).filter(|k| l[*k].starts_with('X') && sub_of(&fields(&l[*k])) == scope[i] && !scope[*k].is_empty() && scope[*k] != scope[i]).collect();
                    if around.is_empty() { return None; }
                    let o = scope[*r.pick(&around)].clone();
                    let b = *subs.iter().find(|b| fields(&l[**b])[1] == o)?;
                    if own.iter().any(|x| x == "outer_p") { return None; }
                    l[b] += " outer_p=1k";
                    f[last] = s("{outer_p}");
                } else { f[last] = format!("{{{}}}", r.pick(&others)); }
                l[i] = f.join(" ");
                return Some(format!("parameter of another scope: '{}'", l[i]));
            }
            f[last] = r.pick(&["{nosuch}", "{}", "{R1}", "{param0}", "{0}", "{1k}", "{X1}", "{VAL9}"]).to_string();
            l[i] = f.join(" ");
            Some(format!("unknown parameter: '{}'", l[i]))
        }
        22 => { // libraries
            let i = any_place(r, l.len());
            l.insert(i, r.pick(&[".lib nosuch.lib tt", ".lib nosuch.lib", ".lib", ".lib a b c", ".lib /nosuch tt"]).to_string());
            Some(format!("missing library: '{}'", l[i]))
        }
        _ => { // definitions and parameters
            if subs.is_empty() { return None; }
            let b = *r.pick(&subs);
            match r.below(4) {
                0 => { l[b] = s(".subckt"); }
                1 => { l[b] += r.pick(&[" p=abc", " p=", " p==5", " p=1=2", " p=-", " p={", " p={}x"]); if l[b].ends_with("{}x") { return None; } }
                2 => { let mut f = fields(&l[b]); f.insert(2, r.pick(&["a-b", "a.b", "{n}", "n(1)", "\u{e9}", "1.5"]).to_string()); l[b] = f.join(" "); }
                _ => { let v = of("X", true); if v.is_empty() { return None; } let i = *r.pick(&v); l[i] += r.pick(&[" p=abc", " p=", " p==5", " p=1=2", " p=-", " p={", " p={nosuch}", " p = 5", " p= 5", " p"]); return Some(format!("bad override: '{}'", l[i])); }
            }
            Some(format!("bad definition: '{}'", l[b]))
        }
    }
}

fn c14(c: &mut Ctx) -> Verdict {
    let mut d;
    loop {
        d = any_deck(c, 0.1);
        if d.cards().len() > 1 { break; }
    }
    let whole = d.plain();
    let (mut l, mut ctl) = split_deck(&whole);
    let what = match broken(&mut c.r, &mut l, &mut ctl) { Some(w) => w, None => { c.count("not_applicable_here", 1); return Ok(()); } };
    // some with the analysis first
    let first = c.r.chance(0.2) && !what.starts_with("no .end");
    let noise = if c.r.chance(0.3) { c.r.unit() * 0.4 } else { 0.0 };
    let mut files: Vec<(String, String)> = vec![];
    if c.r.chance(0.1) && !what.contains("library") && !what.starts_with("no .end") && !what.starts_with("nested") {
        // in a library
        if let Some((i, j)) = stretch(&mut c.r, &l) {
            let body: Vec<String> = l.drain(i..j).collect();
            if body.iter().any(|x| x.starts_with(".endl") || x.starts_with(".lib")) { c.count("not_applicable_here", 1); return Ok(()); }
            l.insert(i, s(".lib m.lib tt"));
            files.push((s("m.lib"), library(&mut c.r, &[(s("tt"), body)], 0.0)));
        }
    }
    if files.is_empty() && c.r.chance(0.06) && !what.contains("library") && !what.starts_with("no .end") && !what.starts_with("nested") {
        // and a good one elsewhere
        l.push(s(".lib good.lib tt"));
        files.push((s("good.lib"), s("title\n.lib tt\nR_good n_good 0 1\n.endl\n")));
    }
    let r = &mut c.r;
    let mut text = format!("{}\n", if r.chance(0.5) { s("title") } else { r.pick(&TITLES).to_string() });
    if first { text += &laid_out(r, &ctl, noise); text += &laid_out(r, &l, noise); } else { text += &laid_out(r, &l, noise); text += &laid_out(r, &ctl, noise); }
    c.note(&what);
    c.note(&text);
    for (f, t) in &files { c.note(&format!("--- {}:\n{}", f, t)); }
    let dir = c.run.subdir("bad");
    std::fs::write(dir.join("deck.spi"), &text).unwrap();
    for (f, t) in &files { std::fs::write(dir.join(f), t).unwrap(); }
    if c.r.chance(0.02) {
        let r = c.run.cli(&dir, "deck.spi", Limits::default());
        if r.signal.is_some() { return Err(format!("{}: {}", what, r.brief()).into()); }
        if !r.diagnosed() { return Err(format!("{}: no diagnostic", what).into()); }
        if dir.join("waves").exists() && !files_below(&dir.join("waves")).is_empty() { return Err(format!("{}: there is a waveform: {}", what, r.brief()).into()); }
        c.count("program_runs_refused", 1);
    } else {
        let (sim, x) = c.run.read_path(&dir.join("deck.spi"));
        if x.is_some() { return Err(format!("{}: it was accepted", what).into()); }
        if sim.panic.is_none() && !sim.errors() { return Err(format!("{}: refused without a diagnostic", what).into()); }
        if sim.panic.as_ref().map_or(false, |p| p.is_empty()) { return Err("a panic without a message".into()); }
        c.count("refused", 1);
    }
    c.count(&format!("refused_{}", what.split(|x| x == ':' || x == '(').next().unwrap().trim().replace(' ', "_").replace('.', "")), 1);
    c.nontrivial(&text);
    Ok(())
}

#[derive(Clone, Debug, Default)]
struct Want { kind: Option<bool>, tstep: f64, tstop: f64, tstart: f64, reltol: f64, abstol: f64, rmax: f64 }

/// tolerances that allow anything: the second solution is good enough, whatever the first was
fn c15_tolerances(c: &mut Ctx) -> Verdict {
    let abs = c.r.chance(0.5);
    let mut cards = vec![];
    if abs {
        // only currents have to settle: every node is driven
        let n = c.r.urange(1, 4);
        for k in 0..n {
            let (a, b) = (format!("n{}", k), if k > 0 && c.r.chance(0.5) { format!("n{}", k - 1) } else { s("0") });
            let v = 0.01 + 0.04 * c.r.unit(); // low enough for no limiting
            cards.push(Card::V { id: format!("V{}", k), p: a.clone(), n: b.clone(), s: Src::Dc(num::near(&mut c.r, v)) });
            for j in 0..c.r.urange(1, 2) { cards.push(Card::D { id: format!("D{}_{}", k, j), p: a.clone(), n: b.clone(), model: None }); }
            if c.r.chance(0.5) { let x = c.r.logu(10.0, 1e6); cards.push(Card::R { id: format!("R{}", k), a, b: s("0"), v: Val::Lit(num::near(&mut c.r, x)) }); }
        }
    } else {
        let v = 0.01 + 0.05 * c.r.unit();
        cards.push(Card::V { id: s("V1"), p: s("a"), n: s("0"), s: Src::Dc(num::near(&mut c.r, v)) });
        let x = c.r.logu(1e6, 1e8);
        cards.push(Card::R { id: s("R1"), a: s("a"), b: s("b"), v: Val::Lit(num::near(&mut c.r, x)) });
        cards.push(Card::D { id: s("D1"), p: s("b"), n: s("0"), model: None });
    }
    c.r.shuffle(&mut cards);
    let x = c.r.logu(1e4, 1e6);
    let name = if abs { "ABSTOL" } else { "RELTOL" };
    let loose = flat_deck(cards.clone(), vec![Ctl::Option(s(name), num::near(&mut c.r, x)), Ctl::Op]);
    let other = flat_deck(cards, vec![Ctl::Op]);
    let (a, b) = (loose.plain(), other.plain());
    c.note(&a);
    let (sa, sb) = (c.run.run(&a), c.run.run(&b));
    sa.ran()?; sb.ran()?;
    if sa.errors() { return Err(format!("with {}={:e}: {}", name, x, sa.last_error()).into()); }
    let (na, nb) = (sa.stats.ok_or("no statistics")?.1, sb.stats.map_or(0, |x| x.1));
    if na > 2 { return Err(format!("{} iterations with {}={:e}, {} without", na, name, x, nb).into()); }
    c.count("runs_with_loose_tolerances", 1);
    if nb > na { c.count("runs_shortened_by_loose_tolerances", 1); c.nontrivial(&a); }
    Ok(())
}

fn c15(c: &mut Ctx) -> Verdict {
    use tiny_spice::analysis::{Configuration, Kind};
    if c.r.chance(0.03) { return c15_tolerances(c); }
    let mut d = any_deck(c, 0.1);
    d.ctl.clear();
    let nl = d.flatten()?.nonlinear();
    let plain = d.plain();
    let (lines, _) = split_deck(&plain);
    let r = &mut c.r;
    let mut want = Want { kind: None, tstep: 1e-6, tstop: 1e-3, tstart: 0.0, reltol: 1e-4, abstol: 1e-9, rmax: 5.0 };
    let lit = |r: &mut Rng, x: f64| loop { let n = num::near(r, x); if n.val > 0.0 { return n; } };
    let mut ncmd = 0;
    let nblocks = *r.pick(&[1, 1, 1, 2, 2, 3, 4]);
    let mut blocks: Vec<Vec<String>> = vec![];
    for _ in 0..nblocks {
        let mut b = vec![];
        for _ in 0..r.below(6) {
            ncmd += 1;
            match r.below(10) {
                0 | 1 => { b.push(s("op")); want.kind = Some(false); }
                2 | 3 => {
                    let (x, n) = (1e-3 * r.logu(0.02, 0.2), r.logu(1.0, 20.0));
                    let step = lit(r, x);
                    let stop = lit(r, step.val * n);
                    want.kind = Some(true);
                    (want.tstep, want.tstop, want.tstart) = (step.val, stop.val, 0.0);
                    let mut t = format!("tran {} {}", step.text, stop.text);
                    if r.chance(0.35) { let x = stop.val * r.logu(0.01, 1.2); let st = lit(r, x); want.tstart = st.val; t += &format!(" {}", st.text); }
                    b.push(t);
                }
                4 | 5 | 6 => {
                    let (n, v) = match r.below(3) {
                        0 => { let x = r.logu(1e-7, 1e-2); let v = lit(r, x); want.reltol = v.val; ("RELTOL", v) }
                        1 => { let x = r.logu(1e-13, 1e-6); let v = lit(r, x); want.abstol = v.val; ("ABSTOL", v) }
                        _ => { let x = r.logu(0.3, 20.0); let v = lit(r, x); want.rmax = v.val; ("RMAX", v) }
                    };
                    let n = if r.chance(0.5) { n.to_lowercase() } else { s(n) };
                    b.push(format!("option {}{}{}", n, r.pick(&["=", " = ", " =", "= ", "  =  "]), v.text));
                }
                7 => b.push(s("option")),
                8 => b.push(r.pick(&["plot v(1)", "plot op", "print v(n1) i(0)", "print tran", "run", "write out.raw", "set filetype=ascii", "echo tran 1 2", "echo option RELTOL = 1", "quit", "listing", "optran 1", "topology", "transient 1m 2m", "* tran 1 2", "; op", "save all", "meas tran x", "show", "display", "let k = 3", "linearize", "wrdata x.txt v(1)", "tran_1 1n 1n", "op1", "unset tran", "=", "?", "rusage", "hardcopy", "dc V1 0 1 0.1", "ac dec 10 1 1k", "noise v(1) V1 dec 10 1 1k", "options RELTOL=0.5", "tf v(1) V1", "sens v(1)", "alter R1 = 5", "temp 50", "ic v(1)=3", "step", "four 1k v(1)", "fft v(1)", "stop when time > 1u", "resume", "reset", "pz 1 0 2 0 cur pol", "disto dec 10 1 1k", "sp lin 10 1 2", "dc", "ac", "set temp = 50", "source other.spi", "end", "exit", "if 1", "alterparam k = 2", "altermod", "setplot tran1", "trans 1n 2n", "ope", "o", "t", "tra 1n 2n", "opt RELTOL = 0.5", "option1 RELTOL = 0.5", "settemp"]).to_string()),
                _ => b.push(r.pick(&["option foo = 3", "option METHOD = gear", "option reltolerance = 0.5", "option xreltol = 0.5", "option rma = 3", "option rmaxx = 3", "option abs = 1", "option nomod = 1", "option acct=1", "option tstep = 5", "option tstop=7"]).to_string()),
            }
        }
        blocks.push(b);
    }
    // an analysis at last, mostly
    if want.kind.is_none() && r.chance(0.9) {
        let k = r.below(blocks.len());
        let at = r.below(blocks[k].len() + 1);
        if r.chance(0.5) { blocks[k].insert(at, s("op")); want.kind = Some(false); } else { blocks[k].insert(at, s("tran 0.1m 1m")); want.kind = Some(true); want.tstep = 1e-4; want.tstop = 1e-3; }
    }
    // places between the cards, outside definitions, in order
    let mut spots: Vec<usize> = vec![];
    let mut open = false;
    for (i, x) in lines.iter().enumerate() { if !open { spots.push(i); } if x.starts_with(".subckt") { open = true; } if x.starts_with(".ends") { open = false; } }
    spots.push(lines.len());
    let mut at: Vec<usize> = blocks.iter().map(|_| if r.chance(0.5) { lines.len() } else { *r.pick(&spots) }).collect();
    at.sort();
    let mut all: Vec<String> = vec![];
    // what stands in a library, outside the section that is imported, is no command
    let lib = r.chance(0.2);
    if lib { all.push(s(".lib m.lib tt")); }
    let fake = ["* .control", "*.control", "* tran 1n 1n", "; option RELTOL = 0.5", "*op", "* option RMAX = 0.1", "; .control"];
    for i in 0..=lines.len() {
        for (k, b) in blocks.iter().enumerate() {
            if at[k] == i {
                all.push(s(".control"));
                for x in b { all.push(x.clone()); if r.chance(0.15) { all.push(r.pick(&fake).to_string()); } }
                all.push(s(".endc"));
                if r.chance(0.3) { all.push(r.pick(&fake).to_string()); }
            }
        }
        if i < lines.len() { all.push(lines[i].clone()); if r.chance(0.05) { all.push(r.pick(&fake).to_string()); } }
    }
    let noise = if r.chance(0.4) { r.unit() * 0.5 } else { 0.0 };
    let text = format!("{}\n{}", r.pick(&TITLES), laid_out(r, &all, noise));
    c.note(&text);
    let dir = c.run.subdir("ctl");
    std::fs::write(dir.join("deck.spi"), &text).unwrap();
    let other = "title\n.control\noption RELTOL = 0.5\noption ABSTOL=1\noption RMAX=0.1\n.endc\ntran 1n 2n\nop\n.lib tt\n\n.endl\n.control\nop\n.endc\n.lib ss\n.control\ntran 1u 2u\n.endc\n.endl\n";
    if lib { std::fs::write(dir.join("m.lib"), other).unwrap(); }
    let (sim, x) = c.run.read_path(&dir.join("deck.spi"));
    sim.ran()?;
    let (ckt, cfg) = x.ok_or("no circuit")?;
    let kind = match cfg.kind { None => None, Some(Kind::DcOperatingPoint) => Some(false), Some(Kind::Transient) => Some(true), _ => return Err("some other analysis is selected".into()) };
    if kind != want.kind { return Err(format!("analysis {:?} instead of {:?} (false: op, true: tran)", kind, want.kind).into()); }
    let mut reals = vec![("RELTOL", cfg.RELTOL, want.reltol), ("ABSTOL", cfg.ABSTOL, want.abstol), ("RMAX", cfg.RMAX, want.rmax)];
    if want.kind == Some(true) || want.tstop != 1e-3 { reals.extend([("TSTEP", cfg.TSTEP, want.tstep), ("TSTOP", cfg.TSTOP, want.tstop), ("TSTART", cfg.TSTART, want.tstart)]); }
    for (n, got, w) in reals { if (got - w).abs() > 4.0 * EPS * w.abs() { return Err(format!("{} is {:e} instead of {:e}", n, got, w).into()); } }
    // the rest are defaults
    let def = Configuration::new();
    for (n, got, w, v) in [("GMIN", cfg.GMIN, def.GMIN, 1e-12), ("TDEGC", cfg.TDEGC, def.TDEGC, 27.0), ("VNTOL", cfg.VNTOL, def.VNTOL, 1e-6), ("FS", cfg.FS, def.FS, 0.25), ("FT", cfg.FT, def.FT, 0.25), ("RMIN", cfg.RMIN, def.RMIN, 1e-9)] {
        if got != w || w != v { return Err(format!("{} is {:e}, its default is {:e}, or {:e} in a new configuration", n, got, v, w).into()); }
    }
    if (cfg.ITL1, cfg.ITL3, cfg.ITL4) != (50, 6, 50) { return Err(format!("ITL1, ITL3, ITL4 are {} {} {}", cfg.ITL1, cfg.ITL3, cfg.ITL4).into()); }
    c.count("commands_obeyed_or_ignored", ncmd);
    c.count("blocks", nblocks as u64);
    // and that is what runs
    let mut hand = Configuration::new();
    match want.kind { Some(true) => hand.set_transient(cfg.TSTOP, cfg.TSTEP, cfg.TSTART), Some(false) => hand.set_dc_operating_point(), None => {} }
    hand.RELTOL = cfg.RELTOL; hand.ABSTOL = cfg.ABSTOL; hand.RMAX = cfg.RMAX;
    let mut cfg2 = cfg.clone();
    if nl { hand.RMIN = 1e-3; cfg2.RMIN = 1e-3; }
    let a = c.run.analyse(&ckt, &cfg2, Sim::default());
    let b = c.run.analyse(&ckt, &hand, Sim::default());
    let (x, y) = (bits(&a), bits(&b));
    if x != y { return Err(format!("the run and one with settings by hand differ: {}", first_difference(&x, &y)).into()); }
    match want.kind {
        Some(true) => if a.wave.is_none() && a.panic.is_none() { return Err("no waveform of a transient".into()); },
        _ => if a.wave.is_some() || a.wave_err.is_some() { return Err("a waveform of a DC analysis".into()); },
    }
    c.count("runs_compared", 1);
    if c.r.chance(0.03) && !nl {
        let k = c.run.cli(&dir, "deck.spi", Limits::default());
        let f = std::fs::read_to_string(dir.join("waves/deck.spi/tran.dat")).ok();
        if k.signal.is_some() || (a.panic.is_none() && k.code != Some(0)) { return Err(format!("the program: {}", k.brief()).into()); }
        match want.kind {
            None => if !k.diagnosed() { return Err("no analysis was asked for and nothing says so".into()); },
            _ => if f != a.wave.as_ref().map(|w| w.raw.clone()) { return Err(format!("the program's waveform is not that of the library: {} and {} bytes", f.map_or(0, |x| x.len()), a.wave.as_ref().map_or(0, |x| x.raw.len())).into()); },
        }
        c.count("program_runs_compared", 1);
    }
    if ncmd >= 4 { c.nontrivial(&text); }
    Ok(())
}
