//! Decks: an abstract description, its text in many layouts, and an independent expansion
use crate::model::{El, Flat, Wave};
use crate::num::{self, Num};
use crate::rng::Rng;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum Val { Lit(Num), Par(String) }
impl Val {
    pub fn text(&self) -> String { match self { Val::Lit(n) => n.text.clone(), Val::Par(p) => format!("{{{}}}", p) } }
    pub fn lit(n: Num) -> Val { Val::Lit(n) }
}

#[derive(Clone, Debug)]
pub enum Src {
    Dc(Num),
    Sin(Num, Num, Num),
    Pwl { pts: Vec<(Num, Num)>, td: Option<Num>, r: Option<Num> },
}
impl Src {
    pub fn wave(&self) -> Wave {
        match self {
            Src::Dc(n) => Wave::Dc(n.val),
            Src::Sin(a, b, c) => Wave::Sin { vo: a.val, va: b.val, f: c.val },
            Src::Pwl { pts, td, r } => Wave::Pwl {
                pts: pts.iter().map(|(t, v)| (t.val, v.val)).collect(),
                td: td.as_ref().map_or(0.0, |n| n.val),
                rep: r.as_ref().map_or(false, |n| n.val >= 0.0),
            },
        }
    }
    pub fn negated(&self) -> Src {
        let neg = |n: &Num| num::exact(-n.val);
        match self {
            Src::Dc(n) => Src::Dc(neg(n)),
            Src::Sin(a, b, c) => Src::Sin(neg(a), neg(b), c.clone()),
            Src::Pwl { pts, td, r } => Src::Pwl { pts: pts.iter().map(|(t, v)| (t.clone(), neg(v))).collect(), td: td.clone(), r: r.clone() },
        }
    }
}

#[derive(Clone, Debug)]
pub enum Card {
    R { id: String, a: String, b: String, v: Val },
    C { id: String, a: String, b: String, v: Val },
    D { id: String, p: String, n: String, model: Option<String> },
    V { id: String, p: String, n: String, s: Src },
    I { id: String, p: String, n: String, s: Src },
    E { id: String, p: String, n: String, cp: String, cn: String, k: Val },
    G { id: String, p: String, n: String, cp: String, cn: String, k: Val },
    X { id: String, conns: Vec<String>, sub: String, over: Vec<(String, Val)> },
    /// import of a section of a library file (C13): the cards it brings
    Lib { file: String, section: String, items: Vec<Item> },
}

/// what can stand at a place in a file
#[derive(Clone, Debug)]
pub enum Item { Card(Card), Sub(SubDef) }

#[derive(Clone, Debug)]
pub struct SubDef { pub name: String, pub ports: Vec<String>, pub params: Vec<(String, Num)>, pub cards: Vec<Card> }

#[derive(Clone, Debug)]
pub enum Ctl { Op, Tran(Num, Num, Option<Num>), Option(String, Num), Other(String) }

#[derive(Clone, Debug, Default)]
pub struct Deck { pub title: String, pub items: Vec<Item>, pub ctl: Vec<Ctl> }

pub fn is_gnd(n: &str) -> bool { n == "0" || n == "gnd" || n == "GND" }

impl Card {
    pub fn id(&self) -> &str {
        match self {
            Card::R { id, .. } | Card::C { id, .. } | Card::D { id, .. } | Card::V { id, .. } | Card::I { id, .. }
            | Card::E { id, .. } | Card::G { id, .. } | Card::X { id, .. } => id,
            Card::Lib { .. } => ".lib",
        }
    }
    pub fn nodes_mut(&mut self) -> Vec<&mut String> {
        match self {
            Card::R { a, b, .. } | Card::C { a, b, .. } => vec![a, b],
            Card::D { p, n, .. } | Card::V { p, n, .. } | Card::I { p, n, .. } => vec![p, n],
            Card::E { p, n, cp, cn, .. } | Card::G { p, n, cp, cn, .. } => vec![p, n, cp, cn],
            Card::X { conns, .. } => conns.iter_mut().collect(),
            Card::Lib { .. } => vec![],
        }
    }
    /// the fields of the card, in order
    pub fn fields(&self, l: &mut Layout) -> Vec<String> {
        let mut g = |s: &String| l.gnd(s);
        match self {
            Card::R { id, a, b, v } | Card::C { id, a, b, v } => vec![id.clone(), g(a), g(b), v.text()],
            Card::D { id, p, n, model } => {
                let mut v = vec![id.clone(), g(p), g(n)];
                if let Some(m) = model { v.push(m.clone()); }
                v
            }
            Card::V { id, p, n, s } | Card::I { id, p, n, s } => {
                let mut v = vec![id.clone(), g(p), g(n)];
                match s {
                    Src::Dc(x) => v.push(x.text.clone()),
                    Src::Sin(a, b, c) => {
                        let style = l.r.as_mut().map_or(0, |r| r.below(4));
                        match style {
                            0 => { v.push(format!("SIN({}", a.text)); v.push(b.text.clone()); v.push(format!("{})", c.text)); }
                            1 => { v.push("SIN(".into()); v.push(a.text.clone()); v.push(b.text.clone()); v.push(c.text.clone()); v.push(")".into()); }
                            2 => { v.push(format!("SIN({}", a.text)); v.push(b.text.clone()); v.push(c.text.clone()); v.push(")".into()); }
                            _ => { v.push("SIN(".into()); v.push(a.text.clone()); v.push(b.text.clone()); v.push(format!("{})", c.text)); }
                        }
                    }
                    Src::Pwl { pts, td, r } => {
                        let style = l.r.as_mut().map_or(0, |r| r.below(4));
                        let mut s = String::from("PWL(");
                        if style == 1 { s.push(' '); }
                        let sep = match style { 2 => ",", 3 => " , ", _ => ", " };
                        let list: Vec<String> = pts.iter().map(|(t, x)| format!("{}{}{}", t.text, sep, x.text)).collect();
                        s += &list.join(sep);
                        s += if style == 1 { " )" } else { ")" };
                        v.extend(s.split(' ').filter(|x| !x.is_empty()).map(|x| x.to_string()));
                        let mut ps = vec![];
                        if let Some(x) = r { ps.push(format!("r={}", x.text)); }
                        if let Some(x) = td { ps.push(format!("td={}", x.text)); }
                        if let Some(rr) = l.r.as_mut() { rr.shuffle(&mut ps); }
                        v.extend(ps);
                    }
                }
                v
            }
            Card::E { id, p, n, cp, cn, k } | Card::G { id, p, n, cp, cn, k } => vec![id.clone(), g(p), g(n), g(cp), g(cn), k.text()],
            Card::X { id, conns, sub, over } => {
                let mut v = vec![id.clone()];
                v.extend(conns.iter().map(|c| g(c)));
                v.push(sub.clone());
                v.extend(over.iter().map(|(k, x)| format!("{}={}", k, x.text())));
                v
            }
            Card::Lib { file, section, .. } => vec![".lib".into(), file.clone(), section.clone()],
        }
    }
}

/// How a deck is laid out as text
pub struct Layout { pub r: Option<Rng>, pub noise: f64, pub respell_gnd: bool }
impl Layout {
    pub fn plain() -> Layout { Layout { r: None, noise: 0.0, respell_gnd: false } }
    pub fn random(seed: u64, noise: f64, respell_gnd: bool) -> Layout { Layout { r: Some(Rng::new(seed, "layout", 0)), noise, respell_gnd } }
    fn gnd(&mut self, s: &str) -> String {
        if self.respell_gnd && is_gnd(s) { if let Some(r) = &mut self.r { return r.pick(&["0", "gnd", "GND"]).to_string(); } }
        s.to_string()
    }
    fn junk(r: &mut Rng) -> String {
        r.pick(&["", "comment", " R1 a b 1k", "V9 x 0 5", " .subckt foo a b", ".control", "tran 1 2", "50% of 3k; more ; text", " {x} = (1,2) ** ohm",
                 ".ends", ".endc", "\tnote", " \u{3a9}\u{b5} units", "*", " option RELTOL=1", "gnd 0"]).to_string()
    }
    /// a line of fields, and perhaps noise lines before it
    pub fn line(&mut self, out: &mut String, fields: &[String]) {
        let noise = self.noise;
        match &mut self.r {
            Some(r) if noise > 0.0 => {
                while r.chance(noise * 0.5) {
                    match r.below(5) {
                        0 => out.push('\n'),
                        1 => out.push_str(r.pick(&["  \n", "\t\n", " \t \n"])),
                        2 => { let j = Self::junk(r); out.push_str(&format!("*{}\n", j)); }
                        3 => { let j = Self::junk(r); out.push_str(&format!("{}*{}\n", r.pick(&[" ", "\t", "   "]), j)); }
                        _ => { let j = Self::junk(r); out.push_str(&format!("{};{}\n", r.pick(&["", " ", "\t"]), j)); }
                    }
                }
                if r.chance(noise * 0.5) { out.push_str(r.pick(&[" ", "\t", "    "])); }
                for (i, f) in fields.iter().enumerate() {
                    if i > 0 { out.push_str(if r.chance(noise) { r.pick(&["  ", "\t", " \t ", "      "]) } else { &" " }); }
                    out.push_str(f);
                }
                if r.chance(noise * 0.5) { out.push_str(r.pick(&[" ", "\t", "   "])); }
                if r.chance(noise) { let j = Self::junk(r); out.push_str(&format!("{};{}", r.pick(&["", " ", "\t"]), j)); }
                out.push('\n');
            }
            _ => { out.push_str(&fields.join(" ")); out.push('\n'); }
        }
    }
}

pub fn s(x: &str) -> String { x.to_string() }

impl Deck {
    pub fn text(&self, l: &mut Layout) -> String {
        let mut out = self.title.clone();
        out.push('\n');
        render_items(&self.items, l, &mut out);
        if !self.ctl.is_empty() {
            l.line(&mut out, &[s(".control")]);
            for c in &self.ctl {
                let f = match c {
                    Ctl::Op => vec![s("op")],
                    Ctl::Tran(a, b, c) => {
                        let mut v = vec![s("tran"), a.text.clone(), b.text.clone()];
                        if let Some(c) = c { v.push(c.text.clone()); }
                        v
                    }
                    Ctl::Option(n, v) => vec![s("option"), n.clone(), s("="), v.text.clone()],
                    Ctl::Other(t) => t.split(' ').map(s).collect(),
                };
                l.line(&mut out, &f);
            }
            l.line(&mut out, &[s(".endc")]);
        }
        out
    }
    pub fn plain(&self) -> String { self.text(&mut Layout::plain()) }
    pub fn cards(&self) -> Vec<&Card> {
        let mut v = vec![];
        collect(&self.items, &mut v);
        v
    }
    /// expand everything in place: an independent reading of what the deck means
    pub fn flatten(&self) -> Result<Flat, String> {
        let mut subs: HashMap<String, &SubDef> = HashMap::new();
        gather(&self.items, &mut subs);
        let mut f = Flat::new();
        let mut order: Vec<(u8, El)> = vec![];
        let top: Vec<&Card> = self.cards();
        expand(&top, "", &HashMap::new(), &HashMap::new(), &subs, &mut f, &mut order, 0)?;
        // nodes only named on cards count in order of first mention; names are all that matters
        for (_, e) in order { f.push(e); }
        Ok(f)
    }
}

fn collect<'a>(items: &'a [Item], v: &mut Vec<&'a Card>) {
    for i in items {
        if let Item::Card(c) = i {
            if let Card::Lib { items, .. } = c { collect(items, v) } else { v.push(c) }
        }
    }
}
fn gather<'a>(items: &'a [Item], m: &mut HashMap<String, &'a SubDef>) {
    for i in items {
        match i {
            Item::Sub(sd) => { m.entry(sd.name.clone()).or_insert(sd); }
            Item::Card(Card::Lib { items, .. }) => gather(items, m),
            _ => {}
        }
    }
}
pub fn render_items(items: &[Item], l: &mut Layout, out: &mut String) {
    for i in items {
        match i {
            Item::Card(c) => { let f = c.fields(l); l.line(out, &f); }
            Item::Sub(sd) => {
                let mut f = vec![s(".subckt"), sd.name.clone()];
                f.extend(sd.ports.iter().cloned());
                f.extend(sd.params.iter().map(|(n, v)| format!("{}={}", n, v.text)));
                l.line(out, &f);
                for c in &sd.cards { let f = c.fields(l); l.line(out, &f); }
                let mut e = vec![s(".ends")];
                if let Some(r) = &mut l.r { if r.chance(0.3) { e.push(sd.name.clone()); } }
                l.line(out, &e);
            }
        }
    }
}

/// Element order: independent sources of a scope first (in card order), then everything else of the
/// scope in card order with instances expanded where they stand. That is the order of source currents.
#[allow(clippy::too_many_arguments)]
fn expand(cards: &[&Card], path: &str, ports: &HashMap<String, usize>, params: &HashMap<String, f64>,
          subs: &HashMap<String, &SubDef>, f: &mut Flat, order: &mut Vec<(u8, El)>, depth: usize) -> Result<(), String> {
    if depth > 100 { return Err("recursion".into()); }
    let node = |f: &mut Flat, n: &str| -> usize {
        if is_gnd(n) { return 0; }
        if let Some(i) = ports.get(n) { return *i; }
        f.node(&format!("{}{}", path, n))
    };
    let value = |v: &Val| -> Result<f64, String> {
        match v {
            Val::Lit(n) => Ok(n.val),
            Val::Par(p) => params.get(p).copied().ok_or(format!("no parameter {}", p)),
        }
    };
    for c in cards {
        match c {
            Card::V { p, n, s, .. } => { let e = El::V { p: node(f, p), n: node(f, n), w: s.wave() }; order.push((0, e)); }
            Card::I { p, n, s, .. } => { let e = El::I { p: node(f, p), n: node(f, n), w: s.wave() }; order.push((0, e)); }
            _ => {}
        }
    }
    for c in cards {
        match c {
            Card::R { a, b, v, .. } => { let e = El::R { a: node(f, a), b: node(f, b), v: value(v)? }; order.push((1, e)); }
            Card::C { a, b, v, .. } => { let e = El::C { a: node(f, a), b: node(f, b), v: value(v)? }; order.push((1, e)); }
            Card::D { p, n, .. } => { let e = El::D { p: node(f, p), n: node(f, n), is: 1e-9, tc: 27.0 }; order.push((1, e)); }
            Card::E { p, n, cp, cn, k, .. } => { let e = El::E { p: node(f, p), n: node(f, n), cp: node(f, cp), cn: node(f, cn), k: value(k)? }; order.push((1, e)); }
            Card::G { p, n, cp, cn, k, .. } => { let e = El::G { p: node(f, p), n: node(f, n), cp: node(f, cp), cn: node(f, cn), k: value(k)? }; order.push((1, e)); }
            Card::X { id, conns, sub, over } => {
                let sd = subs.get(sub).ok_or(format!("no subcircuit {}", sub))?;
                if sd.ports.len() != conns.len() { return Err("connections".into()); }
                let mut pm = HashMap::new();
                for (pn, cn) in sd.ports.iter().zip(conns) { pm.insert(pn.clone(), node(f, cn)); }
                let mut pv = HashMap::new();
                for (k, n) in &sd.params { pv.insert(k.clone(), n.val); }
                for (k, v) in over { pv.insert(k.clone(), value(v)?); }
                let inner: Vec<&Card> = sd.cards.iter().collect();
                expand(&inner, &format!("{}{}.", path, id), &pm, &pv, subs, f, order, depth + 1)?;
            }
            _ => {}
        }
    }
    Ok(())
}

/// a flat deck for a model circuit, with the model's node names (dots replaced)
pub fn flat_deck(cards: Vec<Card>, ctl: Vec<Ctl>) -> Deck {
    Deck { title: "title".into(), items: cards.into_iter().map(Item::Card).collect(), ctl }
}
