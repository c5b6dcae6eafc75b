//! Numeric literals: text in one of the documented forms, with its value known independently
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct Num { pub text: String, pub val: f64 }

/// m * 10^e as a plain decimal (no exponent); e is kept small by the callers
pub fn plain(m: u64, e: i32) -> String {
    let d = m.to_string();
    if e >= 0 { return d + &"0".repeat(e as usize); }
    let k = (-e) as usize;
    if d.len() > k { format!("{}.{}", &d[..d.len() - k], &d[d.len() - k..]) }
    else { format!("0.{}{}", "0".repeat(k - d.len()), d) }
}

pub const SUFFIX: [(&str, i32); 5] = [("p", -12), ("n", -9), ("u", -6), ("m", -3), ("k", 3)];
const UNITS: [&str; 9] = ["", "", "", "V", "A", "Ohm", "F", "s", "Hz"];

/// what may stand after a suffix: it means nothing, whatever it is
pub fn unit(r: &mut Rng) -> String {
    match r.below(10) {
        0 => r.pick(&["illi", "icro", "ilo", "ano", "ico", "il", "ega", "eg", "milli", "olts", "ohm", "iohm", "Hertz", "seconds", "eters", "elvin", "g", "i", "I", "sec"]).to_string(),
        1 => { let n = r.urange(1, 6); (0..n).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") as char).collect() }
        _ => r.pick(&UNITS).to_string(),
    }
}

/// A literal for sign*m*10^e in style 0 plain, 1 exponent, 2 suffix
pub fn lit(r: &mut Rng, neg: bool, m: u64, e: i32, style: usize) -> Num {
    let val = format!("{}{}e{}", if neg { "-" } else { "" }, m, e).parse::<f64>().unwrap();
    let sign = if neg { "-" } else if r.chance(0.1) { "+" } else { "" };
    let body = match style {
        0 => {
            let mut s = plain(m, e);
            if r.chance(0.15) { if s.contains('.') { s.push_str("00"); } else { s.push_str(*r.pick(&[".0", ".0", "."])); } }
            if r.chance(0.05) { s = format!("0{}", s); }
            s
        }
        1 => {
            let s = r.range(-6, 6) as i32 + e;
            let x = plain(m, e - s);
            let sg = if s < 0 { "-" } else if r.chance(0.4) { "+" } else { "" };
            let z = if r.chance(0.2) { "0" } else { "" };
            let x = if !x.contains('.') && r.chance(0.06) { x + "." } else { x };
            format!("{}{}{}{}{}", x, if r.chance(0.05) { "E" } else { "e" }, sg, z, s.abs())
        }
        _ => {
            let (t, p) = *r.pick(&SUFFIX);
            let x = plain(m, e - p);
            let dot = if !x.contains('.') && r.chance(0.06) { "." } else { "" };
            format!("{}{}{}{}", x, dot, t, unit(r))
        }
    };
    Num { text: format!("{}{}", sign, body), val }
}

/// A literal with 1 to 4 significant digits of magnitude about |x|, in any style that is readable
pub fn near(r: &mut Rng, x: f64) -> Num {
    if x == 0.0 { return Num { text: r.pick(&["0", "0.0", "0e0", "0m", "-0", "00"]).to_string(), val: 0.0 }; }
    let neg = x < 0.0;
    let nd = r.range(1, 4) as i32;
    let e = x.abs().log10().floor() as i32 - nd + 1;
    let m = (x.abs() / 10f64.powi(e)).round().max(1.0) as u64;
    let style = if (-14..12).contains(&e) { *r.pick(&[0, 1, 1, 2, 2]) } else { 1 };
    // a plain decimal with a very long tail is legal but dull
    let style = if style == 0 && !(-9..7).contains(&e) { 1 } else { style };
    lit(r, neg, m, e, style)
}

/// The shortest text that reads back to exactly this value
pub fn exact(x: f64) -> Num {
    let t = format!("{:e}", x);
    Num { text: t, val: x }
}
pub fn int(x: i64) -> Num { Num { text: x.to_string(), val: x as f64 } }
