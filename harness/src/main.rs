mod rng; mod num; mod model; mod deck; mod run; mod driver; mod gen;
mod api; mod c_dc; mod c_tran; mod c_deck; mod c_sys;
use driver::Check;
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut checks: Vec<Check> = vec![];
    checks.extend(c_dc::checks());
    checks.extend(c_tran::checks());
    checks.extend(c_deck::checks());
    checks.extend(c_sys::checks());
    // tsmon check ID root cli subject | worker ... | replay ID seed idx root cli subject
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(driver::check(&checks, &a[2], &PathBuf::from(&a[3]), &PathBuf::from(&a[4]), &a[5])),
        Some("worker") => driver::worker(&checks, &a[2..]),
        Some("replay") => {
            let tier = if std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") { driver::Tier::Thorough } else { driver::Tier::Quick };
            std::process::exit(driver::replay(&checks, &a[2], a[3].parse().unwrap(), tier, a[4].parse().unwrap(), &PathBuf::from(&a[6]), &a[7]));
        }
        Some("list") => for c in &checks { println!("{}", c.id); },
        _ => println!("usage: tsmon check|worker|replay|list"),
    }
}
