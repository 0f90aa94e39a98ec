mod engine;
mod props;
mod rng;
mod rt;
use engine::Tier;
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    engine::install_hooks();
    let rc = match cmd {
        "check" => {
            let t = tier(a.get(3).map(|s| s.as_str()).unwrap_or("quick"));
            let seed = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
            let verif = PathBuf::from(a.get(5).cloned().unwrap_or_else(|| "/verif".into()));
            let runs = a.get(6).and_then(|s| s.parse().ok());
            engine::check(&a[2], t, seed, runs, &verif)
        }
        "worker" => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            engine::worker(&a[2], tier(&a[3]), n(4), n(5), n(6), n(7), n(8), &a[9]);
            0
        }
        "replay" => engine::replay(&a[2], a.get(3).map(|s| s == "--trace").unwrap_or(false)),
        "hashes" => {
            let n = |i: usize, d: u64| a.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(d);
            engine::hashes(&a[2], tier(a.get(3).map(|s| s.as_str()).unwrap_or("quick")), n(4, 1), n(5, 0), n(6, 20), n(7, 0) as usize);
            0
        }
        "case" => {
            let n = |i: usize, d: u64| a.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(d);
            println!("{}", serde_json::to_string(&engine::gen_case(props::find(&a[2]), tier(&a[3]), n(4, 1), n(5, 0))).unwrap());
            0
        }
        "list" => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        _ => {
            eprintln!("usage: sim check|replay|hashes|list ...");
            2
        }
    };
    std::process::exit(rc);
}
