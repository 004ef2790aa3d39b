mod case;
mod checks;
mod families;
mod hostile;
mod net;
mod rec;
mod rng;
mod runner;

use runner::Tier;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let verif = std::env::var("LYSIM_VERIF").unwrap_or_else(|_| "/verif".into());
    runner::install_panic_hook();
    let tier_of = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let c = checks::get(&args[2]);
            let tier = tier_of(args.get(3).map(|s| s.as_str()).unwrap_or("quick"));
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            std::process::exit(runner::check(c, tier, seed, &verif));
        }
        Some("worker") => {
            let c = checks::get(&args[2]);
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            runner::worker(c, tier_of(&args[3]), n(4), n(5), n(6), n(7), std::time::Duration::from_secs(n(8)));
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("read replay file");
            let case = case::Case::from_text(&text).expect("parse replay file");
            let verbose = args.get(3).map(|s| s == "-v").unwrap_or(false);
            let rec = runner::run_case(&case, verbose);
            println!("log_hash={:x} events={} sim_us={}", rec.hash, rec.events, rec.sim_us);
            match rec.viols.iter().find(|v| v.prop == case.prop) {
                Some(v) => {
                    println!("class={}", v.class);
                    println!("detail={}", v.detail);
                    println!("VIOLATION property={} replay={}", case.prop, args[2]);
                    std::process::exit(1);
                }
                None => {
                    for v in &rec.viols {
                        println!("other: {} {} {}", v.prop, v.class, v.detail);
                    }
                    println!("no violation of {}", case.prop);
                }
            }
        }
        Some("show") => {
            // lysim show PROP SEED : print the generated case
            let c = checks::get(&args[2]);
            let case = (c.generate)(c.prop, args[3].parse().unwrap(), tier_of(args.get(4).map(|s| s.as_str()).unwrap_or("quick")));
            print!("{}", case.to_text());
        }
        Some("hashes") => {
            // lysim hashes PROP VERIF_SEED N : log hash of the first N cases (determinism comparisons)
            let c = checks::get(&args[2]);
            let seed: u64 = args[3].parse().unwrap();
            for i in 0..args[4].parse::<u64>().unwrap() {
                let case = (c.generate)(c.prop, runner::case_seed(seed, c.prop, i), Tier::Quick);
                let rec = runner::run_case(&case, false);
                println!("{i} {:x} {}", rec.hash, rec.events);
                for v in rec.viols {
                    println!("   {} {} {}", v.prop, v.class, v.detail);
                }
            }
        }
        _ => {
            eprintln!("usage: lysim check PROP [quick|thorough] | replay FILE [-v] | show PROP SEED | hashes PROP SEED N");
            std::process::exit(2);
        }
    }
}
