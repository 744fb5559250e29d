//! psim: deterministic simulation of parsel under fault injection.
//!   psim check <property> [--tier quick|thorough] [--seed N] [--runs N] [--verif DIR]
//!   psim replay <file>
//!   psim show <property> <seed> <index>
mod bigsim;
mod coll;
mod conc;
mod damage;
mod derive14;
mod driver;
mod dynast;
mod fmtsim;
mod gen;
mod grams;
mod kwsim;
mod leafsim;
mod model;
mod out;
mod parsesim;
mod rng;
mod shrink;
mod spansim;

use out::Out;
use rng::Rng;
use serde_json::Value;

pub fn generate(prop: &str, seed: u64, idx: u64, tier: &str) -> Value {
    let mut r = Rng::run(seed, prop, idx);
    let r = &mut r;
    fn js<T: serde::Serialize>(t: T) -> Value { serde_json::to_value(t).unwrap() }
    match prop {
        "C08" => js(damage::generate(r)),
        "C09" | "C10" => js(fmtsim::generate(r, prop)),
        "C11" => js(conc::generate(r)),
        "C12" | "C13" => js(coll::generate(r, prop)),
        "C14" => js(derive14::generate(r, tier)),
        "C15" => js(spansim::generate(r)),
        "C19" => js(kwsim::generate(r)),
        "C17" | "C18" => js(leafsim::generate(r, prop)),
        _ => js(parsesim::generate(r, prop)),
    }
}

pub fn exec(prop: &str, plan: &Value) -> Out {
    macro_rules! run { ($f:expr) => { match serde_json::from_value(plan.clone()) { Ok(p) => $f(&p), Err(_) => Out::skip() } } }
    match prop {
        "C08" => run!(damage::exec),
        "C09" | "C10" => run!(|p: &_| fmtsim::exec(p, prop)),
        "C11" => run!(conc::exec),
        "C12" | "C13" => run!(|p: &_| coll::exec(p, prop)),
        "C14" => run!(derive14::exec),
        "C15" => run!(spansim::exec),
        "C19" => run!(kwsim::exec),
        "C17" | "C18" => run!(|p: &_| leafsim::exec(p, prop)),
        _ => run!(|p: &_| parsesim::exec(p, prop)),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => driver::check(&driver::Cfg {
            prop: args[1].clone(),
            tier: opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into()),
            seed: opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1),
            runs: opt("--runs").and_then(|s| s.parse().ok()),
            jobs: opt("--jobs").and_then(|s| s.parse().ok()),
            verif: opt("--verif").unwrap_or_else(|| "/verif".into()),
            from: opt("--from").and_then(|s| s.parse().ok()).unwrap_or(0),
        }),
        Some("replay") => driver::replay(&args[1]),
        Some("show") => {
            let p = generate(&args[1], args[2].parse().unwrap(), args[3].parse().unwrap(), "quick");
            println!("{}", serde_json::to_string(&p).unwrap());
            0
        }
        _ => { eprintln!("usage: psim check|replay|show ..."); 2 }
    };
    std::process::exit(code);
}
