//! Bounded exhaustive model checking of the `sudoku` crate. See /verif/DESIGN.md.
mod autogrids;
mod corpus;
mod engine;
mod model;
mod props;
mod spaces;
mod strat;

use engine::*;

fn tier(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => harness_error(&format!("unknown tier {s}")),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    // building the families runs reference-model code on a large stack
    let code = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
            let build = |id: &str, t: Tier| {
                props::build(id, t).unwrap_or_else(|| harness_error(&format!("unknown property {id}")))
            };
            match arg(0).as_str() {
                "autogrids" => {
                    autogrids::run();
                    0
                }
                "serve" => props::builds::serve(tier(&arg(1))),
                "one" => props::histories::one(arg(1).parse().unwrap(), tier(&arg(2))),
                "run" => {
                    model::self_test();
                    let ra = RunArgs { id: arg(1), tier: tier(&arg(2)), seed, only: a.get(3).cloned() };
                    let id = ra.id.clone();
                    let t = ra.tier;
                    supervise(&ra, &|| build(&id, t))
                }
                "worker" => {
                    let ra = RunArgs { id: arg(1), tier: tier(&arg(2)), seed, only: a.get(4).cloned() };
                    let p = build(&ra.id, ra.tier);
                    worker(&ra, p, std::path::Path::new(&arg(3)))
                }
                "single" => single(&build(&arg(1), tier(&arg(2))), arg(3).parse().unwrap(), arg(4).parse().unwrap()),
                "range" => range(&build(&arg(1), tier(&arg(2))), arg(3).parse().unwrap(), arg(4).parse().unwrap(), arg(5).parse().unwrap(), &arg(6)),
                "replay" => {
                    let s = std::fs::read_to_string(arg(1)).unwrap_or_else(|e| harness_error(&format!("{}: {e}", arg(1))));
                    let j: serde_json::Value = serde_json::from_str(&s).unwrap_or_else(|e| harness_error(&e.to_string()));
                    let p = build(j["property"].as_str().unwrap(), tier(j["tier"].as_str().unwrap()));
                    let f = p.families.iter().position(|f| f.name == j["family"].as_str().unwrap()).unwrap();
                    single(&p, f, j["case"].as_u64().unwrap())
                }
                _ => harness_error("usage: run|replay ..."),
            }
        })
        .unwrap()
        .join()
        .unwrap_or(2);
    std::process::exit(code);
}
