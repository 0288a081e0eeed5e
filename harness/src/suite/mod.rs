//! The properties as executable checks over generated cases.
pub mod core;
pub mod hashes;
pub mod history;
pub mod inst;
pub mod model;
pub mod trees;
pub mod utils;

use self::core::*;

pub fn props(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => hashes::c01(),
        "C02" => hashes::c02(),
        "C03" => hashes::c03(),
        "C04" => hashes::c04(),
        "C05" => hashes::c05(),
        "C06" => hashes::c06(),
        "C07" => hashes::c07(),
        "C08" => history::c08(),
        "C09" => hashes::c09(),
        "C10" => history::c10(),
        "C11" => history::c11(),
        "C12" => hashes::c12(),
        "C13" => trees::c13(),
        "C14" => trees::c14(),
        "C15" => trees::c15(),
        "C16" => trees::c16(),
        "C17" => utils::c17(),
        "C18" => utils::c18(),
        "C19" => utils::c19(),
        "C20" => utils::c20(),
        "C21" => utils::c21(),
        "C22" => hashes::c22(),
        "C23" => utils::c23(),
        _ => return None,
    })
}

/// run ID --out FILE [--only SUB] [--scale X]   |   replay ID FILE   |
/// emit ... | race ...   (child roles)
pub fn main(profile: &str) {
    install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("emit") => history::emit(&a[1..]),
        Some("literals") => print_literals(),
        Some("draws") => utils::emit_draws(&a[1..]),
        Some("race") => history::race(&a[1..]),
        Some("run") => run(profile, &a[1..]),
        Some("replay") => {
            let p = props(&a[1]).expect("unknown property");
            replay(&p, &a[2])
        }
        _ => {
            eprintln!("usage: run ID --out FILE | replay ID FILE");
            2
        }
    };
    std::process::exit(code);
}

fn run(profile: &str, a: &[String]) -> i32 {
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let p = props(&a[0]).expect("unknown property");
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    // the two builds explore different cases
    let seed2 = if profile == "release" { seed } else { seed ^ 0x5eed_0000_0000 };
    let only = opt("--only");
    let out = opt("--out");
    let write = |coverage: serde_json::Value, herr: Option<String>, failures: &[Failure]| {
        let differ: Vec<serde_json::Value> = history::DIFFER.lock().unwrap_or_else(|e| e.into_inner()).iter().map(|(k, v)| serde_json::json!({"instance": k, "what": v})).collect();
        let v = serde_json::json!({
            "property": p.id, "profile": profile, "tier": tier, "seed": seed, "hooks": inst::HOOKS,
            "coverage": coverage, "harness_error": herr, "differ": differ,
            "failures": failures.iter().map(|f| serde_json::json!({
                "property": p.id, "profile": profile, "check": f.sub, "index": f.index, "tape": f.tape, "message": f.message,
            })).collect::<Vec<_>>(),
        });
        match &out {
            Some(f) => std::fs::write(f, serde_json::to_string_pretty(&v).unwrap()).expect("write result"),
            None => println!("{}", serde_json::to_string_pretty(&v).unwrap()),
        }
    };
    let o = run_prop(&p, &tier, seed2, only.as_deref(), scale, &|f| {
        write(serde_json::json!({"evaluations": 1, "distinct_nontrivial": 0, "rule": p.rule, "samples": [], "checks": {}}), None, &[f]);
        std::process::exit(1);
    });
    write(o.json.clone(), o.harness_error.clone(), &o.failures);
    if !o.failures.is_empty() {
        1
    } else if o.harness_error.is_some() {
        2
    } else {
        0
    }
}
