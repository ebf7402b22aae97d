//! The command line of the checks.
use crate::engine::*;

fn load_known(root: &str) -> Vec<Known> {
    let p = format!("{root}/known-findings.json");
    let Ok(text) = std::fs::read_to_string(&p) else {
        return vec![];
    };
    let v: serde_json::Value = serde_json::from_str(&text).expect("known-findings.json is not JSON");
    v["known"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|k| Known {
                    property: k["property"].as_str().unwrap().into(),
                    signature: k["signature"].as_str().unwrap().into(),
                    what: k["what"].as_str().unwrap().into(),
                })
                .collect()
        })
        .unwrap_or_default()
}

pub fn run(checks: Vec<Check>) {
    // backtraces of the (very many) expected errors would dominate the run time
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("PBT_ROOT").unwrap_or_else(|_| "/verif".into());
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in &checks {
                println!("{} {}", c.id, c.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
            }
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay file is JSON");
            let id = v["property"].as_str().unwrap();
            let c = checks.iter().find(|c| c.id == id).expect("unknown property");
            let tape = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let (r, log) = replay(c, v["sub"].as_str().unwrap(), tape).expect("unknown sub-check");
            for l in log {
                println!("  {l}");
            }
            match r {
                Ok(()) => println!("replay passes: property {id} holds on this input"),
                Err(e) => {
                    println!("replay fails: {}", e.msg);
                    println!("VIOLATION property={} replay={}", id, args[2]);
                    std::process::exit(1);
                }
            }
        }
        Some(id) => {
            let Some(c) = checks.iter().find(|c| c.id == id) else {
                eprintln!("unknown property {id}");
                std::process::exit(2);
            };
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let thorough = tier == "thorough";
            let scale: f64 = std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let only = args.get(2).map(|s| s.as_str());
            let t0 = std::time::Instant::now();
            let known = load_known(&root);
            let out = run_check(c, seed, thorough, scale, &known, only);
            let wall = t0.elapsed().as_secs_f64();
            let ev = serde_json::json!({
                "property": id,
                "tier": if thorough { "thorough" } else { "quick" },
                "seed": seed,
                "level": "exploration",
                "coverage": out.evidence,
                "assumptions": c.assumptions,
                "wall_s": wall,
                "violations": if out.violation.is_some() { 1 } else { 0 },
            });
            std::fs::create_dir_all(format!("{root}/evidence")).ok();
            std::fs::write(
                format!("{root}/evidence/{id}.json"),
                serde_json::to_string_pretty(&ev).unwrap(),
            )
            .expect("write evidence");
            for l in &out.known_lines {
                println!("{l}");
            }
            println!(
                "{id}: {} cases, {} distinct non-trivial, {:.1}s",
                ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], wall
            );
            if std::env::var("PBT_VERBOSE").is_ok() {
                println!("{}", serde_json::to_string_pretty(&ev["coverage"]["classes"]).unwrap());
                println!("{}", serde_json::to_string_pretty(&ev["coverage"]["subchecks"]).unwrap());
            }
            if let Some(v) = out.violation {
                let dir = format!("{root}/replays");
                std::fs::create_dir_all(&dir).ok();
                let path = format!("{dir}/{id}-{}-{seed}.json", v.sub.replace(':', "_"));
                let j = serde_json::json!({
                    "property": id, "sub": v.sub, "seed": seed, "message": v.msg,
                    "case": v.log, "tape": v.tape,
                });
                std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("write replay");
                for l in &v.log {
                    println!("  {l}");
                }
                println!("  => {}", v.msg);
                println!("VIOLATION property={id} replay={path}");
                std::process::exit(1);
            }
        }
        None => {
            eprintln!("usage: pbt list | pbt <ID> [sub] | pbt replay <file>");
            std::process::exit(2);
        }
    }
}
