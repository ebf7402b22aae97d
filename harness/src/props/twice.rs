//! C42: the same transactions on the same state have the same results, whatever was executed before or
//! elsewhere in the process. Histories of the other checks are run twice from the same decisions, the
//! second time after unrelated histories, and everything observable of the contracts is compared.
use super::*;
use crate::engine::*;
use crate::util::app::trace;
use std::sync::OnceLock;

fn case(id: &str, name: &str) -> CaseFn {
    static ALL: OnceLock<Vec<Check>> = OnceLock::new();
    let all = ALL.get_or_init(base);
    all.iter().find(|c| c.id == id).unwrap().subs.iter().find(|s| s.name == name).unwrap().f
}
fn traced(src: &mut Src, f: CaseFn) -> Vec<String> {
    trace::start();
    // whether the history satisfies its own property is not the question here
    let _ = guard(|| f(src));
    trace::stop()
}
fn run(src: &mut Src, cases: &[(&str, &str)]) -> R {
    let (id, name) = *src.pick(cases);
    let f = case(id, name);
    let from = src.tape.len();
    let first = src.span(|src| traced(src, f));
    let tape = src.tape[from..].to_vec();
    // something else in between
    let (other_id, other_name) = *src.pick(cases);
    let seed: [u8; 32] = src.bytes(32).try_into().unwrap();
    if src.chance(1, 4) {
        let _ = guard(|| case(other_id, other_name)(&mut Src::random(seed, false)));
    }
    let second = traced(&mut Src::replay(tape, false), f);
    let n = first.len().min(second.len());
    for i in 0..n {
        if first[i] != second[i] {
            let show = |s: &str| {
                let at = first[i].bytes().zip(second[i].bytes()).take_while(|(a, b)| a == b).count().saturating_sub(200);
                String::from_utf8_lossy(&s.as_bytes()[at.min(s.len())..s.len().min(at + 500)]).into_owned()
            };
            src.note(|| format!("history {id}/{name}, step {i} of {n}"));
            return fail(format!("the same history {id}/{name} went differently at step {i}: ..{} and ..{}", show(&first[i]), show(&second[i])));
        }
    }
    ensure!(first.len() == second.len(), "the same history {id}/{name} had {} and {} steps", first.len(), second.len());
    src.note(|| format!("history {id}/{name}: {n} steps, the same twice"));
    if first.iter().filter(|t| t.starts_with("ok ")).count() >= 5 {
        src.nontrivial();
    }
    Ok(())
}
fn edges(src: &mut Src) -> R {
    run(src, &[("C01", "history"), ("C02", "history"), ("C03", "history"), ("C04", "history"), ("C05", "history"), ("C26", "history"), ("C27", "voting"), ("C28", "batches")])
}
fn voting(src: &mut Src) -> R {
    run(src, &[("C06", "history"), ("C07", "history"), ("C08", "history"), ("C19", "verifier")])
}
fn signing(src: &mut Src) -> R {
    run(src, &[("C11", "history"), ("C12", "history"), ("C13", "history"), ("C14", "history")])
}
fn proofs(src: &mut Src) -> R {
    run(src, &[("C15", "history"), ("C16", "history"), ("C17", "history"), ("C17", "rotations"), ("C18", "history"), ("C19", "prover")])
}
fn stakes(src: &mut Src) -> R {
    run(src, &[("C20", "history"), ("C21", "history"), ("C22", "history"), ("C23", "history"), ("C24", "history"), ("C25", "history")])
}
fn system(src: &mut Src) -> R {
    run(src, &[("C30", "history")])
}

pub fn checks() -> Vec<Check> {
    const A: &[&str] = &[
        "cw-multi-test 0.15.1 stands for the chain; the contracts run natively, not as wasm",
        "maps are compared by content, not by the order in which their entries are written (in wasm that order is fixed), and so are the transfers of one transaction",
    ];
    vec![Check {
        id: "C42",
        rule: "histories of the other checks, each run twice with the same decisions, sometimes with an unrelated one in between; responses, events, query results, final raw storage and balances are compared. Non-trivial: at least five successful transactions",
        assumptions: A,
        subs: vec![
            Sub { name: "edges", f: edges, quick: 12_000, thorough: 400_000 },
            Sub { name: "voting", f: voting, quick: 5_000, thorough: 200_000 },
            Sub { name: "signing", f: signing, quick: 4_000, thorough: 150_000 },
            Sub { name: "proofs", f: proofs, quick: 3_000, thorough: 100_000 },
            Sub { name: "stakes", f: stakes, quick: 8_000, thorough: 300_000 },
            Sub { name: "system", f: system, quick: 400, thorough: 30_000 },
        ],
        known: vec![],
    }]
}
