//! C38: the events tell what happened. Each sub-check runs a history of one contract, replays the
//! recorded events, and compares the state they describe with queries and with what neighbours got.
use super::*;
use crate::engine::*;
use crate::util::app::attr;
use cosmwasm_std::Event;
use serde_json::Value;

/// id, source chain, source address, destination chain, destination address, payload hash
pub fn message_of(e: &Event) -> [String; 6] {
    ["id", "source_chain", "source_addresses", "destination_chain", "destination_addresses", "payload_hash"]
        .map(|k| attr(e, k).unwrap_or("").to_string())
}
/// an attribute, whether it is written as is or as a JSON string
pub fn plain(e: &Event, k: &str) -> String {
    let t = attr(e, k).unwrap_or("");
    serde_json::from_str::<String>(t).unwrap_or(t.to_string())
}
pub fn parsed(e: &Event, k: &str) -> Value {
    attr(e, k).and_then(|t| serde_json::from_str(t).ok()).unwrap_or(Value::Null)
}
pub fn message_in(m: &Value) -> [String; 6] {
    let t = |v: &Value| v.as_str().unwrap_or("").to_string();
    [
        t(&m["cc_id"]["id"]),
        t(&m["cc_id"]["chain"]),
        t(&m["source_address"]),
        t(&m["destination_chain"]),
        t(&m["destination_address"]),
        t(&m["payload_hash"]),
    ]
}

pub fn checks() -> Vec<Check> {
    const A: &[&str] = &[
        "neighbouring contracts are recorders; cw-multi-test 0.15.1 stands for the chain",
        "event and attribute names are public interface: observers outside the contracts rely on them",
    ];
    vec![Check {
        id: "C38",
        rule: "histories of each contract; the recorded events alone are replayed to a registry, stores, sessions, keys, permissions, polls, outcomes and proofs, and compared with queries, with what neighbours received and with who is let in. Non-trivial: more than one chain, a refusal or several deliveries, a session, an ended poll, or a batch announced again",
        assumptions: A,
        subs: vec![
            Sub { name: "router", f: router::c38_router, quick: 16_000, thorough: 200_000 },
            Sub { name: "gateway", f: gateway::c38_gateway, quick: 16_000, thorough: 200_000 },
            Sub { name: "multisig", f: multisig::c38_multisig, quick: 10_000, thorough: 250_000 },
            Sub { name: "voting", f: voting::c38_voting, quick: 12_000, thorough: 300_000 },
            Sub { name: "prover", f: prover::c38_prover, quick: 6_000, thorough: 150_000 },
        ],
        known: vec![],
    }]
}
