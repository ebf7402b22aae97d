//! C04, C05: gateway with a programmable verifier and a recording router.
use crate::engine::*;
use crate::util::app::*;
use crate::util::gen::*;
use connection_router::state::{CrossChainId, Message};
use cosmwasm_std::{to_binary, Addr};
use gateway::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

struct Sys {
    w: World,
    gw: Addr,
    router: Addr,
    verifier: Addr,
    /// messages (as JSON text) that the verifier reports as verified
    verified: Arc<Mutex<BTreeSet<String>>>,
    outgoing: BTreeMap<(String, String), Message>,
    seen_router: usize,
    seen_verifier: usize,
}

fn key(m: &Message) -> (String, String) {
    (m.cc_id.chain.to_string(), m.cc_id.id.to_string())
}

impl Sys {
    fn new() -> Sys {
        let mut w = World::new();
        let (router, _) = w.mock();
        let (verifier, ctl) = w.mock();
        let verified: Arc<Mutex<BTreeSet<String>>> = Default::default();
        let v2 = verified.clone();
        ctl.lock().unwrap().query = Some(Box::new(move |q| {
            let ms = q["is_verified"]["messages"]
                .as_array()
                .ok_or_else(|| format!("unexpected query {q}"))?;
            let set = v2.lock().unwrap();
            let out: Vec<(serde_json::Value, bool)> = ms
                .iter()
                .map(|m| (m["cc_id"].clone(), set.contains(&m.to_string())))
                .collect();
            serde_json::to_vec(&out).map(|v| v.into()).map_err(|e| e.to_string())
        }));
        let gw = w
            .instantiate(
                w_gateway(),
                &InstantiateMsg {
                    verifier_address: verifier.to_string(),
                    router_address: router.to_string(),
                },
                "gateway",
            )
            .expect("gateway instantiates");
        Sys {
            w,
            gw,
            router,
            verifier,
            verified,
            outgoing: BTreeMap::new(),
            seen_router: 0,
            seen_verifier: 0,
        }
    }
    fn is_verified(&self, m: &Message) -> bool {
        self.verified.lock().unwrap().contains(&msg_json(m).to_string())
    }
    /// new calls since last time, as (function, messages)
    fn new_calls(&mut self) -> R<(Vec<Vec<serde_json::Value>>, Vec<Vec<serde_json::Value>>)> {
        let mut to_router = vec![];
        for r in &self.w.mock_log(&self.router)[self.seen_router..] {
            ensure_eq!(r.sender, self.gw, "caller of the router");
            ensure!(r.funds.is_empty(), "funds sent to the router");
            let j = r.json();
            match j["route_messages"].as_array() {
                Some(a) => to_router.push(a.clone()),
                None => return fail(format!("unexpected call to the router: {j}")),
            }
        }
        self.seen_router += to_router.len();
        let mut to_verifier = vec![];
        for r in &self.w.mock_log(&self.verifier)[self.seen_verifier..] {
            ensure_eq!(r.sender, self.gw, "caller of the verifier");
            let j = r.json();
            match j["verify_messages"]["messages"].as_array() {
                Some(a) => to_verifier.push(a.clone()),
                None => return fail(format!("unexpected call to the verifier: {j}")),
            }
        }
        self.seen_verifier += to_verifier.len();
        Ok((to_router, to_verifier))
    }
    fn get(&self, ids: &[CrossChainId]) -> Result<Vec<serde_json::Value>, String> {
        self.w.query(
            &self.gw,
            &QueryMsg::GetMessages {
                message_ids: ids.to_vec(),
            },
        )
    }
}

const SHORT_IDS: &[&str] = &["a", "aa", "aaa", "a:a", "aa:a", "0x00:0", "0x00:1", "a,aa:a"];

fn pool(src: &mut Src, n: usize) -> Vec<Message> {
    (0..n)
        .map(|_| {
            let s = *src.pick(CHAINS);
            let d = *src.pick(CHAINS);
            let mut m = message(src, s, d);
            if src.chance(1, 2) {
                m.cc_id.id = src.pick(SHORT_IDS).to_string().try_into().unwrap();
            }
            m
        })
        .collect()
}

fn batch(src: &mut Src, pool: &[Message]) -> Vec<Message> {
    let n = match src.weighted(&[8, 2, 1]) {
        0 if pool.len() > 20 => pool.len(),
        0 => 1 + src.idx(5),
        1 => 5 + src.idx(8),
        _ => 0,
    };
    let mut out: Vec<Message> = vec![];
    let allow_dup = src.chance(1, 6);
    for _ in 0..n {
        let m = src.pick(pool).clone();
        let m = if src.chance(1, 6) { near(src, &m) } else { m };
        if !allow_dup && out.iter().any(|o| key(o) == key(&m)) {
            continue;
        }
        out.push(m);
    }
    out
}

fn has_dup(ms: &[Message]) -> bool {
    let k: BTreeSet<_> = ms.iter().map(key).collect();
    k.len() != ms.len()
}

fn jsons(ms: &[Message]) -> Vec<serde_json::Value> {
    ms.iter().map(msg_json).collect()
}

fn event_ids(r: &cw_multi_test::AppResponse, gw: &Addr, name: &str) -> Vec<[String; 6]> {
    let mut v: Vec<_> = events(r, gw, name)
        .iter()
        .map(|e| {
            [
                "id",
                "source_chain",
                "source_addresses",
                "destination_chain",
                "destination_addresses",
                "payload_hash",
            ]
            .map(|k| attr(e, k).unwrap_or("").to_string())
        })
        .collect();
    v.sort();
    v
}
fn want_ids(ms: &[Message]) -> Vec<[String; 6]> {
    let mut v: Vec<_> = ms
        .iter()
        .map(|m| {
            [
                m.cc_id.id.to_string(),
                m.cc_id.chain.to_string(),
                m.source_address.to_string(),
                m.destination_chain.to_string(),
                m.destination_address.to_string(),
                hexs(&m.payload_hash),
            ]
        })
        .collect();
    v.sort();
    v
}

fn caller(src: &mut Src, sys: &Sys) -> Addr {
    let all = [addr("somebody"), sys.verifier.clone(), sys.gw.clone(), addr("deployer")];
    src.pick(&all).clone()
}

fn op_incoming(src: &mut Src, sys: &mut Sys, pool: &[Message], verify: bool) -> R {
    let ms = batch(src, pool);
    // the router itself may also ask for verification; routing by the router is op_outgoing
    let who = if verify && src.chance(1, 8) {
        sys.router.clone()
    } else {
        caller(src, sys)
    };
    let dump = sys.w.dump(&sys.gw);
    let msg = if verify {
        ExecuteMsg::VerifyMessages(ms.clone())
    } else {
        ExecuteMsg::RouteMessages(ms.clone())
    };
    let r = sys.w.exec(&who, &sys.gw, &msg, &[]);
    let what = if verify { "verify" } else { "route" };
    src.note(|| {
        format!(
            "{what} by {who}: [{}] -> {}",
            ms.iter()
                .map(|m| format!("{}{}", short(m), if sys.is_verified(m) { " (verified)" } else { "" }))
                .collect::<Vec<_>>()
                .join("; "),
            if r.is_ok() { "ok" } else { "rejected" }
        )
    });
    let dup = has_dup(&ms);
    if dup {
        src.class("dup_ids");
        src.nontrivial();
        ensure!(r.is_err(), "{what} of a batch with duplicate ids accepted");
    } else {
        ensure!(r.is_ok(), "{what} of a batch with unique ids rejected: {:?}", r.err());
    }
    let (to_router, to_verifier) = sys.new_calls()?;
    let (ver, unver): (Vec<_>, Vec<_>) = ms.iter().cloned().partition(|m| sys.is_verified(m));
    if !ver.is_empty() && !unver.is_empty() {
        src.class("mixed_batch");
        src.nontrivial();
    }
    let none: Vec<Vec<serde_json::Value>> = vec![];
    let one = |v: &[Message]| if dup || v.is_empty() { none.clone() } else { vec![jsons(v)] };
    if verify {
        ensure_eq!(to_router, none, "calls to the router after a verification request");
        ensure_eq!(to_verifier, one(&unver), "messages handed to the verifier");
    } else {
        ensure_eq!(to_verifier, none, "calls to the verifier after a routing request");
        ensure_eq!(to_router, one(&ver), "messages forwarded to the router");
        if let Ok(r) = &r {
            ensure_eq!(event_ids(r, &sys.gw, "message_routed"), want_ids(&ver), "message_routed events");
            ensure_eq!(
                event_ids(r, &sys.gw, "message_routing_failed"),
                want_ids(&unver),
                "message_routing_failed events"
            );
        }
    }
    ensure!(
        sys.w.dump(&sys.gw) == dump,
        "{what} by {who} changed the gateway's state"
    );
    Ok(())
}

fn op_outgoing(src: &mut Src, sys: &mut Sys, pool: &[Message]) -> R {
    let ms = batch(src, pool);
    let r = sys
        .w
        .exec(&sys.router.clone(), &sys.gw, &ExecuteMsg::RouteMessages(ms.clone()), &[]);
    src.note(|| {
        format!(
            "router delivers [{}] -> {}",
            ms.iter().map(short).collect::<Vec<_>>().join("; "),
            if r.is_ok() { "ok" } else { "rejected" }
        )
    });
    if has_dup(&ms) {
        src.class("dup_delivery");
        ensure!(r.is_err(), "delivery with duplicate ids accepted");
    } else {
        ensure!(r.is_ok(), "delivery with unique ids rejected: {:?}", r.err());
        for m in &ms {
            if let Some(old) = sys.outgoing.insert(key(m), m.clone()) {
                if old != *m {
                    src.class("overwritten");
                }
            }
        }
    }
    let (a, b) = sys.new_calls()?;
    ensure!(a.is_empty() && b.is_empty(), "a delivery by the router calls other contracts");
    Ok(())
}

fn op_query(src: &mut Src, sys: &mut Sys, pool: &[Message]) -> R {
    let stored: Vec<_> = sys.outgoing.keys().cloned().collect();
    let n = if stored.len() > 12 && src.bool() { stored.len() } else { src.idx(6) };
    let mut ids = vec![];
    for _ in 0..n {
        let (c, i) = if !stored.is_empty() && src.chance(9, 10) {
            src.pick(&stored).clone()
        } else if src.chance(1, 2) {
            key(src.pick(pool))
        } else {
            (src.pick(CHAINS).to_string(), src.pick(SHORT_IDS).to_string())
        };
        let c = recase(src, &c);
        ids.push(CrossChainId {
            chain: chain(&c),
            id: i.try_into().unwrap(),
        });
    }
    let want: Option<Vec<serde_json::Value>> = ids
        .iter()
        .map(|id| {
            sys.outgoing
                .get(&(id.chain.to_string(), id.id.to_string()))
                .map(msg_json)
        })
        .collect();
    let got = sys.get(&ids);
    src.note(|| format!("query {ids:?}: {}", if got.is_ok() { "found" } else { "fails" }));
    match (want, got) {
        (Some(w), Ok(g)) => {
            if w.len() > 1 {
                src.class("multi_query");
                src.nontrivial();
            }
            ensure_eq!(g, w, "messages returned for {ids:?}");
        }
        (None, Err(_)) => src.class("missing_query"),
        (None, Ok(g)) => return fail(format!("query for {ids:?} with an undelivered id returned {g:?}")),
        (Some(_), Err(e)) => return fail(format!("query for delivered {ids:?} failed: {e}")),
    }
    Ok(())
}

fn check_all(sys: &Sys, pool: &[Message]) -> R {
    let mut ids: BTreeSet<(String, String)> = pool.iter().map(key).collect();
    for c in ["a", "aa"] {
        for i in SHORT_IDS {
            ids.insert((c.to_string(), i.to_string()));
        }
    }
    for (c, i) in ids {
        let id = CrossChainId {
            chain: chain(&c),
            id: i.clone().try_into().unwrap(),
        };
        match (sys.outgoing.get(&(c, i)), sys.get(&[id.clone()])) {
            (None, Err(_)) => {}
            (Some(m), Ok(g)) => ensure_eq!(g, vec![msg_json(m)], "outgoing message {id:?}"),
            (None, Ok(g)) => return fail(format!("{id:?} was never delivered but is returned as {g:?}")),
            (Some(_), Err(e)) => return fail(format!("delivered {id:?} is not returned: {e}")),
        }
    }
    Ok(())
}

fn history(src: &mut Src, weights: &[u64; 5], ops: usize) -> R {
    let n = 1 + src.size(6, 160);
    let pool = pool(src, n);
    history_on(src, &mut Sys::new(), &pool, weights, ops)
}
fn history_on(src: &mut Src, sys: &mut Sys, pool: &[Message], weights: &[u64; 5], ops: usize) -> R {
    src.repeat(1, ops, ops as u64, |src, _| {
        match src.weighted(weights) {
            0 => {
                // the verifier learns about some message (or a variation of it), or forgets
                let m = src.pick(pool).clone();
                let m = if src.chance(1, 4) { near(src, &m) } else { m };
                let k = msg_json(&m).to_string();
                let on = src.chance(4, 5);
                src.note(|| format!("verifier: {} verified={on}", short(&m)));
                let mut s = sys.verified.lock().unwrap();
                if on {
                    s.insert(k);
                } else {
                    s.remove(&k);
                }
                Ok(())
            }
            1 => op_incoming(src, sys, pool, false),
            2 => op_incoming(src, sys, pool, true),
            3 => op_outgoing(src, sys, pool),
            _ => op_query(src, sys, pool),
        }
    })?;
    check_all(sys, pool)
}

fn c04_case(src: &mut Src) -> R {
    history(src, &[8, 8, 5, 1, 0], 16)
}
fn c05_case(src: &mut Src) -> R {
    history(src, &[2, 3, 1, 8, 6], 16)
}

/// a verifier that answers with an error or a shorter list must not lead to forwarding
fn c04_adverse_verifier(src: &mut Src) -> R {
    let mut w = World::new();
    let (router, _) = w.mock();
    let (verifier, ctl) = w.mock();
    let gw = w
        .instantiate(
            w_gateway(),
            &InstantiateMsg {
                verifier_address: verifier.to_string(),
                router_address: router.to_string(),
            },
            "gateway",
        )
        .expect("gateway instantiates");
    let n = src.size(5, 160);
    let mut ms: Vec<Message> = vec![];
    for m in pool(src, n) {
        if !ms.iter().any(|o| key(o) == key(&m)) {
            ms.push(m);
        }
    }
    let mut status: Vec<(CrossChainId, bool)> = ms
        .iter()
        .map(|m| (m.cc_id.clone(), src.chance(1, 2)))
        .collect();
    let truth = status.clone();
    let mode = src.below(3);
    match mode {
        0 => {}
        1 => {
            let k = src.idx(status.len() + 1);
            status.truncate(k);
        }
        _ => {}
    }
    let answer = status.clone();
    ctl.lock().unwrap().query = Some(Box::new(move |_| {
        if mode == 2 {
            Err("verifier down".into())
        } else {
            to_binary(&answer).map_err(|e| e.to_string())
        }
    }));
    let r = w.exec(&addr("somebody"), &gw, &ExecuteMsg::RouteMessages(ms.clone()), &[]);
    src.note(|| format!("mode {mode}: route {} messages, verifier says {status:?}: {}", ms.len(), r.is_ok()));
    let log = w.mock_log(&router);
    let forwarded: Vec<serde_json::Value> = log
        .iter()
        .flat_map(|r| r.json()["route_messages"].as_array().cloned().unwrap_or_default())
        .collect();
    src.nontrivial();
    match mode {
        2 => {
            ensure!(r.is_err(), "routing succeeds although the verifier fails");
            ensure!(forwarded.is_empty(), "messages forwarded although the verifier fails");
        }
        _ => {
            let known: BTreeMap<String, bool> = status.iter().map(|(k, v)| (k.to_string(), *v)).collect();
            for m in &forwarded {
                let id = format!("{}:{}", m["cc_id"]["chain"].as_str().unwrap(), m["cc_id"]["id"].as_str().unwrap());
                ensure_eq!(known.get(&id), Some(&true), "forwarded message {id} confirmed by the verifier");
            }
            if mode == 0 {
                let want: Vec<_> = ms
                    .iter()
                    .zip(&truth)
                    .filter(|(_, (_, v))| *v)
                    .map(|(m, _)| msg_json(m))
                    .collect();
                ensure_eq!(forwarded, want, "messages forwarded");
            }
        }
    }
    Ok(())
}

/// C38: what is stored and forwarded follows from the events alone
pub fn c38_gateway(src: &mut Src) -> R {
    let n = 1 + src.size(6, 160);
    let pool = pool(src, n);
    let mut sys = Sys::new();
    sys.w.record = true;
    let r = history_on(src, &mut sys, &pool, &[6, 6, 1, 6, 0], 16);
    let mut stored: BTreeMap<(String, String), [String; 6]> = BTreeMap::new();
    let mut forwarded = vec![];
    for tx in sys.w.log.iter().filter(|t| t.contract == sys.gw) {
        let routed = event_ids(&tx.res, &sys.gw, "message_routed");
        let refused = event_ids(&tx.res, &sys.gw, "message_routing_failed");
        let mut asked: Vec<[String; 6]> = tx.msg["route_messages"]
            .as_array()
            .map(|a| a.iter().map(super::events::message_in).collect())
            .unwrap_or_default();
        asked.sort();
        let mut told = [routed.clone(), refused.clone()].concat();
        told.sort();
        ensure_eq!(told, asked, "messages announced as routed or refused and messages of the request");
        if tx.sender == sys.router {
            ensure!(refused.is_empty(), "delivery announced as failed");
            for m in routed {
                stored.insert((m[1].clone(), m[0].clone()), m);
                src.class("delivery_announced");
            }
        } else {
            if !refused.is_empty() {
                src.class("refusal_announced");
                src.nontrivial();
            }
            forwarded.extend(routed);
        }
    }
    let mut got: Vec<[String; 6]> = sys
        .w
        .mock_log(&sys.router)
        .iter()
        .flat_map(|r| r.json()["route_messages"].as_array().cloned().unwrap_or_default())
        .map(|m| super::events::message_in(&m))
        .collect();
    got.sort();
    forwarded.sort();
    ensure_eq!(got, forwarded, "messages forwarded to the router and messages announced as routed");
    let mut ids: BTreeSet<(String, String)> = pool.iter().map(key).collect();
    ids.extend(stored.keys().cloned());
    for (c, i) in ids {
        let id = CrossChainId { chain: chain(&c), id: i.clone().try_into().unwrap() };
        let got = sys.get(&[id]).ok().map(|v| super::events::message_in(&v[0]));
        ensure_eq!(got, stored.get(&(c, i)).cloned(), "stored message and the one its events announce");
    }
    if stored.len() > 1 {
        src.nontrivial();
    }
    r.or_else(|_| abandon())
}

pub fn checks() -> Vec<Check> {
    const A: &[&str] = &["the verifier is a mock whose answer is a function of the full message content"];
    vec![
        Check {
            id: "C04",
            rule: "random histories of verifier updates and route/verify calls over a small pool of messages and one-field variations of them; non-trivial: a batch mixes verified and unverified messages or contains duplicate ids",
            assumptions: A,
            subs: vec![
                Sub { name: "history", f: c04_case, quick: 60_000, thorough: 720_000 },
                Sub { name: "adverse_verifier", f: c04_adverse_verifier, quick: 40_000, thorough: 480_000 },
            ],
            known: vec![],
        },
        Check {
            id: "C05",
            rule: "random histories dominated by router deliveries and queries over ids that are similar as storage keys; non-trivial: a query for several delivered ids was answered, or a duplicate batch was rejected",
            assumptions: A,
            subs: vec![Sub { name: "history", f: c05_case, quick: 96_000, thorough: 1_152_000 }],
            known: vec![],
        },
    ]
}
