//! C26 nexus gateway, C27 aggregate verifier, C28 batching.
use crate::engine::*;
use crate::util::app::*;
use crate::util::gen::*;
use crate::util::mock::{Ctl, CtlRef};
use connection_router::state::Message;
use cosmwasm_std::{coin, to_binary, Addr, BankMsg, Binary, Coin, CosmosMsg, Empty, WasmMsg};
use cw_multi_test::{Contract, ContractWrapper};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- C26

struct Nx {
    w: World,
    ng: Addr,
    router: Addr,
    router_ctl: CtlRef,
    module: Addr,
    module_ctl: CtlRef,
    seen: [usize; 2],
    routed: BTreeSet<(String, String)>,
}

/// what the transaction id and index of a message id may be: the parsed form for well-formed ids,
/// the whole id otherwise, either one for forms that are unusual but unambiguous
fn tx_of(id: &str) -> Vec<(Vec<u8>, u64)> {
    let fallback = (id.as_bytes().to_vec(), u64::MAX);
    let Some((tx, ix)) = id.split_once(':') else { return vec![fallback] };
    let bare = tx.trim_start_matches("0x");
    let (Ok(bytes), Ok(n)) = (hex::decode(bare), ix.parse::<u64>()) else { return vec![fallback] };
    if bytes.is_empty() {
        return vec![fallback];
    }
    let canonical = (tx == bare || tx == format!("0x{bare}")) && bare == bare.to_ascii_lowercase() && ix == n.to_string();
    if canonical {
        vec![(bytes, n)]
    } else {
        vec![(bytes, n), fallback]
    }
}

fn nexus_json(m: &Message, tx: &[u8], ix: u64) -> Value {
    json!({
        "source_chain": String::from(m.cc_id.chain.clone()),
        "source_address": m.source_address.as_str(),
        "destination_chain": String::from(m.destination_chain.clone()),
        "destination_address": m.destination_address.as_str(),
        "payload_hash": m.payload_hash.to_vec(),
        "source_tx_id": tx,
        "source_tx_index": ix,
    })
}

impl Nx {
    fn new() -> Nx {
        let mut w = World::new();
        let (router, router_ctl) = w.mock();
        let (module, module_ctl) = w.mock();
        let ng = w
            .instantiate(
                Box::new(NexusGateway { module: module.clone() }),
                &json!({"nexus": "nexus", "router": router}),
                "nexus-gateway",
            )
            .expect("nexus gateway instantiates");
        Nx {
            w,
            ng,
            router,
            router_ctl,
            module,
            module_ctl,
            seen: [0, 0],
            routed: BTreeSet::new(),
        }
    }
    fn fresh(&mut self) -> R<(Vec<Value>, Vec<Value>)> {
        let mut out = [vec![], vec![]];
        for (i, a) in [self.router.clone(), self.module.clone()].iter().enumerate() {
            let log = self.w.mock_log(a);
            for r in &log[self.seen[i]..] {
                ensure_eq!(r.sender, self.ng, "caller");
                ensure!(r.funds.is_empty(), "funds attached");
                out[i].push(r.json());
            }
            self.seen[i] = log.len();
        }
        let [a, b] = out;
        Ok((a, b))
    }
    fn to_nexus(&mut self, src: &mut Src, sender: &Addr, msgs: &[Message]) -> R {
        let down = src.chance(1, 8);
        self.module_ctl.lock().unwrap().fail = down;
        let msg = json!({ "route_messages": msgs.iter().map(msg_json).collect::<Vec<_>>() });
        let ng = self.ng.clone();
        let before = self.w.dump(&ng);
        let r = self.w.exec(sender, &ng, &msg, &[]);
        src.note(|| {
            format!(
                "{sender} route_messages {:?} module down {down} -> {}",
                msgs.iter().map(|m| format!("{}:{}", m.cc_id.chain, *m.cc_id.id)).collect::<Vec<_>>(),
                r.is_ok()
            )
        });
        let mut expect: Vec<&Message> = vec![];
        let mut now: BTreeSet<(String, String)> = BTreeSet::new();
        for m in msgs {
            let k = (m.cc_id.chain.to_string(), m.cc_id.id.to_string());
            if !self.routed.contains(&k) && now.insert(k) {
                expect.push(m);
            } else {
                src.class("duplicate_suppressed");
            }
        }
        let ok = *sender == self.router && !(down && !expect.is_empty());
        ensure!(r.is_ok() == ok, "route_messages by {sender} (router is {}): {:?}", self.router, r.map(|_| ()));
        let (to_router, to_module) = self.fresh()?;
        ensure!(to_router.is_empty(), "messages from the router went back to it");
        if !ok {
            ensure!(to_module.is_empty() && self.w.dump(&ng) == before, "a rejected call had an effect");
            src.class("rejected");
            return Ok(());
        }
        ensure_eq!(to_module.len(), expect.len(), "number of messages sent to nexus");
        for (got, m) in to_module.iter().zip(&expect) {
            let alts: Vec<Value> = tx_of(m.cc_id.id.as_str()).iter().map(|(t, i)| nexus_json(m, t, *i)).collect();
            ensure!(alts.contains(got), "message {} reached nexus as {got}, expected {alts:?}", msg_json(m));
            src.class(if alts.len() > 1 { "unusual_id" } else { "usual_id" });
        }
        if !expect.is_empty() {
            src.class("to_nexus");
        }
        self.routed.extend(now);
        Ok(())
    }
    fn to_router(&mut self, src: &mut Src, sender: &Addr, msgs: &[(Message, Vec<u8>, u64)]) -> R {
        let down = src.chance(1, 10);
        self.router_ctl.lock().unwrap().fail = down;
        let list: Vec<Value> = msgs.iter().map(|(m, t, i)| nexus_json(m, t, *i)).collect();
        let ng = self.ng.clone();
        let before = self.w.dump(&ng);
        let r = self.w.exec(sender, &ng, &json!({ "route_messages_from_nexus": list }), &[]);
        src.note(|| format!("{sender} route_messages_from_nexus {} router down {down} -> {}", json!(list), r.is_ok()));
        let ok = sender.as_str() == "nexus" && !(down && !msgs.is_empty());
        ensure!(r.is_ok() == ok, "route_messages_from_nexus by {sender}: {:?}", r.map(|_| ()));
        let (to_router, to_module) = self.fresh()?;
        ensure!(to_module.is_empty(), "messages from nexus went back to it");
        ensure!(self.w.dump(&ng) == before, "routing to the router changed the nexus gateway's state");
        if !ok {
            ensure!(to_router.is_empty(), "a rejected call had an effect");
            src.class("rejected");
            return Ok(());
        }
        let mut got = vec![];
        for c in &to_router {
            match c["route_messages"].as_array() {
                Some(a) => got.extend(a.iter().cloned()),
                None => return fail(format!("unexpected call of the router: {c}")),
            }
        }
        let want: Vec<Value> = msgs.iter().map(|(m, _, _)| msg_json(m)).collect();
        ensure_eq!(got, want, "messages delivered to the router");
        if !want.is_empty() {
            src.class("to_router");
        }
        Ok(())
    }
}

fn odd_id(src: &mut Src) -> String {
    let h = hexs(&src.bytes(2));
    match src.below(12) {
        0 => format!("0x{h}:+1"),
        1 => format!("0x{h}:01"),
        2 => format!("0x{}:1", h.to_ascii_uppercase()),
        3 => format!("{h}"),
        4 => format!("0x{h}"),
        5 => format!("0x{h}:1:2"),
        6 => format!("0x{h}1:1"),
        7 => format!("0x{h}:{}", 1u128 << 64),
        8 => format!(":{}", src.below(3)),
        9 => format!("0x:{}", src.below(3)),
        10 => format!("0x0x{h}:1"),
        _ => text(src, 8),
    }
}

fn any_message(src: &mut Src, pool: &mut Vec<Message>) -> Message {
    if !pool.is_empty() && src.chance(1, 3) {
        let mut m = src.pick(pool).clone();
        if src.chance(1, 3) {
            m = near(src, &m);
        }
        return m;
    }
    let (a, b) = (*src.pick(CHAINS), *src.pick(CHAINS));
    let mut m = message(src, a, b);
    if src.chance(1, 3) {
        m.cc_id.id = odd_id(src).parse().unwrap();
    }
    pool.push(m.clone());
    m
}

/// a message as it comes from the nexus module, together with the router's form of it
fn from_nexus(src: &mut Src) -> (Message, Vec<u8>, u64) {
    let (a, b) = (*src.pick(CHAINS), *src.pick(CHAINS));
    let mut m = message(src, a, b);
    let n = *src.pick(&[1usize, 2, 20, 32, 33]);
    let tx = if src.chance(1, 3) { vec![src.below(3) as u8; n] } else { src.bytes(n) };
    let ix = if src.bool() { src.below(4) } else { src.u64_any() };
    m.cc_id.id = format!("{}:{ix}", hexs(&tx)).parse().unwrap();
    (m, tx, ix)
}

fn c26(src: &mut Src) -> R {
    let mut s = Nx::new();
    let mut pool = vec![];
    let mut from: Vec<(Message, Vec<u8>, u64)> = vec![];
    src.repeat(1, 14, 7, |src, _| {
        match src.below(3) {
            0 => {
                let n = src.size(4, 150) - 1;
                let msgs: Vec<_> = (0..n).map(|_| from_nexus(src)).collect();
                from.extend(msgs.iter().cloned());
                let sender = match src.below(8) {
                    0 => s.router.clone(),
                    1 => addr("anyone"),
                    2 => s.ng.clone(),
                    _ => addr("nexus"),
                };
                s.to_router(src, &sender, &msgs)
            }
            1 if !from.is_empty() => {
                // round trip: what came from nexus is routed back there
                let k = src.idx(from.len());
                let (m, tx, ix) = from[k].clone();
                ensure_eq!(tx_of(m.cc_id.id.as_str()), vec![(tx, ix)], "oracle");
                let router = s.router.clone();
                src.class("round_trip");
                s.to_nexus(src, &router, &[m])
            }
            _ => {
                let n = src.size(5, 150) - 1;
                let mut msgs: Vec<_> = (0..n).map(|_| any_message(src, &mut pool)).collect();
                if !msgs.is_empty() && src.chance(1, 4) {
                    let m = src.pick(&msgs).clone();
                    msgs.push(m);
                }
                if msgs.len() > 1 {
                    src.nontrivial();
                }
                let sender = match src.below(8) {
                    0 => addr("nexus"),
                    1 => addr("anyone"),
                    2 => s.ng.clone(),
                    _ => s.router.clone(),
                };
                s.to_nexus(src, &sender, &msgs)
            }
        }
    })
}

// ---------------------------------------------------------------- C27

fn answer(src: &mut Src, msgs: &[Message]) -> Value {
    let mut out: Vec<Value> = msgs
        .iter()
        .map(|m| json!([{"chain": String::from(m.cc_id.chain.clone()), "id": m.cc_id.id.as_str()}, src.bool()]))
        .collect();
    match src.below(6) {
        0 => src.shuffle(&mut out),
        1 if !out.is_empty() => {
            let x = src.pick(&out).clone();
            out.push(x);
        }
        2 => {
            out.pop();
        }
        _ => {}
    }
    json!(out)
}

fn c27(src: &mut Src) -> R {
    let mut w = World::new();
    let (ver, ctl) = w.mock();
    let agg = w
        .instantiate(w_aggregate_verifier(), &json!({ "verifier_address": ver }), "aggregate-verifier")
        .expect("aggregate verifier instantiates");
    let mut seen = 0;
    let mut pool = vec![];
    src.repeat(1, 6, 3, |src, _| {
        let n = src.size(6, 150) - 1;
        let msgs: Vec<Message> = (0..n).map(|_| any_message(src, &mut pool)).collect();
        let list: Vec<Value> = msgs.iter().map(msg_json).collect();
        let ans = answer(src, &msgs);
        let text = serde_json::to_vec(&ans).unwrap();
        let down = src.chance(1, 6);
        if n > 1 && !down {
            src.nontrivial();
        }
        if src.bool() {
            let t2 = text.clone();
            let l2 = json!(list);
            {
                let mut c: std::sync::MutexGuard<Ctl> = ctl.lock().unwrap();
                c.query = Some(Box::new(move |q| {
                    if down {
                        return Err("verifier fails".into());
                    }
                    if q["is_verified"]["messages"] != l2 {
                        return Err(format!("unexpected query {q}"));
                    }
                    Ok(t2.clone().into())
                }));
            }
            let got: Result<Value, String> = w.query(&agg, &json!({"is_verified": {"messages": list}}));
            src.note(|| format!("query {} down {down} -> {got:?}", json!(list)));
            if down {
                ensure!(got.is_err(), "the verifier failed, the query returned {got:?}");
                src.class("query_failed");
            } else {
                ensure_eq!(got, Ok(ans), "verification status of {}", json!(list));
                src.class("query");
            }
        } else {
            {
                let mut c = ctl.lock().unwrap();
                c.fail = down;
                c.data = Some(Binary(text));
            }
            let who = addr(*src.pick(&["gateway", "anyone", "relayer"]));
            let before = w.dump(&agg);
            let r = w.exec(&who, &agg, &json!({"verify_messages": {"messages": list}}), &[]);
            src.note(|| format!("verify {} down {down} -> {:?}", json!(list), r.as_ref().map(|r| r.data.clone())));
            let log = w.mock_log(&ver);
            let new = &log[seen..];
            if down {
                ensure!(r.is_err(), "the verifier failed, the request succeeded");
                ensure!(new.is_empty() && w.dump(&agg) == before, "a failed request left effects");
                src.class("execute_failed");
            } else {
                ensure!(r.is_ok(), "verification request: {r:?}");
                let data = r.unwrap().data.unwrap_or_default();
                let got: Value = serde_json::from_slice(&data).unwrap_or(Value::Null);
                ensure_eq!(got, ans, "data returned by the request");
                ensure_eq!(new.len(), 1, "calls of the verifier");
                ensure_eq!(new[0].sender, agg, "caller of the verifier");
                ensure_eq!(new[0].json(), json!({"verify_messages": {"messages": list}}), "request of the verifier");
                src.class("execute");
            }
            seen = log.len();
        }
        Ok(())
    })
}

/// the same history on a voting verifier alone and on one behind an aggregate verifier
fn c27_voting(src: &mut Src) -> R {
    let active: Vec<String> = (0..src.size(5, 40) - 1).map(|i| format!("worker{i}")).collect();
    let (num, den) = *src.pick(&[(2u64, 3u64), (51, 100), (1, 1)]);
    let expiry = 1 + src.below(6);
    // 0: direct, 1: behind the aggregate verifier
    let mut ws: Vec<(World, Addr, Addr)> = (0..2)
        .map(|i| {
            let mut w = World::new();
            let (registry, ctl) = w.mock();
            let (rewards, _) = w.mock();
            let list: Vec<_> = active.iter().map(|a| crate::props::voting::worker_record(a, "validators")).collect();
            ctl.lock().unwrap().query = Some(Box::new(move |_| serde_json::to_vec(&list).map(|v| v.into()).map_err(|e| e.to_string())));
            let vv = w
                .instantiate(
                    w_voting_verifier(),
                    &json!({"service_registry_address": registry, "service_name": "validators", "source_gateway_address": "0x1",
                        "voting_threshold": [num.to_string(), den.to_string()], "block_expiry": expiry, "confirmation_height": 1,
                        "source_chain": "ethereum", "rewards_address": rewards}),
                    "verifier",
                )
                .expect("voting verifier instantiates");
            let front = if i == 0 {
                vv.clone()
            } else {
                w.instantiate(w_aggregate_verifier(), &json!({ "verifier_address": vv }), "aggregate-verifier")
                    .expect("aggregate verifier instantiates")
            };
            (w, vv, front)
        })
        .collect();
    let pool: Vec<Message> = (0..src.size(5, 80)).map(|i| {
        let from = if src.chance(1, 25) { "avalanche" } else { "ethereum" };
        let mut m = message(src, from, "sui");
        if src.chance(9, 10) {
            m.cc_id.id = format!("0x{:02x}:{}", i, src.below(3)).parse().unwrap();
        }
        m
    }).collect();
    let mut polls = 0u64;
    src.repeat(2, 16, 10, |src, _| {
        let mut l = pool.clone();
        src.shuffle(&mut l);
        let n = src.idx(l.len() + 1);
        l.truncate(n);
        let list: Vec<Value> = l.iter().map(msg_json).collect();
        match src.below(4) {
            0 | 1 => {
                let m = json!({"verify_messages": {"messages": list}});
                let mut out = vec![];
                for (w, _, front) in ws.iter_mut() {
                    let f = front.clone();
                    out.push(w.exec(&addr("relayer"), &f, &m, &[]).map(|r| {
                        let data: Value = r.data.and_then(|d| serde_json::from_slice(&d).ok()).unwrap_or(Value::Null);
                        (data, r.events.iter().any(|e| e.ty == "wasm-messages_poll_started"))
                    }));
                }
                src.note(|| format!("verify {} -> {:?}", json!(list), out[0]));
                match (&out[0], &out[1]) {
                    (Ok(a), Ok(b)) => {
                        ensure_eq!(b, a, "request through the aggregate verifier");
                        if a.1 {
                            polls += 1;
                            src.class("poll");
                        }
                        if list.len() > 1 {
                            src.nontrivial();
                        }
                        src.class("request");
                    }
                    (Err(_), Err(_)) => src.class("request_rejected"),
                    (a, b) => return fail(format!("request {}: directly {a:?}, through the aggregate verifier {b:?}", json!(list))),
                }
            }
            2 => {
                let mut out: Vec<Result<Value, String>> = vec![];
                for (w, _, front) in ws.iter() {
                    out.push(w.query(front, &json!({"is_verified": {"messages": list}})));
                }
                src.note(|| format!("query {} -> {:?}", json!(list), out[0]));
                match (&out[0], &out[1]) {
                    (Ok(a), Ok(b)) => {
                        ensure_eq!(b, a, "status through the aggregate verifier");
                        if a.to_string().contains("true") {
                            src.class("verified");
                        }
                    }
                    (Err(_), Err(_)) => {}
                    (a, b) => return fail(format!("status of {}: directly {a:?}, through the aggregate verifier {b:?}", json!(list))),
                }
            }
            _ => {
                // everybody votes in the last poll, directly in both worlds
                let ok = src.chance(3, 4);
                for n in 1..=pool.len() {
                    let v = if ok { "succeeded_on_chain" } else { "not_found" };
                    let m = json!({"vote": {"poll_id": polls.to_string(), "votes": vec![v; n]}});
                    for a in &active {
                        for (w, vv, _) in ws.iter_mut() {
                            let to = vv.clone();
                            let _ = w.exec(&addr(a), &to, &m, &[]);
                        }
                    }
                }
                let end = src.bool();
                for (w, vv, _) in ws.iter_mut() {
                    if end {
                        w.advance(expiry, 5);
                        let to = vv.clone();
                        let _ = w.exec(&addr("anyone"), &to, &json!({"end_poll": {"poll_id": polls.to_string()}}), &[]);
                    }
                }
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C28

/// records calls, emits an event, fails on demand
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Op {
    id: u64,
    fail: bool,
    /// fail unless exactly this many calls were recorded before
    at: Option<u64>,
}
fn t_exec(
    deps: cosmwasm_std::DepsMut,
    _: cosmwasm_std::Env,
    info: cosmwasm_std::MessageInfo,
    op: Op,
) -> cosmwasm_std::StdResult<cosmwasm_std::Response> {
    let mut log: Vec<(u64, Vec<Coin>, String)> =
        deps.storage.get(b"log").map(|b| serde_json::from_slice(&b).unwrap()).unwrap_or_default();
    if op.fail || op.at.map(|n| n != log.len() as u64).unwrap_or(false) {
        return Err(cosmwasm_std::StdError::generic_err("told to fail"));
    }
    log.push((op.id, info.funds, info.sender.into()));
    deps.storage.set(b"log", &serde_json::to_vec(&log).unwrap());
    let mut r = cosmwasm_std::Response::new();
    if op.id % 2 == 0 {
        r = r
            .add_event(cosmwasm_std::Event::new("op_done").add_attribute("id", op.id.to_string()))
            .add_attribute("done", op.id.to_string())
            .set_data(b"data");
    }
    Ok(r)
}
fn t_inst(
    _: cosmwasm_std::DepsMut,
    _: cosmwasm_std::Env,
    _: cosmwasm_std::MessageInfo,
    _: Empty,
) -> cosmwasm_std::StdResult<cosmwasm_std::Response> {
    Ok(cosmwasm_std::Response::new())
}
fn t_query(deps: cosmwasm_std::Deps, _: cosmwasm_std::Env, _: Empty) -> cosmwasm_std::StdResult<Binary> {
    Ok(Binary(deps.storage.get(b"log").unwrap_or_else(|| b"[]".to_vec())))
}

#[derive(Clone, Debug)]
enum M {
    Op { target: usize, op: Op, coins: u128 },
    Pay { to: usize, amount: u128 },
    Missing,
    Batch { which: usize, must: Vec<M>, can: Vec<M>, coins: u128 },
}
const PAYEES: &[&str] = &["payee0", "payee1"];
const RICH: u128 = 1_000_000;

#[derive(Clone, Debug, Default, PartialEq)]
struct Model {
    logs: Vec<Vec<(u64, Vec<Coin>, String)>>,
    /// balances of the two batching contracts, the targets and the payees
    bal: BTreeMap<String, u128>,
    /// attribute keys of the failed_msg events per batching contract
    failed: Vec<Vec<String>>,
}
struct Names {
    batch: Vec<Addr>,
    target: Vec<Addr>,
}
impl Model {
    fn pay(&mut self, from: &str, to: &str, amount: u128) -> bool {
        let f = self.bal.get(from).copied().unwrap_or(0);
        if f < amount {
            return false;
        }
        *self.bal.entry(from.into()).or_default() -= amount;
        *self.bal.entry(to.into()).or_default() += amount;
        true
    }
    fn run(&mut self, n: &Names, sender: &str, m: &M) -> bool {
        let mut next = self.clone();
        let ok = next.try_run(n, sender, m);
        if ok {
            *self = next;
        }
        ok
    }
    fn try_run(&mut self, n: &Names, sender: &str, m: &M) -> bool {
        match m {
            M::Op { target, op, coins } => {
                let t = n.target[*target].to_string();
                if !self.pay(sender, &t, *coins) {
                    return false;
                }
                let log = &mut self.logs[*target];
                if op.fail || op.at.map(|x| x != log.len() as u64).unwrap_or(false) {
                    return false;
                }
                log.push((op.id, funds(*coins), sender.into()));
                true
            }
            M::Pay { to, amount } => self.pay(sender, PAYEES[*to], *amount),
            M::Missing => false,
            M::Batch { which, must, can, coins } => {
                let me = n.batch[*which].to_string();
                if !self.pay(sender, &me, *coins) {
                    return false;
                }
                for m in must {
                    if !self.run(n, &me, m) {
                        return false;
                    }
                }
                for (i, m) in can.iter().enumerate() {
                    if !self.run(n, &me, m) {
                        self.failed[*which].push(i.to_string());
                    }
                }
                true
            }
        }
    }
}
fn funds(x: u128) -> Vec<Coin> {
    if x == 0 {
        vec![]
    } else {
        vec![coin(x, "tok")]
    }
}
fn to_msg(n: &Names, m: &M) -> CosmosMsg {
    match m {
        M::Op { target, op, coins } => WasmMsg::Execute {
            contract_addr: n.target[*target].to_string(),
            msg: to_binary(op).unwrap(),
            funds: funds(*coins),
        }
        .into(),
        M::Pay { to, amount } => BankMsg::Send {
            to_address: PAYEES[*to].into(),
            amount: funds(*amount),
        }
        .into(),
        M::Missing => WasmMsg::Execute {
            contract_addr: "nowhere".into(),
            msg: to_binary(&json!({})).unwrap(),
            funds: vec![],
        }
        .into(),
        M::Batch { which, must, can, coins } => WasmMsg::Execute {
            contract_addr: n.batch[*which].to_string(),
            msg: to_binary(&batch_json(n, must, can)).unwrap(),
            funds: funds(*coins),
        }
        .into(),
    }
}
fn batch_json(n: &Names, must: &[M], can: &[M]) -> Value {
    let l = |ms: &[M]| ms.iter().map(|m| to_msg(n, m)).collect::<Vec<_>>();
    json!({"batch": {"must_succeed_msgs": l(must), "can_fail_msgs": l(can)}})
}
/// `state`: exact-position conditions may be used (only where the order is specified)
fn gen_m(src: &mut Src, next: &mut u64, depth: u32, bad: u64, required: bool) -> M {
    match src.weighted(&[10, 3, 1, if depth == 0 { 0 } else { 4 }]) {
        1 => M::Pay {
            to: src.idx(PAYEES.len()),
            amount: if src.chance(bad, 100) { RICH * 100 } else { 1 + src.below(5) as u128 },
        },
        2 if src.chance(bad, 100) => M::Missing,
        3 => {
            let b = bad;
            let (must, can) = gen_lists(src, next, depth - 1, b);
            M::Batch {
                which: src.idx(2),
                must,
                can,
                coins: if src.chance(1, 4) { src.below(4) as u128 } else { 0 },
            }
        }
        _ => {
            *next += 1;
            // target 2 is only used by required messages, whose order is fixed
            let target = if required && src.chance(1, 3) { 2 } else { src.idx(2) };
            M::Op {
                target,
                op: Op {
                    id: *next,
                    fail: src.chance(bad, 100),
                    at: None,
                },
                coins: if src.chance(1, 4) { src.below(4) as u128 } else { 0 },
            }
        }
    }
}
fn gen_lists(src: &mut Src, next: &mut u64, depth: u32, bad: u64) -> (Vec<M>, Vec<M>) {
    let (a, b) = if depth == 0 { (src.idx(4), src.idx(5)) } else { (src.size(4, 60) - 1, src.size(5, 60) - 1) };
    let must = (0..a).map(|_| gen_m(src, next, depth, bad / 6, true)).collect();
    let can = (0..b).map(|_| gen_m(src, next, depth, bad, false)).collect();
    (must, can)
}

fn c28(src: &mut Src) -> R {
    let mut w = World::new();
    let wrap = || -> Box<dyn Contract<Empty>> { Box::new(ContractWrapper::new(t_exec, t_inst, t_query)) };
    let n = Names {
        batch: (0..2).map(|_| w.instantiate(w_batching(), &json!({}), "batching").expect("batching")).collect(),
        target: (0..3).map(|_| w.instantiate(wrap(), &json!({}), "target").expect("target")).collect(),
    };
    let mut model = Model {
        logs: vec![vec![]; 3],
        failed: vec![vec![]; 2],
        ..Default::default()
    };
    for a in n.batch.iter().map(|a| a.as_str()).chain(["caller"]) {
        w.mint(&addr(a), funds(RICH));
        model.bal.insert(a.into(), RICH);
    }
    let mut next = 0;
    src.repeat(1, 5, 3, |src, _| {
        let bad = *src.pick(&[0u64, 30, 60]);
        let (mut must, can) = gen_lists(src, &mut next, 2, bad);
        // the required messages see exactly the effects of the earlier ones
        let mut at = model.logs[2].len() as u64;
        for m in must.iter_mut() {
            match m {
                M::Op { target: 2, op, .. } => {
                    op.at = Some(at + if src.chance(bad, 600) { 1 } else { 0 });
                    at += 1;
                }
                M::Batch { .. } => break,
                _ => {}
            }
        }
        let top = M::Batch {
            which: src.idx(2),
            must: must.clone(),
            can: can.clone(),
            coins: src.below(3) as u128,
        };
        let (which, coins) = match &top {
            M::Batch { which, coins, .. } => (*which, *coins),
            _ => unreachable!(),
        };
        for f in model.failed.iter_mut() {
            f.clear();
        }
        let ok = model.run(&n, "caller", &top);
        let r = w.exec(&addr("caller"), &n.batch[which], &batch_json(&n, &must, &can), &funds(coins));
        src.note(|| format!("batch {which} must {must:?} can {can:?} -> {}", r.is_ok()));
        ensure!(r.is_ok() == ok, "batch, expected success {ok}: {:?}", r.map(|_| ()));
        src.class(if ok { "batch" } else { "batch_failed" });
        for (i, t) in n.target.iter().enumerate() {
            let mut got: Vec<(u64, Vec<Coin>, String)> = w.query(t, &json!({})).expect("log");
            let mut want = model.logs[i].clone();
            if i < 2 {
                // the order among optional messages is not specified
                got.sort_by_key(|x| x.0);
                want.sort_by_key(|x| x.0);
            }
            ensure_eq!(got, want, "calls recorded by target {i}");
        }
        let all = n.batch.iter().chain(&n.target).map(|a| a.to_string());
        for a in all.chain(PAYEES.iter().map(|x| x.to_string())).chain(["caller".to_string()]) {
            ensure_eq!(
                w.balance(&addr(&a), "tok"),
                model.bal.get(&a).copied().unwrap_or(0),
                "balance of {a}"
            );
        }
        if let Ok(r) = r {
            for (i, b) in n.batch.iter().enumerate() {
                let mut got: Vec<String> = events(&r, b, "failed_msg")
                    .iter()
                    .flat_map(|e| e.attributes.iter().map(|a| a.key.clone()).filter(|k| k != "_contract_addr"))
                    .collect();
                let mut want = model.failed[i].clone();
                got.sort();
                want.sort();
                ensure_eq!(got, want, "failed_msg events of batching contract {i}");
            }
            if model.failed.iter().any(|f| !f.is_empty()) {
                src.class("isolated_failure");
                if can.len() > 1 || must.len() > 1 {
                    src.nontrivial();
                }
            }
        }
        Ok(())
    })
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C26",
            rule: "histories of batches in both directions from every kind of sender, with repeated ids (within a batch and later, also with other content), well-formed and odd message ids, round trips, and failing neighbours; every message that reaches the router or the nexus module is compared with a model. Non-trivial: a batch with more than one message towards nexus",
            assumptions: &["the message to the nexus module is observed as the contract returns it (the module itself is outside the repository)"],
            subs: vec![Sub { name: "history", f: c26, quick: 200_000, thorough: 3_000_000 }],
            known: vec![],
        },
        Check {
            id: "C27",
            rule: "random message lists against a verifier that gives arbitrary well-formed answers (also reordered, longer and shorter than the request) or fails; requests, returned data, query results and effects are compared; and the same history on a voting verifier alone and on one behind an aggregate verifier. Non-trivial: more than one message and a verifier that does not fail",
            assumptions: &["cw-multi-test 0.15.1 stands for the chain"],
            subs: vec![
                Sub { name: "transparent", f: c27, quick: 240_000, thorough: 3_000_000 },
                Sub { name: "voting", f: c27_voting, quick: 24_000, thorough: 600_000 },
            ],
            known: vec![],
        },
        Check {
            id: "C28",
            rule: "sequences of batches of contract calls, token transfers and nested batches (two batching contracts, depth up to 3) with generated failures and conditions on the position; recorded calls, balances and failed_msg events are compared with a model. Non-trivial: an optional message failed in a batch with several messages",
            assumptions: &["cw-multi-test 0.15.1 and its bank module stand for the chain"],
            subs: vec![Sub { name: "batches", f: c28, quick: 200_000, thorough: 2_400_000 }],
            known: vec![],
        },
    ]
}
