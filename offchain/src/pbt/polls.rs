//! C33, C34: the worker's votes in polls about messages and about worker sets. The polls are started
//! at (and the votes sent to) the real voting verifier; the source chain is simulated behind the
//! JSON-RPC interface.
use super::sim::*;
use super::sim::Tx;
use crate::engine::*;
use crate::event_processor::EventHandler;
use crate::handlers::{evm_verify_msg, evm_verify_worker_set, sui_verify_msg, sui_verify_worker_set};
use crate::json_rpc::Client;
use crate::util::app::*;
use cosmwasm_std::{Addr, Uint256};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use tokio::sync::watch;

pub const C33: u8 = 1;
pub const C34: u8 = 2;

/// a message as the verifier is asked about it
#[derive(Clone, Debug, PartialEq)]
struct Msg {
    id: String,
    source_address: String,
    dest_chain: String,
    dest: String,
    hash: [u8; 32],
}
#[derive(Clone, Debug, PartialEq)]
struct SetQ {
    id: String,
    /// hex encoded addresses
    ops: Vec<(String, String)>,
    threshold: String,
}
#[derive(Clone, Debug)]
enum Item {
    Msgs(Vec<Msg>),
    Set(SetQ),
}
impl Item {
    fn len(&self) -> usize {
        match self {
            Item::Msgs(m) => m.len(),
            Item::Set(_) => 1,
        }
    }
}

#[derive(Clone)]
struct Poll {
    id: String,
    item: Item,
    keys: Vec<String>,
    expires_at: u64,
    conf: u64,
    quorum: u64,
    participants: BTreeSet<String>,
    success: Vec<u64>,
    ended: bool,
}

struct Verifier {
    addr: Addr,
    kind: Kind,
    chain: String,
    gateway: Vec<u8>,
    conf: u64,
    expiry: u64,
    threshold: (u64, u64),
    active: Arc<Mutex<Vec<String>>>,
}

struct Worker {
    name: String,
    node: Arc<Mutex<Node>>,
    sender: Sender,
    height: watch::Sender<u64>,
    handlers: Vec<Box<dyn Fn(&events::Event) -> Result<(), String>>>,
    /// (event, its poll) still to be processed
    queue: Vec<(events::Event, Option<usize>)>,
    /// configured for the chain of the polls
    right_chain: bool,
}

pub fn handler<H: EventHandler + 'static>(h: H) -> Box<dyn Fn(&events::Event) -> Result<(), String>> {
    Box::new(move |e| match guard(|| futures::executor::block_on(h.handle(e))) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(r)) => Err(format!("{r:?}").replace(char::is_whitespace, " ")),
        Err(p) => Err(format!("PANIC {p}")),
    })
}

const NAMES: &[&str] = &["worker0", "worker1", "worker2", "worker3", "worker4"];

fn verifier(src: &mut Src, w: &mut World, kind: Kind, chain: &str, n: usize) -> Verifier {
    let (registry, ctl) = w.mock();
    let (rewards, _) = w.mock();
    // participants that never vote
    let idle = src.size(1, 90) - 1;
    let names = (0..idle).map(|i| format!("idle{i}")).chain(NAMES[..n].iter().map(|s| s.to_string()));
    let active: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(names.collect()));
    let a2 = active.clone();
    ctl.lock().unwrap().query = Some(Box::new(move |_| {
        use service_registry::state::{AuthorizationState, BondingState, Worker};
        let v: Vec<Worker> = a2
            .lock()
            .unwrap()
            .iter()
            .map(|a| Worker {
                address: Addr::unchecked(a),
                bonding_state: BondingState::Bonded { amount: 100u128.into() },
                authorization_state: AuthorizationState::Authorized,
                service_name: "service".into(),
            })
            .collect();
        serde_json::to_vec(&v).map(|v| v.into()).map_err(|e| e.to_string())
    }));
    let threshold = *src.pick(&[(2, 3), (1, 1), (51, 100), (3, 4)]);
    let expiry = 1 + src.below(10);
    let conf = match src.below(8) {
        0..=2 => src.below(4),
        3 | 4 => src.below(40),
        5 => 1000,
        _ => 1,
    };
    let gateway = src.bytes(kind.addr_len());
    let gw = spell(src, &gateway);
    let msg: voting_verifier::msg::InstantiateMsg = serde_json::from_value(json!({
        "service_registry_address": registry, "service_name": "service",
        "source_gateway_address": gw, "voting_threshold": [threshold.0.to_string(), threshold.1.to_string()],
        "block_expiry": expiry, "confirmation_height": conf, "source_chain": chain, "rewards_address": rewards,
    }))
    .expect("valid instantiate message");
    let addr = w.instantiate(w_voting_verifier(), &msg, "verifier").expect("verifier instantiates");
    Verifier { addr, kind, chain: chain.to_string(), gateway, conf, expiry, threshold, active }
}

/// an address in one of the spellings in use
fn spell(src: &mut Src, a: &[u8]) -> String {
    let h = hex::encode(a);
    match src.below(4) {
        0 if a.len() == 20 => format!("0x{}", h.to_uppercase()),
        1 if a.len() == 20 => {
            let mixed: String = h
                .chars()
                .enumerate()
                .map(|(i, c)| if i % 3 == 0 { c.to_ascii_uppercase() } else { c })
                .collect();
            format!("0x{mixed}")
        }
        _ => format!("0x{h}"),
    }
}
fn parse_addr(s: &str, len: usize) -> Option<Vec<u8>> {
    let v = hex::decode(s.strip_prefix("0x").unwrap_or(s)).ok()?;
    (v.len() == len).then_some(v)
}

struct Sys {
    focus: u8,
    w: World,
    v: Verifier,
    other: Verifier,
    chain: Arc<Mutex<SourceChain>>,
    workers: Vec<Worker>,
    polls: Vec<Poll>,
    latest: BTreeMap<String, (usize, usize)>,
    asked: BTreeMap<String, Value>,
    asked_sets: BTreeMap<String, Value>,
    /// message ids confirmed for an event of the source chain
    confirmed: BTreeMap<([u8; 32], u64), BTreeSet<String>>,
    senders: Vec<Vec<u8>>,
}

const DESTS: &[&str] = &["avalanche", "Polygon-2", "SUI", "Fantom"];

fn chain_name(src: &mut Src, kind: Kind) -> &'static str {
    match kind {
        Kind::Ethereum => "ethereum",
        Kind::OtherEvm => *src.pick(&["avalanche", "polygon-2", "ethereum-2", "137", "1e3", "true"]),
        Kind::Sui => "sui",
    }
}

impl Sys {
    fn new(src: &mut Src, focus: u8) -> Sys {
        let kind = *src.pick(&[Kind::Ethereum, Kind::OtherEvm, Kind::Sui]);
        let mut w = World::new();
        let n = 1 + src.idx(NAMES.len());
        let name = chain_name(src, kind);
        let v = verifier(src, &mut w, kind, name, n);
        let okind = *src.pick(&[Kind::Ethereum, Kind::Sui, Kind::OtherEvm]);
        // usually a verifier of another chain, sometimes a second one for the same chain
        let oname = if okind == kind && src.bool() { name } else { chain_name(src, okind) };
        let other = verifier(src, &mut w, okind, oname, n);
        let latest = match src.below(3) {
            0 => src.below(30),
            _ => 1000 + src.below(1000),
        };
        let chain = Arc::new(Mutex::new(SourceChain {
            kind,
            txs: vec![],
            latest,
            finalized: latest.saturating_sub(src.below(40)),
        }));
        let honest = 1 + src.idx(n);
        let mut workers = vec![];
        for (i, name) in NAMES[..honest].iter().enumerate() {
            // the last one may not be a participant, or may be set up for another chain
            let name = if i + 1 == honest && src.chance(1, 8) { "observer" } else { *name };
            let right_chain = kind == Kind::Sui || i + 1 < honest || !src.chance(1, 8);
            let node = Arc::new(Mutex::new(Node { omits_unknown: src.bool(), ..Default::default() }));
            let sender = Sender::default();
            let (height, rx) = watch::channel(w.height());
            let rpc = || Client::new(Rpc { chain: chain.clone(), node: node.clone() });
            let evm_name: crate::evm::ChainName = match (kind, right_chain) {
                (Kind::Ethereum, true) => crate::evm::ChainName::Ethereum,
                (Kind::Ethereum, false) => crate::evm::ChainName::Other("Ethereum-3".into()),
                (_, true) => crate::evm::ChainName::Other(crate::util::gen::recase(src, &v.chain)),
                (_, false) => crate::evm::ChainName::Ethereum,
            };
            let (a, b) = (tm(name), tm(v.addr.as_str()));
            let handlers = match kind {
                Kind::Sui => vec![
                    handler(sui_verify_msg::Handler::new(a.clone(), b.clone(), rpc(), sender.clone(), rx.clone())),
                    handler(sui_verify_worker_set::Handler::new(a, b, rpc(), sender.clone(), rx)),
                ],
                _ => vec![
                    handler(evm_verify_msg::Handler::new(
                        a.clone(),
                        b.clone(),
                        evm_name.clone(),
                        rpc(),
                        sender.clone(),
                        rx.clone(),
                    )),
                    handler(evm_verify_worker_set::Handler::new(a, b, evm_name, rpc(), sender.clone(), rx)),
                ],
            };
            workers.push(Worker { name: name.into(), node, sender, height, handlers, queue: vec![], right_chain });
        }
        src.note(|| {
            format!(
                "{kind:?} chain {} at block {latest}, gateway {}, {} confirmations, threshold {:?}, expiry {}, {n} participants, workers {:?}",
                v.chain,
                hx(&v.gateway),
                v.conf,
                v.threshold,
                v.expiry,
                workers.iter().map(|w| format!("{}{}", w.name, if w.right_chain { "" } else { " (other chain)" })).collect::<Vec<_>>()
            )
        });
        let senders = (0..3).map(|_| src.bytes(kind.addr_len())).collect();
        Sys {
            focus,
            w,
            v,
            other,
            chain,
            workers,
            polls: vec![],
            latest: BTreeMap::new(),
            asked: BTreeMap::new(),
            asked_sets: BTreeMap::new(),
            confirmed: BTreeMap::new(),
            senders,
        }
    }

    fn op_set(&self, src: &mut Src) -> OpSet {
        let wide = self.v.kind != Kind::Sui;
        let number = |src: &mut Src| {
            let x = Uint256::from(src.u128_any());
            let x = if wide && src.chance(1, 6) { (x << 128) + Uint256::from(src.u128_any()) } else { x };
            x.max(Uint256::one())
        };
        let mut ops: Vec<(Vec<u8>, Uint256)> = vec![];
        for _ in 0..src.size(4, 80) {
            let len = match self.v.kind {
                Kind::Sui => *src.pick(&[33, 32, 20]),
                _ => 20,
            };
            let mut a = src.bytes(len);
            if len == 33 {
                a[0] = 2 + (a[0] & 1);
            }
            ops.push((a, number(src)));
        }
        ops.sort();
        OpSet { ops, threshold: number(src) }
    }

    /// activity on the source chain
    fn mine(&mut self, src: &mut Src) {
        let kind = self.v.kind;
        let mut c = self.chain.lock().unwrap();
        let k = src.below(4) * src.below(15);
        c.latest += k;
        if src.bool() {
            c.finalized = c.latest.saturating_sub(src.below(12)).max(c.finalized);
        }
        let n = src.below(3);
        for _ in 0..n {
            let mut hash = [0u8; 32];
            hash.copy_from_slice(&src.bytes(32));
            let mut logs = vec![];
            let base = if kind == Kind::Sui { 0 } else { src.below(50) };
            for j in 0..src.size(5, 300) as u64 - 1 {
                let call = |src: &mut Src| {
                    let payload = src.bytes(5);
                    (
                        src.pick(&self.senders).clone(),
                        src.pick(DESTS).to_string(),
                        src.pick(&["0xab", "0xAB", "dest", "", "d:1"]).to_string(),
                        keccak(&payload),
                        payload,
                    )
                };
                let ev = match src.below(8) {
                    0 => {
                        let b = src.bytes(8);
                        Ev::Garbage(b)
                    }
                    1 => {
                        let (sender, chain, dest, hash, _) = call(src);
                        Ev::Approved { sender, chain, dest, hash }
                    }
                    2 | 3 if self.focus & C34 != 0 => Ev::Ops(self.op_set(src)),
                    4 | 5 | 6 if self.focus & C34 != 0 => Ev::Ops(self.op_set(src)),
                    2 => Ev::Ops(self.op_set(src)),
                    _ => {
                        let (sender, chain, dest, hash, payload) = call(src);
                        Ev::Call { sender, chain, dest, hash, payload }
                    }
                };
                let mut emitter = self.v.gateway.clone();
                if src.chance(1, 8) {
                    let i = src.idx(emitter.len());
                    emitter[i] ^= 1 << src.below(8);
                }
                logs.push(Log {
                    emitter,
                    index: base + j,
                    ev,
                    other_tx: kind != Kind::Sui && src.chance(1, 30),
                    other_module: kind == Kind::Sui && src.chance(1, 12),
                });
            }
            let age = src.below(4) * src.below(30);
            let block = c.latest.saturating_sub(age);
            let block = (!src.chance(1, 10)).then_some(block);
            src.note(|| {
                format!(
                    "source tx {} in {block:?}: {:?}",
                    hx(&hash[..4]),
                    logs.iter().map(|l| (l.index, l.ev.clone())).collect::<Vec<_>>()
                )
            });
            c.txs.push(Tx { hash, block, logs });
        }
        let (l, f) = (c.latest, c.finalized);
        src.note(|| format!("source chain at {l}, finalized {f}"));
    }

    fn tx_id(&self, src: &mut Src, h: &[u8; 32]) -> String {
        if self.v.kind == Kind::Sui {
            return match src.below(20) {
                0 => hx(h),
                1 => format!("1{}", b58(h)),
                _ => b58(h),
            };
        }
        let s = hex::encode(h);
        match src.below(28) {
            0 => format!("0x{}", s.to_uppercase()),
            1 => s,
            2 => format!("0X{s}"),
            3 => {
                let i = src.idx(64);
                let t: String = s
                    .chars()
                    .enumerate()
                    .map(|(j, c)| if j == i { c.to_ascii_uppercase() } else { c })
                    .collect();
                format!("0x{t}")
            }
            4 => format!("0x{}", &s[2..]),
            _ => format!("0x{s}"),
        }
    }

    /// a message that is on the source chain, perhaps with a small change, or an invented one
    fn msg(&self, src: &mut Src) -> Msg {
        let c = self.chain.lock().unwrap().clone();
        let calls: Vec<([u8; 32], u64, Ev)> = c
            .txs
            .iter()
            .flat_map(|t| t.logs.iter().map(move |l| (t.hash, l.index, l.ev.clone())))
            .filter(|(_, _, e)| matches!(e, Ev::Call { .. } | Ev::Approved { .. }))
            .collect();
        let (h, i, sender, chain, dest, hash) = if calls.is_empty() || src.chance(1, 8) {
            let h: [u8; 32] = src.bytes(32).try_into().unwrap();
            let i = src.u64_any();
            let payload = src.bytes(5);
            (
                h,
                i,
                src.pick(&self.senders).clone(),
                src.pick(DESTS).to_string(),
                src.pick(&["0xab", "dest"]).to_string(),
                keccak(&payload),
            )
        } else {
            match src.pick(&calls).clone() {
                (h, i, Ev::Call { sender, chain, dest, hash, .. }) => (h, i, sender, chain, dest, hash),
                (h, i, Ev::Approved { sender, chain, dest, hash }) => (h, i, sender, chain, dest, hash),
                _ => unreachable!(),
            }
        };
        let mut id = (self.tx_id(src, &h), i);
        let mut m = Msg {
            id: String::new(),
            source_address: spell(src, &sender),
            dest_chain: chain.to_lowercase(),
            dest: if dest.is_empty() { "x".into() } else { dest },
            hash,
        };
        match src.below(36) {
            0 => id.1 = id.1.wrapping_add(1),
            1 => id.1 = src.below(60),
            2 => m.hash[src.idx(32)] ^= 1 << src.below(8),
            3 => m.source_address = spell(src, &src_other(&self.senders, &sender)),
            4 => m.source_address = src.pick(&["addr", "0x12", "0x", "0xzz"]).to_string(),
            5 => m.source_address = format!("{}00", m.source_address),
            6 => m.dest_chain = "other".into(),
            7 => m.dest = crate::util::gen::near_text(src, &m.dest),
            8 => id.0 = src.pick(&["tx", "0x", "0x12", "lIO0"]).to_string(),
            9 => m.dest_chain = format!("{}2", m.dest_chain),
            _ => {}
        }
        if m.dest.trim().is_empty() {
            m.dest = "x".into();
        }
        m.id = format!("{}:{}", id.0, id.1);
        m
    }
    fn msg_value(&self, m: &Msg) -> Value {
        json!({"cc_id": {"chain": self.v.chain, "id": m.id}, "source_address": m.source_address,
               "destination_chain": m.dest_chain, "destination_address": m.dest, "payload_hash": hex::encode(m.hash)})
    }

    fn set(&self, src: &mut Src) -> SetQ {
        let c = self.chain.lock().unwrap().clone();
        let all: Vec<([u8; 32], u64, OpSet)> = c
            .txs
            .iter()
            .flat_map(|t| {
                t.logs.iter().filter_map(move |l| match &l.ev {
                    Ev::Ops(o) => Some((t.hash, l.index, o.clone())),
                    _ => None,
                })
            })
            .collect();
        let (h, mut i, mut o) = if all.is_empty() || src.chance(1, 8) {
            let h: [u8; 32] = src.bytes(32).try_into().unwrap();
            (h, src.below(60), self.op_set(src))
        } else {
            src.pick(&all).clone()
        };
        let mut id = self.tx_id(src, &h);
        let k = src.idx(o.ops.len());
        // the value of a number that is kept in fewer bits
        let other = |src: &mut Src, x: Uint256| x.wrapping_add(Uint256::one() << *src.pick(&[128u32, 64, 192, 32, 255, 127, 63, 8]));
        match src.below(30) {
            0 => i += 1,
            1 => o.ops[k].1 = o.ops[k].1.wrapping_add(Uint256::one()).max(Uint256::one()),
            2 => o.threshold = o.threshold.wrapping_add(Uint256::one()).max(Uint256::one()),
            3 => o.ops.reverse(),
            4 => {
                o.ops.remove(k);
            }
            5 => {
                let j = src.idx(o.ops[k].0.len());
                o.ops[k].0[j] ^= 1;
            }
            6 => {
                let x = o.ops[k].clone();
                o.ops.push(x);
            }
            7 => {
                o.ops[k].0.pop();
            }
            8 | 10 => o.ops[k].1 = other(src, o.ops[k].1).max(Uint256::one()),
            11 => o.threshold = other(src, o.threshold).max(Uint256::one()),
            9 => id = "nothing".into(),
            _ => {}
        }
        let ops: Vec<(String, String)> = o.ops.iter().map(|(a, w)| (hex::encode(a), w.to_string())).collect();
        SetQ { id: format!("{id}:{i}"), ops, threshold: o.threshold.to_string() }
    }
    fn set_value(&self, s: &SetQ) -> Value {
        json!({"weights_by_addresses": s.ops, "threshold": s.threshold})
    }

    /// the event with this id, if it is final for a node (None: the id does not refer to one)
    fn find(&self, node: &Node, id: &str, conf: u64) -> Option<([u8; 32], Log)> {
        let c = self.chain.lock().unwrap();
        let (tx, idx) = id.split_once(':')?;
        let idx: u64 = idx.parse().ok()?;
        let t = c.txs.iter().find(|t| {
            tx == match c.kind {
                Kind::Sui => b58(&t.hash),
                _ => hx(&t.hash),
            }
        })?;
        let latest = c.latest.saturating_sub(node.lag);
        let last = match c.kind {
            Kind::Ethereum => c.finalized.min(latest) as u128,
            // the last block with that many confirmations, itself included
            Kind::OtherEvm => (latest as u128 + 1).saturating_sub(conf as u128).min(latest as u128),
            Kind::Sui => latest as u128,
        };
        let b = t.block?;
        if b as u128 > last || (b > latest) {
            return None;
        }
        let l = t.logs.iter().find(|l| l.index == idx)?;
        Some((t.hash, l.clone()))
    }
    fn confirmed_msg(&self, node: &Node, m: &Msg, conf: u64) -> Option<([u8; 32], u64)> {
        let (h, l) = self.find(node, &m.id, conf)?;
        let Ev::Call { sender, chain, dest, hash, .. } = &l.ev else { return None };
        let ok = l.emitter == self.v.gateway
            && !l.other_tx
            && !l.other_module
            && parse_addr(&m.source_address, self.v.kind.addr_len()).as_ref() == Some(sender)
            && chain.to_lowercase() == m.dest_chain
            && *dest == m.dest
            && *hash == m.hash;
        ok.then_some((h, l.index))
    }
    fn confirmed_set(&self, node: &Node, s: &SetQ, conf: u64) -> bool {
        // the id of a worker set need not be spelled in one way only
        let mut s = s.clone();
        if self.v.kind != Kind::Sui {
            if let Some((t, i)) = s.id.split_once(':') {
                if let Some(b) = parse_addr(t, 32) {
                    s.id = format!("{}:{i}", hx(&b));
                }
            }
        }
        let Some((_, l)) = self.find(node, &s.id, conf) else { return false };
        let Ev::Ops(o) = &l.ev else { return false };
        let asked: Vec<(Vec<u8>, String)> = s.ops.iter().map(|(a, w)| (hex::decode(a).unwrap(), w.clone())).collect();
        let have: Vec<(Vec<u8>, String)> = o.ops.iter().map(|(a, w)| (a.clone(), w.to_string())).collect();
        l.emitter == self.v.gateway
            && !l.other_tx
            && !l.other_module
            && asked == have
            && s.threshold == o.threshold.to_string()
    }

    fn quorum(&self) -> u64 {
        let n = self.v.active.lock().unwrap().len() as u64;
        let (a, b) = self.v.threshold;
        (n * a + b - 1) / b
    }
    fn verified(&self, k: &str) -> bool {
        match self.latest.get(k) {
            Some((p, i)) => self.polls[*p].success[*i] >= self.polls[*p].quorum,
            None => false,
        }
    }

    /// all events of a transaction reach all workers
    fn publish(&mut self, src: &mut Src, r: &cw_multi_test::AppResponse, poll: Option<usize>) -> R {
        let evs = decoded(&r.events)?;
        for wk in &mut self.workers {
            for e in &evs {
                let is = matches!(e, events::Event::Abci { event_type, .. } if event_type.ends_with("poll_started"));
                if is || src.chance(1, 6) {
                    wk.queue.push((e.clone(), if is { poll } else { None }));
                }
            }
        }
        Ok(())
    }

    fn start(&mut self, src: &mut Src, item: Item) -> R {
        let (msg, keys, name) = match &item {
            Item::Msgs(ms) => {
                let vs: Vec<Value> = ms.iter().map(|m| self.msg_value(m)).collect();
                let keys: Vec<String> = vs.iter().map(|v| v.to_string()).collect();
                for (k, v) in keys.iter().zip(&vs) {
                    self.asked.insert(k.clone(), v.clone());
                }
                (json!({"verify_messages": {"messages": vs}}), keys, "messages_poll_started")
            }
            Item::Set(s) => {
                let v = self.set_value(s);
                let k = v.to_string();
                self.asked_sets.insert(k.clone(), v.clone());
                (json!({"verify_worker_set": {"message_id": s.id, "new_operators": v}}), vec![k], "worker_set_poll_started")
            }
        };
        let r = self.w.exec(&addr("anyone"), &self.v.addr.clone(), &msg, &[]);
        src.note(|| format!("poll about {item:?} -> {:?}", r.as_ref().err()));
        let Ok(r) = r else { return Ok(()) };
        let ev = events(&r, &self.v.addr, name);
        let Some(e) = ev.first() else { return Ok(()) };
        let id = attr(e, "poll_id").and_then(|s| serde_json::from_str::<String>(s).ok());
        let Some(id) = id else { return abandon() };
        let expires_at = self.w.height() + self.v.expiry;
        // the verifier asks about the messages that are neither verified nor in an open poll
        let todo: Vec<usize> = (0..item.len())
            .filter(|i| match self.latest.get(&keys[*i]) {
                None => true,
                Some((p, k)) => self.polls[*p].ended && self.polls[*p].success[*k] < self.polls[*p].quorum,
            })
            .collect();
        let mut seen = BTreeSet::new();
        let todo: Vec<usize> = match &item {
            // the same message twice in a batch: polled as often as the verifier says
            Item::Msgs(_) => {
                let n = attr(e, "messages")
                    .and_then(|s| serde_json::from_str::<Vec<Value>>(s).ok())
                    .map(|v| v.len());
                let uniq: Vec<usize> = todo.iter().copied().filter(|i| seen.insert(keys[*i].clone())).collect();
                match n {
                    Some(n) if n == todo.len() => todo,
                    Some(n) if n == uniq.len() => uniq,
                    _ => return abandon(),
                }
            }
            Item::Set(_) => todo,
        };
        if todo.is_empty() {
            return abandon();
        }
        let pi = self.polls.len();
        let item = match item {
            Item::Msgs(m) => Item::Msgs(todo.iter().map(|i| m[*i].clone()).collect()),
            s => s,
        };
        let keys: Vec<String> = todo.iter().map(|i| keys[*i].clone()).collect();
        for (i, k) in keys.iter().enumerate() {
            self.latest.insert(k.clone(), (pi, i));
        }
        self.polls.push(Poll {
            id,
            success: vec![0; item.len()],
            item,
            keys,
            expires_at,
            conf: self.v.conf,
            quorum: self.quorum(),
            participants: self.v.active.lock().unwrap().iter().cloned().collect(),
            ended: false,
        });
        self.publish(src, &r, Some(pi))
    }

    /// polls and noise of other contracts
    fn noise(&mut self, src: &mut Src) -> R {
        let r = match src.below(3) {
            0 | 1 => {
                let h = src.bytes(32);
                let id = match self.other.kind {
                    Kind::Sui => b58(&h),
                    _ => hx(&h),
                };
                let sa = hx(&src.bytes(self.other.kind.addr_len()));
                let m = json!({"cc_id": {"chain": self.other.chain, "id": format!("{id}:0")}, "source_address": sa,
                    "destination_chain": "avalanche", "destination_address": "x", "payload_hash": hex::encode([1; 32])});
                let msg = if self.focus & C34 != 0 || src.bool() {
                    json!({"verify_worker_set": {"message_id": format!("{id}:0"), "new_operators":
                        {"weights_by_addresses": [[hex::encode(src.bytes(20)), "1"]], "threshold": "1"}}})
                } else {
                    json!({"verify_messages": {"messages": [m]}})
                };
                src.note(|| format!("poll of the verifier of {}", self.other.chain));
                self.w.exec(&addr("anyone"), &self.other.addr.clone(), &msg, &[])
            }
            _ => {
                // any contract may emit an event of that name
                let ty = *src.pick(&["wasm-messages_poll_started", "wasm-worker_set_poll_started", "wasm-voted"]);
                let mut e = cosmwasm_std::Event::new(ty).add_attribute("_contract_addr", "imitation");
                if src.bool() {
                    e = e.add_attribute("poll_id", "\"1\"");
                }
                if src.bool() {
                    e = e.add_attribute("messages", "[{\"tx_id\":1}]").add_attribute("participants", "[\"worker0\"]");
                }
                src.note(|| format!("event of another contract {e:?}"));
                Ok(cw_multi_test::AppResponse { events: vec![e], data: None })
            }
        };
        match r {
            Ok(r) => self.publish(src, &r, None),
            Err(_) => abandon(),
        }
    }

    /// one worker handles the next event in its queue
    fn work(&mut self, src: &mut Src, wi: usize) -> R {
        if self.workers[wi].queue.is_empty() {
            return Ok(());
        }
        let (event, poll) = self.workers[wi].queue.remove(0);
        // what the worker believes the height of Axelar to be
        let seen = self.w.height().saturating_sub(if src.chance(1, 4) { src.below(3) } else { 0 });
        {
            let c = self.chain.lock().unwrap();
            let w = &self.workers[wi];
            let mut node = w.node.lock().unwrap();
            *node = Node { omits_unknown: node.omits_unknown, ..Default::default() };
            if src.chance(1, 4) {
                node.lag = src.below(30);
            }
            if src.chance(1, 5) && !c.txs.is_empty() {
                let hs: Vec<[u8; 32]> = c.txs.iter().map(|t| t.hash).collect();
                match src.below(4) {
                    0 => node.finality_fails = true,
                    1 => {
                        for h in &hs {
                            if src.chance(1, 3) {
                                node.receipts_fail.insert(*h);
                            }
                        }
                    }
                    2 => node.multi_fails = true,
                    _ => node.swap = Some((*src.pick(&hs), *src.pick(&hs))),
                }
            }
            let _ = w.height.send(seen);
            *w.sender.fails.lock().unwrap() = src.chance(1, 25);
        }
        let node = self.workers[wi].node.lock().unwrap().clone();
        let broken = *self.workers[wi].sender.fails.lock().unwrap();
        let name = self.workers[wi].name.clone();
        let results: Vec<Result<(), String>> = self.workers[wi].handlers.iter().map(|h| h(&event)).collect();
        let sent = self.workers[wi].sender.take();
        let both = C33 | C34;
        src.note(|| {
            format!(
                "{name} handles {}{} (sees Axelar at {seen}{}): {results:?}, sends {:?}",
                match &event {
                    events::Event::Abci { event_type, .. } => event_type.clone(),
                    e => format!("{e:?}"),
                },
                poll.map(|p| format!(" of poll {}", self.polls[p].id)).unwrap_or_default(),
                if node.faulty() || node.lag > 0 { format!(", node {node:?}") } else { String::new() },
                sent.iter().map(|m| String::from_utf8_lossy(&m.msg).to_string()).collect::<Vec<_>>()
            )
        });
        let Some(pi) = poll else {
            own!(self, both, results.iter().all(|r| r.is_ok()), "{name}: an unrelated event stops the worker: {results:?} for {event:?}");
            own!(self, both, sent.is_empty(), "{name}: a vote is sent for an unrelated event: {event:?}");
            return Ok(());
        };
        let p = self.polls[pi].clone();
        let bit = match p.item {
            Item::Msgs(_) => C33,
            Item::Set(_) => C34,
        };
        let relevant =
            self.workers[wi].right_chain && p.participants.contains(&name) && seen < p.expires_at;
        if !relevant {
            own!(self, bit, results.iter().all(|r| r.is_ok()), "{name}: {results:?} for a poll the worker has no part in");
            own!(self, bit, sent.is_empty(), "{name}: a vote is sent in a poll the worker has no part in, is expired or is about another chain");
            src.class("not relevant");
            return Ok(());
        }
        let expected: Vec<bool> = match &p.item {
            Item::Msgs(ms) => ms.iter().map(|m| self.confirmed_msg(&node, m, p.conf).is_some()).collect(),
            Item::Set(s) => vec![self.confirmed_set(&node, s, p.conf)],
        };
        if broken {
            own!(self, bit, sent.is_empty() && results.iter().any(|r| r.is_err()), "{name}: a vote that could not be sent is not reported");
            src.class("sending fails");
            return Ok(());
        }
        let failed = results.iter().any(|r| r.is_err());
        if failed {
            // the transaction of a worker set poll may be unknown to a Sui node, which answers with an error
            let unknown = self.v.kind == Kind::Sui && bit == C34;
            own!(self, bit, node.faulty() || (unknown && !expected[0]), "{name}: a poll stops the worker: {results:?}, poll {:?}", p.item);
            own!(self, bit, sent.is_empty(), "{name}: fails but sends a vote");
            src.class("node fails");
            return Ok(());
        }
        own!(self, bit, sent.len() == 1, "{name}: {} votes sent in a poll", sent.len());
        let m = &sent[0];
        own!(self, bit, m.sender.as_ref() as &str == name && m.contract.as_ref() as &str == self.v.addr.as_str(), "{name}: the vote is sent from {} to {}", m.sender, m.contract);
        own!(self, bit, m.funds.is_empty(), "{name}: the vote spends {:?}", m.funds);
        let j: Value = serde_json::from_slice(&m.msg).unwrap_or(Value::Null);
        own!(self, bit, j["vote"]["poll_id"] == json!(p.id), "{name}: the vote {j} is for another poll than {}", p.id);
        let votes: Vec<String> = serde_json::from_value(j["vote"]["votes"].clone()).unwrap_or_default();
        own!(self, bit, votes.len() == p.item.len(), "{name}: {} votes for {} questions", votes.len(), p.item.len());
        for (i, v) in votes.iter().enumerate() {
            let yes = v == "succeeded_on_chain";
            let what = match &p.item {
                Item::Msgs(m) => format!("{:?}", m[i]),
                Item::Set(s) => format!("{s:?}"),
            };
            own!(self, bit, !yes || expected[i], "{name}: confirms {what}, which is not final on the source chain in this form");
            if !node.faulty() {
                own!(self, bit, v == if expected[i] { "succeeded_on_chain" } else { "not_found" }, "{name}: votes {v} for {what}");
            }
            if yes {
                src.class("confirmed");
                if let Item::Msgs(m) = &p.item {
                    if let Some(k) = self.confirmed_msg(&node, &m[i], p.conf) {
                        let s = self.confirmed.entry(k).or_default();
                        s.insert(m[i].id.clone());
                        own!(self, C33, s.len() == 1, "one event is confirmed under different message ids {s:?}");
                    }
                }
            } else {
                src.class("not found");
            }
        }
        if expected.iter().any(|e| *e) && (expected.iter().any(|e| !*e) || expected.len() == 1) {
            src.nontrivial();
        }
        // the vote counts at the verifier
        let open = self.w.height() < p.expires_at && !p.ended;
        let r = self.w.exec(&addr(&name), &self.v.addr.clone(), &j, &[]);
        own!(self, bit, r.is_ok() || !open, "{name}: the vote is rejected: {:?}", r.err());
        if r.is_ok() {
            for (i, v) in votes.iter().enumerate() {
                if v == "succeeded_on_chain" {
                    self.polls[pi].success[i] += 1;
                }
            }
        }
        Ok(())
    }

    fn end(&mut self, src: &mut Src) -> R {
        let Some(pi) = (0..self.polls.len()).find(|i| !self.polls[*i].ended) else { return Ok(()) };
        if self.w.height() < self.polls[pi].expires_at {
            let d = self.polls[pi].expires_at - self.w.height();
            self.w.advance(d, 5 * d);
        }
        let r = self.w.exec(&addr("anyone"), &self.v.addr.clone(), &json!({"end_poll": {"poll_id": self.polls[pi].id}}), &[]);
        src.note(|| format!("poll {} ended at {}: {}", self.polls[pi].id, self.w.height(), r.is_ok()));
        if r.is_err() {
            return abandon();
        }
        self.polls[pi].ended = true;
        Ok(())
    }

    /// the statuses at the verifier follow from the votes of the workers
    fn statuses(&mut self) -> R {
        if !self.asked.is_empty() && self.focus & C33 != 0 {
            let ms: Vec<&Value> = self.asked.values().collect();
            let r: Result<Vec<(Value, bool)>, _> = self.w.query(&self.v.addr, &json!({"is_verified": {"messages": ms}}));
            let Ok(r) = r else { return abandon() };
            for (k, (_, b)) in self.asked.keys().zip(r) {
                own!(self, C33, b == self.verified(k), "{k} has verification status {b} against the votes of the workers");
            }
        }
        if self.focus & C34 != 0 {
            for (k, v) in &self.asked_sets {
                let r: Result<bool, _> = self.w.query(&self.v.addr, &json!({"is_worker_set_verified": {"new_operators": v}}));
                let Ok(b) = r else { return abandon() };
                own!(self, C34, b == self.verified(k), "worker set {k} has verification status {b} against the votes of the workers");
            }
        }
        Ok(())
    }
}

fn src_other(all: &[Vec<u8>], s: &[u8]) -> Vec<u8> {
    all.iter().find(|x| x.as_slice() != s).cloned().unwrap_or_else(|| s.to_vec())
}

fn history(src: &mut Src, focus: u8) -> R {
    let mut s = Sys::new(src, focus);
    s.mine(src);
    src.repeat(2, 14, 9, |src, _| {
        match src.weighted(&[2, 5, 1, 1, 2]) {
            0 => s.mine(src),
            1 => {
                let item = if focus & C34 != 0 {
                    Item::Set(s.set(src))
                } else {
                    let mut v: Vec<Msg> = vec![];
                    for _ in 0..src.size(4, 120) {
                        v.push(s.msg(src));
                    }
                    // a question that was asked before
                    if src.chance(1, 6) {
                        if let Some(Poll { item: Item::Msgs(m), .. }) = s.polls.first() {
                            v.push(m[0].clone());
                        }
                    }
                    Item::Msgs(v)
                };
                s.start(src, item)?;
            }
            2 => s.noise(src)?,
            3 => s.end(src)?,
            _ => {
                let n = src.below(3);
                s.w.advance(n, 5 * n);
            }
        }
        for wi in 0..s.workers.len() {
            while !s.workers[wi].queue.is_empty() && !src.chance(1, 8) {
                s.work(src, wi)?;
            }
        }
        s.statuses()
    })?;
    for wi in 0..s.workers.len() {
        while !s.workers[wi].queue.is_empty() {
            s.work(src, wi)?;
        }
    }
    s.statuses()
}

pub fn c33(src: &mut Src) -> R {
    history(src, C33)
}
pub fn c34(src: &mut Src) -> R {
    history(src, C34)
}
