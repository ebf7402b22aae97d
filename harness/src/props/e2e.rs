//! C30: the assembled system. Every contract is the real one; the model only knows which votes
//! were cast by whom, which gateways are registered and frozen, and from that which messages may
//! be stored at which gateway.
use crate::engine::*;
use crate::props::prover::{check_execute, dest_bytes, ops_json, pk_bytes, Key, Wset};

use crate::util::app::*;
use crate::util::gen::*;
use crate::util::{keys, wire};
use connection_router::state::Message;
use cosmwasm_std::{coin, Addr};
use cw_multi_test::AppResponse;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const WORKERS: &[&str] = &["worker0", "worker1", "worker2", "worker3", "worker4"];
const NAMES: [&str; 2] = ["ethereum", "sui"];
const OTHER: &str = "cosmoshub";
const SERVICE: &str = "validators";

struct Chain {
    name: &'static str,
    abi: bool,
    vv: Addr,
    agg: Addr,
    gws: Vec<Addr>,
    /// the registered gateway
    cur: usize,
    /// messages from the chain, messages to the chain
    frozen: (bool, bool),
    /// proves the messages stored at gws[0]
    prover: Addr,
    ratio: (u64, u64),
    expiry: u64,
    prove_ratio: (u64, u64),
    diff: usize,
    set: Option<Wset>,
    pending: Option<Wset>,
    polls: Vec<Poll>,
    latest: BTreeMap<String, (usize, usize)>,
    sessions: Vec<Sess>,
    chain_id: u64,
}
struct Poll {
    id: String,
    /// canonical messages, or none for a worker set
    msgs: Vec<String>,
    ops: Option<Value>,
    participants: BTreeSet<String>,
    quorum: u128,
    expires_at: u64,
    ended: bool,
    votes: BTreeMap<String, Vec<&'static str>>,
}
impl Poll {
    fn size(&self) -> usize {
        if self.ops.is_some() {
            1
        } else {
            self.msgs.len()
        }
    }
    fn succeeded(&self, i: usize) -> bool {
        self.votes.values().filter(|v| v[i] == OK).count() as u128 >= self.quorum
    }
}
#[derive(Clone)]
struct Sess {
    id: u64,
    ws: Wset,
    digest: String,
    signed: BTreeSet<String>,
    done: bool,
}
const OK: &str = "succeeded_on_chain";
const BAD: &str = "failed_on_chain";
const NONE: &str = "not_found";

#[derive(Default)]
struct Worker {
    bonded: bool,
    auth: bool,
    chains: BTreeSet<usize>,
    key: Option<Key>,
}

struct Sys {
    w: World,
    router: Addr,
    nexus: Addr,
    module: Addr,
    registry: Addr,
    ms: Addr,
    chains: Vec<Chain>,
    workers: BTreeMap<String, Worker>,
    next_key: usize,
    msgs: Vec<Message>,
    /// messages that really happened on the source chain
    truth: BTreeSet<String>,
    /// what may be stored: by gateway address, canonical message
    legit: BTreeMap<Addr, BTreeSet<String>>,
    nexus_legit: BTreeSet<String>,
    arrived: u64,
    refused: u64,
}

fn canon(m: &Message) -> String {
    msg_json(m).to_string()
}
fn ceil(n: usize, r: (u64, u64)) -> u128 {
    (n as u128 * r.0 as u128 + r.1 as u128 - 1) / r.1 as u128
}
fn ratio(src: &mut Src) -> (u64, u64) {
    *src.pick(&[(2, 3), (51, 100), (1, 1), (3, 4), (7, 10)])
}
/// what the nexus module sees of a message with a usual id
fn nexus_view(m: &Message) -> Value {
    let (tx, ix) = m.cc_id.id.as_str().split_once(':').unwrap_or(("", "0"));
    json!({
        "source_chain": String::from(m.cc_id.chain.clone()),
        "source_address": m.source_address.as_str(),
        "destination_chain": String::from(m.destination_chain.clone()),
        "destination_address": m.destination_address.as_str(),
        "payload_hash": m.payload_hash.to_vec(),
        "source_tx_id": hex::decode(tx.trim_start_matches("0x")).unwrap_or_default(),
        "source_tx_index": ix.parse::<u64>().unwrap_or(u64::MAX),
    })
}

impl Sys {
    fn new(src: &mut Src) -> Sys {
        let mut w = World::new();
        for x in WORKERS {
            w.mint(&addr(x), vec![coin(1 << 60, "uaxl")]);
        }
        let put = |w: &mut World, c, m: Value| w.instantiate(c, &m, "contract").unwrap_or_else(|e| panic!("{e}: {m}"));
        let (module, _) = w.mock();
        let registry = put(&mut w, w_registry(), json!({"governance_account": "governance"}));
        let rewards = put(
            &mut w,
            w_rewards(),
            json!({"governance_address": "governance", "rewards_denom": "uaxl",
                "params": {"epoch_duration": "10", "rewards_per_epoch": "1000", "participation_threshold": ["1", "2"]}}),
        );
        let ms = put(
            &mut w,
            w_multisig(),
            json!({"governance_address": "governance", "rewards_address": rewards, "grace_period": src.below(4)}),
        );
        // the router and the nexus gateway know each other: the first one gets the address the
        // second one will have
        let n: u64 = ms.as_str().trim_start_matches("contract").parse().expect("contract address");
        let router = put(
            &mut w,
            w_router(),
            json!({"admin_address": "admin", "governance_address": "governance", "nexus_gateway": format!("contract{}", n + 2)}),
        );
        let nexus = put(
            &mut w,
            Box::new(NexusGateway { module: module.clone() }),
            json!({"nexus": "nexus", "router": router}),
        );
        assert_eq!(nexus.as_str(), format!("contract{}", n + 2));
        let mut chains = vec![];
        for (i, name) in NAMES.iter().enumerate() {
            let abi = i == 0;
            let (r, expiry) = (ratio(src), 3 + src.below(8));
            let vv = put(
                &mut w,
                w_voting_verifier(),
                json!({"service_registry_address": registry, "service_name": SERVICE, "source_gateway_address": "0x1234",
                    "voting_threshold": [r.0.to_string(), r.1.to_string()], "block_expiry": expiry, "confirmation_height": 1,
                    "source_chain": name, "rewards_address": rewards}),
            );
            let agg = put(&mut w, w_aggregate_verifier(), json!({ "verifier_address": vv }));
            let gws: Vec<Addr> = (0..2)
                .map(|_| put(&mut w, w_gateway(), json!({"verifier_address": agg, "router_address": router})))
                .collect();
            let prove_ratio = ratio(src);
            let diff = src.weighted(&[4, 1, 1]);
            let chain_id = 1 + src.below(1000);
            let prover = put(
                &mut w,
                w_prover(),
                json!({"admin_address": "admin", "gateway_address": gws[0], "multisig_address": ms,
                    "service_registry_address": registry, "voting_verifier_address": vv,
                    "destination_chain_id": chain_id.to_string(), "signing_threshold": [prove_ratio.0.to_string(), prove_ratio.1.to_string()],
                    "service_name": SERVICE, "chain_name": name, "worker_set_diff_threshold": diff,
                    "encoder": if abi { "abi" } else { "bcs" }, "key_type": "ecdsa"}),
            );
            src.note(|| format!("chain {name}: voting {r:?} expiry {expiry}, proving {prove_ratio:?}, diff {diff}, gateways {gws:?}"));
            chains.push(Chain {
                name,
                abi,
                vv,
                agg,
                gws,
                cur: 0,
                frozen: (false, false),
                prover,
                ratio: r,
                expiry,
                prove_ratio,
                diff,
                set: None,
                pending: None,
                polls: vec![],
                latest: BTreeMap::new(),
                sessions: vec![],
                chain_id,
            });
        }
        let mut s = Sys {
            w,
            router,
            nexus,
            module,
            registry,
            ms,
            chains,
            workers: BTreeMap::new(),
            next_key: 0,
            msgs: vec![],
            truth: BTreeSet::new(),
            legit: BTreeMap::new(),
            nexus_legit: BTreeSet::new(),
            arrived: 0,
            refused: 0,
        };
        for c in 0..2 {
            let (name, gw, prover) = (s.chains[c].name, s.chains[c].gws[0].clone(), s.chains[c].prover.clone());
            let m = json!({"register_chain": {"chain": name, "gateway_address": gw}});
            s.call("governance", &s.router.clone(), &m).expect("chain registered");
            let m = json!({"authorize_caller": {"contract_address": prover}});
            s.call("governance", &s.ms.clone(), &m).expect("prover authorized");
        }
        let m = json!({"register_service": {"service_name": SERVICE, "service_contract": "nowhere", "min_num_workers": 0,
            "max_num_workers": 100, "min_worker_bond": "100", "bond_denom": "uaxl", "unbonding_period_days": 1, "description": "x"}});
        s.call("governance", &s.registry.clone(), &m).expect("service registered");
        for x in WORKERS {
            s.workers.insert(x.to_string(), Worker::default());
        }
        s
    }
    fn call(&mut self, sender: &str, to: &Addr, m: &Value) -> Result<AppResponse, String> {
        self.w.exec(&addr(sender), to, m, &[])
    }
    fn active(&self, c: usize) -> Vec<String> {
        self.workers
            .iter()
            .filter(|(_, w)| w.bonded && w.auth && w.chains.contains(&c))
            .map(|(a, _)| a.clone())
            .collect()
    }
    fn verified(&self, c: usize, k: &str) -> bool {
        let ch = &self.chains[c];
        ch.latest.get(k).map(|(p, i)| ch.polls[*p].succeeded(*i)).unwrap_or(false)
    }
    fn in_progress(&self, c: usize, k: &str) -> bool {
        let ch = &self.chains[c];
        ch.latest.get(k).map(|(p, i)| !ch.polls[*p].ended && !ch.polls[*p].succeeded(*i)).unwrap_or(false)
    }

    // ---- the set of workers
    fn worker(&mut self, src: &mut Src, who: &str, what: usize) -> R {
        let reg = self.registry.clone();
        let all: Vec<usize> = (0..2).collect();
        match what {
            0 => {
                let auth = !self.workers[who].auth;
                let op = if auth { "authorize_workers" } else { "unauthorize_workers" };
                let r = self.call("governance", &reg, &json!({op: {"workers": [who], "service_name": SERVICE}}));
                src.note(|| format!("{op} {who} -> {}", r.is_ok()));
                if r.is_err() {
                    return abandon();
                }
                self.workers.get_mut(who).unwrap().auth = auth;
            }
            1 => {
                let r = if self.workers[who].bonded {
                    self.call(who, &reg, &json!({"unbond_worker": {"service_name": SERVICE}}))
                } else {
                    self.w.exec(&addr(who), &reg, &json!({"bond_worker": {"service_name": SERVICE}}), &[coin(100, "uaxl")])
                };
                src.note(|| format!("{who} bonds or unbonds -> {}", r.is_ok()));
                if r.is_err() {
                    return abandon();
                }
                let w = self.workers.get_mut(who).unwrap();
                w.bonded = !w.bonded;
            }
            2 => {
                let l = if self.workers[who].chains.is_empty() && src.chance(2, 3) { all } else { vec![src.idx(2)] };
                let names: Vec<&str> = l.iter().map(|i| NAMES[*i]).collect();
                let r = self.call(who, &reg, &json!({"declare_chain_support": {"service_name": SERVICE, "chains": names}}));
                src.note(|| format!("{who} supports {names:?} -> {}", r.is_ok()));
                if r.is_ok() {
                    self.workers.get_mut(who).unwrap().chains.extend(l);
                }
            }
            _ => {
                if self.next_key >= keys::N {
                    return Ok(());
                }
                let k = (self.next_key, src.bool());
                self.next_key += 1;
                let m = json!({"register_public_key": {"public_key": {"ecdsa": hexs(&pk_bytes(&k))}}});
                let ms = self.ms.clone();
                let r = self.call(who, &ms, &m);
                src.note(|| format!("{who} registers key {k:?} -> {}", r.is_ok()));
                if r.is_err() {
                    return abandon();
                }
                self.workers.get_mut(who).unwrap().key = Some(k);
            }
        }
        Ok(())
    }

    // ---- messages
    fn new_message(&mut self, src: &mut Src, c: usize, dest: &str) -> Message {
        let mut m = message(src, NAMES[c], dest);
        // unique
        let id = format!("0x{}{:04x}:{}", hexs(&src.bytes(30)), self.msgs.len(), src.below(3));
        m.cc_id.id = id.parse().unwrap();
        m.destination_address = self.dest_address(src, dest);
        m
    }
    fn dest_address(&self, src: &mut Src, dest: &str) -> connection_router::state::Address {
        let n = if dest == NAMES[1] { 32 } else { 20 };
        format!("0x{}", hexs(&src.bytes(n))).parse().unwrap()
    }
    fn add_message(&mut self, src: &mut Src) {
        let c = src.idx(2);
        let dest = *src.pick(&[NAMES[1 - c], NAMES[1 - c], NAMES[1 - c], NAMES[c], OTHER]);
        let mut m = self.new_message(src, c, dest);
        if src.chance(1, 4) && !self.msgs.is_empty() {
            // another one of the transaction that emitted an earlier message, with the same content or a similar one
            let x = src.idx(self.msgs.len());
            let x = self.msgs[x].clone();
            let id: String = x.cc_id.id.clone().into();
            if let Some((tx, _)) = id.rsplit_once(':') {
                m = x.clone();
                if src.chance(1, 3) {
                    m = near(src, &m);
                    m.destination_chain = x.destination_chain.clone();
                    m.destination_address = x.destination_address.clone();
                }
                m.cc_id.chain = x.cc_id.chain.clone();
                m.cc_id.id = format!("{tx}:{}", src.below(4)).parse().unwrap();
            }
        }
        if self.msgs.iter().any(|x| x.cc_id == m.cc_id) {
            return;
        }
        if src.chance(3, 4) {
            self.truth.insert(canon(&m));
        }
        src.note(|| format!("message {} real {}", short(&m), self.truth.contains(&canon(&m))));
        // a forged message with the same id
        if src.chance(1, 3) {
            let mut f = m.clone();
            match src.below(4) {
                0 => f = near(src, &f),
                1 => f.destination_address = self.dest_address(src, dest),
                2 => f.source_address = "0xbad".parse().unwrap(),
                _ => {
                    let d = *src.pick(&[NAMES[0], NAMES[1], OTHER]);
                    f.destination_chain = chain(d);
                    f.destination_address = self.dest_address(src, d);
                }
            }
            if f != m {
                src.note(|| format!("forged variant {}", short(&f)));
                self.msgs.push(f);
            }
        }
        self.msgs.push(m);
    }
    /// some messages; of one chain with distinct ids, most of the time
    fn some(&self, src: &mut Src, c: usize, odd: bool) -> Vec<Message> {
        let mut l: Vec<Message> = self.msgs.iter().filter(|m| m.cc_id.chain.to_string() == NAMES[c]).cloned().collect();
        if odd {
            l = self.msgs.clone();
        }
        src.shuffle(&mut l);
        let mut out: Vec<Message> = vec![];
        let n = 1 + src.idx(3);
        for m in l {
            if out.len() < n && out.iter().all(|x| x.cc_id != m.cc_id) {
                out.push(m);
            }
        }
        out
    }

    fn verify(&mut self, src: &mut Src, c: usize, l: &[Message]) -> R {
        if l.is_empty() {
            return Ok(());
        }
        let way = src.below(4);
        let list: Vec<Value> = l.iter().map(msg_json).collect();
        let (to, m) = match way {
            0 => (self.chains[c].vv.clone(), json!({"verify_messages": {"messages": list}})),
            1 => (self.chains[c].agg.clone(), json!({"verify_messages": {"messages": list}})),
            2 => (self.chains[c].gws[0].clone(), json!({ "verify_messages": list })),
            _ => (self.chains[c].gws[1].clone(), json!({ "verify_messages": list })),
        };
        let r = self.call("relayer", &to, &m);
        src.note(|| format!("verify at {} via {to}: [{}] -> {:?}", NAMES[c], l.iter().map(short).collect::<Vec<_>>().join("; "), r.as_ref().map(|_| ())));
        let Ok(r) = r else { return Ok(()) };
        let todo: Vec<String> = l
            .iter()
            .map(canon)
            .filter(|k| !self.verified(c, k) && !self.in_progress(c, k))
            .collect();
        let vv = self.chains[c].vv.clone();
        let evs = events(&r, &vv, "messages_poll_started");
        if evs.is_empty() {
            return Ok(());
        }
        let n: Option<Vec<Value>> = attr(evs[0], "messages").and_then(|x| serde_json::from_str(x).ok());
        let (Some(n), Some(id)) = (n, poll_id(evs[0])) else { return abandon() };
        if n.len() != todo.len() || l.iter().any(|m| m.cc_id.chain.to_string() != NAMES[c]) {
            return abandon();
        }
        let p = self.poll(c, id, todo.clone(), None);
        let i = self.chains[c].polls.len();
        self.chains[c].polls.push(p);
        for (pos, k) in todo.into_iter().enumerate() {
            self.chains[c].latest.insert(k, (i, pos));
        }
        src.class("poll");
        Ok(())
    }
    fn poll(&self, c: usize, id: String, msgs: Vec<String>, ops: Option<Value>) -> Poll {
        let a = self.active(c);
        Poll {
            id,
            msgs,
            ops,
            quorum: ceil(a.len(), self.chains[c].ratio).max(1),
            participants: a.into_iter().collect(),
            expires_at: self.w.height() + self.chains[c].expiry,
            ended: false,
            votes: BTreeMap::new(),
        }
    }
    fn vote(&mut self, src: &mut Src, c: usize, p: usize, who: &str, honest: bool) -> R {
        let poll = &self.chains[c].polls[p];
        let votes: Vec<&'static str> = match (&poll.ops, honest) {
            (Some(_), true) => vec![OK],
            (None, true) => poll.msgs.iter().map(|k| if self.truth.contains(k) { OK } else { NONE }).collect(),
            // colluding workers confirm what they like
            _ => {
                let all = src.bool();
                (0..poll.size()).map(|_| if all { OK } else { *src.pick(&[OK, BAD, NONE]) }).collect()
            }
        };
        let m = json!({"vote": {"poll_id": poll.id, "votes": votes}});
        let counts = poll.participants.contains(who)
            && !poll.votes.contains_key(who)
            && !poll.ended
            && self.w.height() < poll.expires_at;
        let vv = self.chains[c].vv.clone();
        let r = self.call(who, &vv, &m);
        let id = self.chains[c].polls[p].id.clone();
        src.note(|| format!("{who} votes in poll {id} of {} {votes:?} -> {} (counts: {counts})", NAMES[c], r.is_ok()));
        if counts {
            if r.is_err() {
                return abandon();
            }
            self.chains[c].polls[p].votes.insert(who.into(), votes);
            src.class("vote");
        }
        Ok(())
    }
    fn vote_all(&mut self, src: &mut Src, c: usize, p: usize, honest: bool) -> R {
        let mut l: Vec<String> = self.chains[c].polls[p].participants.iter().cloned().collect();
        src.shuffle(&mut l);
        for x in l {
            if !self.chains[c].polls[p].votes.contains_key(&x) {
                self.vote(src, c, p, &x, honest)?;
            }
        }
        Ok(())
    }
    fn end_poll(&mut self, src: &mut Src, c: usize, p: usize) -> R {
        let id = self.chains[c].polls[p].id.clone();
        let vv = self.chains[c].vv.clone();
        let r = self.call("anyone", &vv, &json!({"end_poll": {"poll_id": id}}));
        let poll = &self.chains[c].polls[p];
        let may = !poll.ended && self.w.height() >= poll.expires_at;
        src.note(|| format!("end poll {id} of {} -> {} (due: {may})", NAMES[c], r.is_ok()));
        if r.is_ok() != may {
            return abandon();
        }
        if may {
            self.chains[c].polls[p].ended = true;
        }
        Ok(())
    }

    /// model of a call of the router by a gateway: where the messages go, or why not
    fn routes(&self, from: Option<usize>, gw: Option<usize>, l: &[&Message]) -> Result<Vec<(Option<usize>, String)>, &'static str> {
        if let (Some(c), Some(g)) = (from, gw) {
            if self.chains[c].cur != g {
                return Err("the gateway is not the registered one");
            }
            if self.chains[c].frozen.0 {
                return Err("the source chain is frozen");
            }
            if l.iter().any(|m| m.cc_id.chain.to_string() != NAMES[c]) {
                return Err("a message is of another chain");
            }
        }
        let mut out = vec![];
        for m in l {
            let d = m.destination_chain.to_string();
            match NAMES.iter().position(|n| *n == d) {
                Some(i) if self.chains[i].frozen.1 => return Err("a destination chain is frozen"),
                Some(i) => out.push((Some(i), canon(m))),
                None if from.is_none() => return Err("a destination chain is unknown"),
                None => out.push((None, nexus_view(m).to_string())),
            }
        }
        Ok(out)
    }
    fn deliver(&mut self, to: Vec<(Option<usize>, String)>) {
        for (d, k) in to {
            match d {
                Some(i) => {
                    let g = self.chains[i].gws[self.chains[i].cur].clone();
                    self.legit.entry(g).or_default().insert(k);
                    self.arrived += 1;
                }
                None => {
                    self.nexus_legit.insert(k);
                }
            }
        }
    }
    fn route(&mut self, src: &mut Src, c: usize, g: usize, l: &[Message], sender: &str) -> R {
        let good: Vec<&Message> = l
            .iter()
            .filter(|m| m.cc_id.chain.to_string() == NAMES[c] && self.verified(c, &canon(m)))
            .collect();
        let exp = if good.is_empty() { Ok(vec![]) } else { self.routes(Some(c), Some(g), &good) };
        let unfrozen = self.chains.iter().all(|c| c.frozen == (false, false));
        let gw = self.chains[c].gws[g].clone();
        let m = json!({ "route_messages": l.iter().map(msg_json).collect::<Vec<_>>() });
        let n = good.len();
        let r = self.call(sender, &gw, &m);
        src.note(|| {
            format!(
                "{sender} routes at {gw} [{}]: {n} verified -> {} (expected {:?})",
                l.iter().map(short).collect::<Vec<_>>().join("; "),
                r.is_ok(),
                exp.as_ref().map(|x| x.len())
            )
        });
        match exp {
            Ok(to) => {
                ensure!(r.is_ok() || !unfrozen, "routing verified messages through unfrozen, registered gateways failed: {r:?}");
                if r.is_err() {
                    return abandon();
                }
                if !to.is_empty() {
                    src.class("routed");
                }
                self.deliver(to);
            }
            Err(why) => {
                self.refused += 1;
                src.class(match why {
                    "the gateway is not the registered one" => "old_gateway",
                    "the source chain is frozen" => "source_frozen",
                    "a destination chain is frozen" => "destination_frozen",
                    _ => "other_refusal",
                });
            }
        }
        Ok(())
    }
    fn from_nexus(&mut self, src: &mut Src, sender: &str) -> R {
        let n = 1 + src.idx(2);
        let mut l = vec![];
        for _ in 0..n {
            let d = *src.pick(&[NAMES[0], NAMES[1], NAMES[1], "unknown"]);
            let mut m = self.new_message(src, 0, d);
            m.cc_id.chain = chain(*src.pick(&[OTHER, "osmosis", NAMES[0]]));
            // the nexus gateway builds the id from the transaction, without the prefix
            let id = m.cc_id.id.as_str().trim_start_matches("0x").to_string();
            m.cc_id.id = id.parse().unwrap();
            self.msgs.push(m.clone());
            l.push(m);
        }
        let m = json!({"route_messages_from_nexus": l.iter().map(nexus_view).collect::<Vec<_>>()});
        let nx = self.nexus.clone();
        let r = self.call(sender, &nx, &m);
        src.note(|| format!("{sender} submits from nexus [{}] -> {}", l.iter().map(short).collect::<Vec<_>>().join("; "), r.is_ok()));
        let exp = self.routes(None, None, &l.iter().collect::<Vec<_>>());
        if let (true, Ok(to)) = (sender == "nexus", exp) {
            if r.is_err() {
                return abandon();
            }
            self.deliver(to);
            src.class("from_nexus");
        }
        Ok(())
    }

    fn freeze(&mut self, src: &mut Src, c: usize) -> R {
        let d = src.below(3);
        let f = &self.chains[c].frozen;
        let on = !(if d == 0 { f.0 } else { f.1 });
        let op = if on { "freeze_chain" } else { "unfreeze_chain" };
        let dir = ["Incoming", "Outgoing", "Bidirectional"][d as usize];
        let r = self.set_frozen(c, op, dir);
        src.note(|| format!("{op} {} {dir} -> {}", NAMES[c], r.is_ok()));
        r?;
        let f = &mut self.chains[c].frozen;
        if d != 1 {
            f.0 = on;
        }
        if d != 0 {
            f.1 = on;
        }
        Ok(())
    }
    fn set_frozen(&mut self, c: usize, op: &str, dir: &str) -> R {
        let router = self.router.clone();
        let m = json!({op: {"chain": NAMES[c], "direction": dir}});
        let r = self.call("admin", &router, &m);
        if r.is_err() {
            return abandon();
        }
        Ok(())
    }
    fn upgrade(&mut self, src: &mut Src, c: usize) -> R {
        let to = 1 - self.chains[c].cur;
        let gw = self.chains[c].gws[to].clone();
        let router = self.router.clone();
        let r = self.call("governance", &router, &json!({"upgrade_gateway": {"chain": NAMES[c], "contract_address": gw}}));
        src.note(|| format!("gateway of {} is now {gw} -> {}", NAMES[c], r.is_ok()));
        if r.is_err() {
            return abandon();
        }
        self.chains[c].cur = to;
        Ok(())
    }

    // ---- proofs
    /// what the prover would take from the registry
    fn registry_set(&self, c: usize) -> Option<Wset> {
        let a = self.active(c);
        if a.is_empty() {
            return None;
        }
        let mut members = BTreeMap::new();
        for w in &a {
            members.insert(w.clone(), self.workers[w].key?);
        }
        Some(Wset {
            threshold: ceil(a.len(), self.chains[c].prove_ratio),
            members,
        })
    }
    /// a rotation started with the call
    fn session(&mut self, src: &mut Src, c: usize, r: &AppResponse, asked: &[Message]) -> R<Option<usize>> {
        let ms = self.ms.clone();
        let evs = events(r, &ms, "signing_started");
        let (Some(e), Some(set)) = (evs.first(), self.chains[c].set.clone()) else { return abandon() };
        let (Some(id), Some(digest)) = (attr(e, "session_id").and_then(|x| x.parse().ok()), attr(e, "msg")) else {
            return abandon();
        };
        let digest = digest.to_string();
        let p = self.proof(c, id)?;
        let mut transfer = None;
        let mut approved = vec![];
        for x in p["data"]["commands"].as_array().cloned().unwrap_or_default() {
            let Ok(params) = hex::decode(x["params"].as_str().unwrap_or("?")) else { return abandon() };
            match x["ty"].as_str() {
                Some("transfer_operatorship") => match wire::operators(self.chains[c].abi, &params) {
                    Ok(o) => transfer = Some(o),
                    Err(_) => return abandon(),
                },
                Some("approve_contract_call") => {
                    let Ok(a) = wire::approve(self.chains[c].abi, &params) else {
                        return fail(format!("an approval for {} cannot be decoded", NAMES[c]));
                    };
                    let cmd = x["id"].as_str().unwrap_or("").to_string();
                    self.check_approval(c, &a, &cmd)?;
                    approved.push(cmd);
                }
                _ => return abandon(),
            }
        }
        for m in asked {
            let cmd = hexs(&keys::keccak(format!("{}:{}", m.cc_id.chain, *m.cc_id.id).as_bytes()));
            ensure!(approved.contains(&cmd), "the proof of {} does not contain it", short(m));
        }
        if transfer.is_some() {
            // which operators: C18 and C19
            let (Some(new), Some(t)) = (self.registry_set(c), transfer) else { return abandon() };
            if new.ops(self.chains[c].abi) != t {
                return abandon();
            }
            self.chains[c].pending = Some(new);
            src.class("rotation");
        }
        self.chains[c].sessions.push(Sess {
            id,
            ws: set,
            digest,
            signed: BTreeSet::new(),
            done: false,
        });
        Ok(Some(self.chains[c].sessions.len() - 1))
    }
    fn check_approval(&self, c: usize, a: &wire::Approve, cmd: &str) -> R {
        let ch = &self.chains[c];
        let gw = &ch.gws[0];
        let found = self.legit.get(gw).map(|s| s.iter().any(|k| {
            let m = self.by_canon(k);
            a.chain == m.cc_id.chain.to_string()
                && a.source == m.source_address.as_str()
                && Some(&a.dest) == dest_bytes(ch.abi, m.destination_address.as_str()).as_ref()
                && a.hash == m.payload_hash
                && m.destination_chain.to_string() == ch.name
                && cmd == hexs(&keys::keccak(format!("{}:{}", m.cc_id.chain, *m.cc_id.id).as_bytes()))
        }));
        ensure!(found == Some(true), "a proof for {} approves {a:?}, command {cmd}, which was never verified and routed there", ch.name);
        Ok(())
    }
    fn by_canon(&self, k: &str) -> &Message {
        self.msgs.iter().find(|m| canon(m) == *k).expect("known message")
    }
    fn proof(&self, c: usize, id: u64) -> R<Value> {
        match self.w.query(&self.chains[c].prover, &json!({"get_proof": {"multisig_session_id": id.to_string()}})) {
            Ok(v) => Ok(v),
            Err(e) => fail(format!("proof {id} of {} cannot be queried: {e}", NAMES[c])),
        }
    }
    fn construct(&mut self, src: &mut Src, c: usize, l: &[Message]) -> R<Option<usize>> {
        let ids: Vec<Value> = l.iter().map(|m| msg_json(m)["cc_id"].clone()).collect();
        let p = self.chains[c].prover.clone();
        let r = self.call("relayer", &p, &json!({"construct_proof": {"message_ids": ids}}));
        src.note(|| format!("construct proof at {} of {ids:?} -> {:?}", NAMES[c], r.as_ref().map(|_| ())));
        match r {
            Ok(r) => {
                src.class("construct");
                self.session(src, c, &r, l)
            }
            Err(_) => Ok(None),
        }
    }
    fn update(&mut self, src: &mut Src, c: usize) -> R {
        let p = self.chains[c].prover.clone();
        let r = self.call("relayer", &p, &json!("update_worker_set"));
        src.note(|| format!("update worker set of {} -> {:?}", NAMES[c], r.as_ref().map(|_| ())));
        let Ok(r) = r else { return Ok(()) };
        if self.chains[c].set.is_none() {
            self.chains[c].set = self.registry_set(c);
            if self.chains[c].set.is_none() {
                return abandon();
            }
            return Ok(());
        }
        self.session(src, c, &r, &[]).map(|_| ())
    }
    fn verify_set(&mut self, src: &mut Src, c: usize) -> R<Option<usize>> {
        let Some(p) = self.chains[c].pending.clone() else { return Ok(None) };
        let o = ops_json(&p.ops(self.chains[c].abi));
        let vv = self.chains[c].vv.clone();
        let m = json!({"verify_worker_set": {"message_id": format!("0x{}:0", hexs(&src.bytes(32))), "new_operators": o}});
        let r = self.call("relayer", &vv, &m);
        src.note(|| format!("verify worker set of {} -> {}", NAMES[c], r.is_ok()));
        let Ok(r) = r else { return Ok(None) };
        let Some(id) = events(&r, &vv, "worker_set_poll_started").first().and_then(|e| poll_id(e)) else { return abandon() };
        let p = self.poll(c, id, vec![], Some(o));
        self.chains[c].polls.push(p);
        Ok(Some(self.chains[c].polls.len() - 1))
    }
    fn confirm(&mut self, src: &mut Src, c: usize) -> R {
        let p = self.chains[c].prover.clone();
        let r = self.call("relayer", &p, &json!("confirm_worker_set"));
        src.note(|| format!("confirm worker set of {} -> {}", NAMES[c], r.is_ok()));
        if r.is_ok() {
            let Some(n) = self.chains[c].pending.take() else { return abandon() };
            // only the latest poll about the operators counts: C19
            let o = ops_json(&n.ops(self.chains[c].abi));
            let last = self.chains[c].polls.iter().rev().find(|p| p.ops.as_ref() == Some(&o));
            ensure!(
                last.map(|p| p.succeeded(0)).unwrap_or(false),
                "the worker set of {} changed to {n:?} although no quorum confirmed it",
                NAMES[c]
            );
            self.chains[c].set = Some(n);
            src.class("confirmed");
        }
        Ok(())
    }
    fn sign(&mut self, src: &mut Src, c: usize, i: usize, who: &str, honest: bool) -> R {
        let s = self.chains[c].sessions[i].clone();
        let hash = hex::decode(&s.digest).unwrap_or_default();
        let key = s.ws.members.get(who).copied();
        let sig = match (key, honest) {
            (Some(k), true) => keys::sign(k.0, &hash),
            (Some(k), false) => match src.below(3) {
                0 => keys::sign(k.0, &keys::keccak(&hash)),
                1 => keys::sign((k.0 + 1) % keys::N, &hash),
                _ => src.bytes(64),
            },
            (None, _) => keys::sign(src.idx(keys::N), &hash),
        };
        let ms = self.ms.clone();
        let m = json!({"submit_signature": {"session_id": s.id.to_string(), "signature": hexs(&sig)}});
        let r = self.call(who, &ms, &m);
        src.note(|| format!("{who} signs session {} of {} (honest: {honest}) -> {}", s.id, NAMES[c], r.is_ok()));
        if let (Some(k), true) = (key, r.is_ok()) {
            if keys::verify(&pk_bytes(&k), &hash, &sig) {
                self.chains[c].sessions[i].signed.insert(who.into());
            }
        }
        let s = &mut self.chains[c].sessions[i];
        s.done |= s.signed.len() as u128 >= s.ws.threshold;
        self.check_session(src, c, i)
    }
    /// a completed proof has signatures of a quorum over approvals of legitimate messages only
    fn check_session(&mut self, src: &mut Src, c: usize, i: usize) -> R {
        let s = self.chains[c].sessions[i].clone();
        let p = self.proof(c, s.id)?;
        let Some(x) = p["status"]["completed"]["execute_data"].as_str() else {
            ensure!(!s.done, "a quorum signed proof {} of {}, which is {}", s.id, NAMES[c], p["status"]);
            return Ok(());
        };
        ensure!(s.done, "proof {} of {} is complete with signatures of {:?} only", s.id, NAMES[c], s.signed);
        let raw = hex::decode(x).unwrap_or_default();
        let abi = self.chains[c].abi;
        if let Err(e) = check_execute(abi, &raw, &p["data"], &s.digest, &s.ws.ops(abi)) {
            return fail(format!("proof {} of {}: {e}", s.id, NAMES[c]));
        }
        let data = wire::execute(abi, &raw).and_then(|(d, _)| wire::data(abi, &d)).expect("decoded before");
        ensure_eq!(data.chain_id, self.chains[c].chain_id.to_string(), "chain id of proof {}", s.id);
        for cmd in data.commands {
            if cmd.ty == "approveContractCall" {
                let Ok(a) = wire::approve(abi, &cmd.params) else { return abandon() };
                self.check_approval(c, &a, &hexs(&cmd.id))?;
            }
        }
        src.class("completed_proof");
        Ok(())
    }

    /// calls nobody but the rightful party may make
    fn attack(&mut self, src: &mut Src) -> R {
        let who = *src.pick(&["attacker", "worker0", "relayer"]);
        let c = src.idx(2);
        let odd = src.chance(1, 3);
        let l = self.some(src, c, odd);
        let list: Vec<Value> = l.iter().map(msg_json).collect();
        let ch = &self.chains[c];
        let (privileged, to, m): (bool, Addr, Value) = match src.below(15) {
            0 => (true, self.router.clone(), json!({ "route_messages": list })),
            1 => (true, self.router.clone(), json!({"upgrade_gateway": {"chain": NAMES[c], "contract_address": who}})),
            2 => (true, self.router.clone(), json!({"register_chain": {"chain": "mine", "gateway_address": who}})),
            3 => (true, self.router.clone(), json!({"freeze_chain": {"chain": NAMES[c], "direction": "Bidirectional"}})),
            4 => (true, self.router.clone(), json!({"unfreeze_chain": {"chain": NAMES[c], "direction": "Bidirectional"}})),
            5 => (true, self.nexus.clone(), json!({ "route_messages": list })),
            6 => (true, self.ms.clone(), json!({"authorize_caller": {"contract_address": who}})),
            7 => (true, self.ms.clone(), json!({"unauthorize_caller": {"contract_address": ch.prover}})),
            8 => {
                let ws: Result<multisig::worker_set::WorkerSet, _> = self.w.query(&ch.prover, &json!("get_worker_set"));
                let Ok(ws) = ws else { return Ok(()) };
                let m = json!({"start_signing_session": {"worker_set_id": ws.id(), "msg": hexs(&src.bytes32()), "chain_name": NAMES[c]}});
                (true, self.ms.clone(), m)
            }
            9 => (true, self.registry.clone(), json!({"authorize_workers": {"workers": [who], "service_name": SERVICE}})),
            10 => (true, self.registry.clone(), json!({"unauthorize_workers": {"workers": WORKERS, "service_name": SERVICE}})),
            11 => {
                let Some(p) = (!ch.polls.is_empty()).then(|| src.idx(ch.polls.len())) else { return Ok(()) };
                return self.vote(src, c, p, "attacker", false);
            }
            12 => return self.from_nexus(src, who),
            13 => {
                // routing at both gateways of a chain that is not the source
                let g = src.idx(2);
                (false, ch.gws[g].clone(), json!({ "route_messages": list }))
            }
            _ => {
                let Some(i) = (!ch.sessions.is_empty()).then(|| src.idx(ch.sessions.len())) else { return Ok(()) };
                return self.sign(src, c, i, who, false);
            }
        };
        if !privileged {
            let g = self.chains[c].gws.iter().position(|g| *g == to).unwrap();
            return self.route(src, c, g, &l, who);
        }
        let r = self.call(who, &to, &m);
        src.note(|| format!("{who} calls {to} with {m} -> {:?}", r.as_ref().map(|_| ())));
        ensure!(r.is_err(), "{who} may call {to} with {m}");
        src.class("attack");
        Ok(())
    }

    /// everything stored at the gateways and sent to nexus is legitimate, and everything
    /// legitimate is there
    fn check(&mut self) -> R {
        let empty = BTreeSet::new();
        for ch in &self.chains {
            for g in &ch.gws {
                let ok = self.legit.get(g).unwrap_or(&empty);
                for m in &self.msgs {
                    let id = msg_json(m)["cc_id"].clone();
                    let r: Result<Vec<Value>, _> = self.w.query(g, &json!({"get_messages": {"message_ids": [id]}}));
                    let there = ok.contains(&canon(m));
                    match r {
                        Ok(v) => {
                            ensure!(
                                v.len() == 1 && v[0]["cc_id"] == id && ok.contains(&v[0].to_string()),
                                "gateway {g} of {} has {v:?} under id {id}, which never got there verified through the router",
                                ch.name
                            );
                        }
                        Err(_) => ensure!(!there, "message {} was verified and routed but is not at gateway {g} of {}", short(m), ch.name),
                    }
                }
            }
        }
        let log = self.w.mock_log(&self.module);
        let mut got = BTreeSet::new();
        for x in log {
            let j = x.json();
            ensure!(self.nexus_legit.contains(&j.to_string()), "nexus got {j}, which was never verified");
            got.insert(j.to_string());
        }
        // a second message with the same id is not passed on
        let ids = |s: &BTreeSet<String>| -> BTreeSet<String> {
            s.iter()
                .map(|x| {
                    let v: Value = serde_json::from_str(x).unwrap_or_default();
                    format!("{} {} {}", v["source_chain"], v["source_tx_id"], v["source_tx_index"])
                })
                .collect()
        };
        ensure_eq!(ids(&got), ids(&self.nexus_legit), "messages that reached nexus");
        Ok(())
    }

    /// with nothing frozen and everybody honest a new message gets through
    fn flush(&mut self, src: &mut Src) -> R {
        for c in 0..2 {
            self.set_frozen(c, "unfreeze_chain", "Bidirectional")?;
            self.chains[c].frozen = (false, false);
            if self.chains[c].cur != 0 {
                self.upgrade(src, c)?;
            }
        }
        let c = src.idx(2);
        let d = if src.chance(1, 5) { c } else { 1 - c };
        for x in 0..2 {
            if self.active(x).is_empty() {
                return Ok(());
            }
        }
        let dest = NAMES[d];
        let m = self.new_message(src, c, dest);
        self.truth.insert(canon(&m));
        self.msgs.push(m.clone());
        let l = vec![m.clone()];
        self.verify(src, c, &l)?;
        let p = self.chains[c].latest.get(&canon(&m)).map(|x| x.0);
        let Some(p) = p else { return fail(format!("no poll was started for {}", short(&m))) };
        self.vote_all(src, c, p, true)?;
        ensure!(self.verified(c, &canon(&m)), "all workers voted for {}", short(&m));
        self.route(src, c, 0, &l, "relayer")?;
        self.check()?;
        src.class("flush_routed");
        if self.registry_set(d).is_none() {
            return Ok(());
        }
        if self.chains[d].set.is_none() {
            self.update(src, d)?;
            ensure!(self.chains[d].set.is_some(), "the first worker set of {dest} cannot be taken");
        }
        let set = self.chains[d].set.clone().unwrap();
        let new = self.registry_set(d).unwrap();
        let blocked = new.diff(&set) > self.chains[d].diff && self.chains[d].pending.as_ref().map(|p| *p != new).unwrap_or(false);
        let s = self.construct(src, d, &l)?;
        let Some(i) = s else {
            ensure!(blocked, "a proof of {} cannot be constructed", short(&m));
            src.class("flush_blocked_by_rotation");
            return Ok(());
        };
        let mut who: Vec<String> = set.members.keys().cloned().collect();
        src.shuffle(&mut who);
        for x in who {
            if !self.chains[d].sessions[i].done {
                self.sign(src, d, i, &x, true)?;
            }
        }
        ensure!(self.chains[d].sessions[i].done, "all operators signed the proof of {}", short(&m));
        src.class("flush_proved");
        if self.chains[d].pending.is_some() {
            if let Some(p) = self.verify_set(src, d)? {
                self.vote_all(src, d, p, true)?;
                self.confirm(src, d)?;
                let s = self.construct(src, d, &l)?;
                if let Some(i) = s {
                    for x in self.chains[d].set.clone().unwrap().members.keys() {
                        self.sign(src, d, i, x, true)?;
                    }
                    src.class("flush_proved_after_rotation");
                }
            }
        }
        Ok(())
    }
}
fn poll_id(e: &cosmwasm_std::Event) -> Option<String> {
    attr(e, "poll_id").and_then(|s| serde_json::from_str::<String>(s).ok())
}

fn history(src: &mut Src, max: usize) -> R {
    let mut s = Sys::new(src);
    for x in WORKERS {
        if src.chance(7, 8) {
            for what in 0..4 {
                if src.chance(19, 20) {
                    s.worker(src, x, what)?;
                }
            }
        }
    }
    for _ in 0..2 + src.idx(4) {
        s.add_message(src);
    }
    for c in 0..2 {
        if src.chance(4, 5) {
            s.update(src, c)?;
        }
    }
    src.repeat(max / 4, max, max as u64 * 2 / 3, |src, _| {
        let c = src.idx(2);
        match src.weighted(&[6, 10, 1, 10, 3, 2, 2, 4, 1, 1, 2, 4, 2, 1, 1]) {
            0 => {
                let odd = src.chance(1, 12);
                let l = s.some(src, c, odd);
                s.verify(src, c, &l)?;
            }
            1 => {
                let ch = &s.chains[c];
                if let Some(p) = (!ch.polls.is_empty()).then(|| ch.polls.len() - 1 - src.idx(ch.polls.len().min(3))) {
                    let honest = src.chance(3, 4);
                    if src.chance(2, 3) {
                        s.vote_all(src, c, p, honest)?;
                    } else {
                        let who = *src.pick(WORKERS);
                        s.vote(src, c, p, who, honest)?;
                    }
                }
            }
            2 => {
                if !s.chains[c].polls.is_empty() {
                    let p = src.idx(s.chains[c].polls.len());
                    if src.bool() {
                        let left = s.chains[c].polls[p].expires_at.saturating_sub(s.w.height());
                        s.w.advance(left, 5 * left);
                    }
                    s.end_poll(src, c, p)?;
                }
            }
            3 => {
                let odd = src.chance(1, 12);
                let mut l = s.some(src, c, odd);
                if src.chance(2, 3) {
                    // at least one that can be routed
                    let mut ok: Vec<Message> =
                        s.msgs.iter().filter(|m| m.cc_id.chain.to_string() == NAMES[c] && s.verified(c, &canon(m))).cloned().collect();
                    src.shuffle(&mut ok);
                    if let Some(m) = ok.pop() {
                        l.retain(|x| x.cc_id != m.cc_id);
                        l.push(m);
                    }
                }
                let g = if src.chance(6, 7) { s.chains[c].cur } else { 1 - s.chains[c].cur };
                s.route(src, c, g, &l, "relayer")?;
            }
            4 => s.attack(src)?,
            5 => {
                if src.chance(1, 3) && s.chains[c].frozen == (false, false) {
                    return Ok(());
                }
                s.freeze(src, c)?
            }
            6 => s.add_message(src),
            7 => {
                let d = NAMES[c];
                let mut l: Vec<Message> = s.msgs.iter().filter(|m| m.destination_chain.to_string() == d || src.chance(1, 10)).cloned().collect();
                src.shuffle(&mut l);
                let n = 1 + src.idx(2);
                let at = s.chains[c].gws[0].clone();
                if src.chance(4, 5) {
                    l.retain(|m| s.legit.get(&at).map(|x| x.contains(&canon(m))).unwrap_or(false));
                }
                let mut ids = BTreeSet::new();
                l.retain(|m| ids.insert(canon_id(m)));
                l.truncate(n);
                if !l.is_empty() {
                    s.construct(src, c, &l)?;
                }
            }
            8 => s.upgrade(src, c)?,
            9 => {
                let who = *src.pick(WORKERS);
                let what = src.weighted(&[2, 2, 2, 1]);
                s.worker(src, who, what)?
            }
            10 => s.update(src, c)?,
            11 => {
                if !s.chains[c].sessions.is_empty() {
                    let i = s.chains[c].sessions.len() - 1 - src.idx(s.chains[c].sessions.len().min(3));
                    let who = *src.pick(WORKERS);
                    let honest = src.chance(4, 5);
                    s.sign(src, c, i, who, honest)?;
                }
            }
            12 => {
                s.verify_set(src, c)?;
            }
            13 => s.confirm(src, c)?,
            _ => s.from_nexus(src, "nexus")?,
        }
        if src.chance(1, 3) {
            s.w.advance(1, 5);
        }
        s.check()
    })?;
    if s.arrived > 0 && s.refused > 0 {
        src.nontrivial();
    }
    s.flush(src)
}
fn canon_id(m: &Message) -> String {
    format!("{}:{}", m.cc_id.chain, *m.cc_id.id)
}
fn c30(src: &mut Src) -> R {
    history(src, 60)
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C30",
        rule: "histories on all ten contracts assembled for an ABI chain and a BCS chain with five workers: membership and key changes, real and forged messages, verification through the verifier, the aggregate verifier or a gateway, honest and colluding votes, routing through current and replaced gateways, freezes, upgrades, nexus submissions, rotations, proofs, honest and forged signatures, and attackers calling every privileged entry point; after every step every gateway's stored messages are compared with the ones the votes allow. At the end everything is unfrozen and a new message has to get through. Non-trivial: messages arrived and a routing of verified messages had to be refused",
        assumptions: &[
            "cw-multi-test 0.15.1 stands for the chain; the nexus module is a recording contract and trusted",
            "distinct workers register distinct, valid secp256k1 keys",
            "ids of the form <tx>:<index>; no two messages share the concatenation of their fields (known finding of C08)",
        ],
        subs: vec![Sub { name: "history", f: c30, quick: 3_000, thorough: 400_000 }],
        known: vec![],
    }]
}
