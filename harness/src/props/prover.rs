//! C15-C19: the multisig prover with the real multisig contract and programmable neighbours.
use crate::engine::*;
use crate::own;
use crate::props::voting;
use crate::util::app::*;
use crate::util::gen::*;
use crate::util::keys;
use crate::util::wire;
use axelar_wasm_std::operators::Operators;
use connection_router::state::Message;
use cosmwasm_std::{Addr, HexBinary, Uint256};
use cw_multi_test::AppResponse;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

const ENC: u8 = 1;
const C17: u8 = 2;
const C18: u8 = 4;
const C19: u8 = 8;
const ALL: u8 = 15;
const C38: u8 = 16;

const WORKERS: &[&str] = &["worker0", "worker1", "worker2", "worker3", "worker4", "worker5"];
const DEST: &str = "ethereum";

pub type Key = (usize, bool);
pub fn pk_bytes(k: &Key) -> Vec<u8> {
    if k.1 {
        keys::key(k.0).compressed.clone()
    } else {
        keys::key(k.0).uncompressed.clone()
    }
}

/// members with key and weight, threshold
#[derive(Clone, Debug, PartialEq)]
pub struct Wset {
    pub members: BTreeMap<String, Key>,
    pub threshold: u128,
}
impl Wset {
    /// the operators on the destination gateway, in gateway order
    pub fn ops(&self, abi: bool) -> wire::Ops {
        let mut v: Vec<(Vec<u8>, String)> = self
            .members
            .values()
            .map(|k| (if abi { keys::key(k.0).eth.to_vec() } else { pk_bytes(k) }, "1".to_string()))
            .collect();
        v.sort();
        wire::Ops {
            ops: v,
            threshold: self.threshold.to_string(),
        }
    }
    pub fn diff(&self, o: &Wset) -> usize {
        self.members.iter().filter(|(a, k)| o.members.get(*a) != Some(k)).count()
            + o.members.iter().filter(|(a, k)| self.members.get(*a) != Some(k)).count()
    }
}
/// operators as JSON with the list sorted
fn canon(v: &Value) -> String {
    let mut l: Vec<String> = v["weights_by_addresses"].as_array().map(|a| a.iter().map(|x| x.to_string()).collect()).unwrap_or_default();
    l.sort();
    format!("{l:?} {}", v["threshold"])
}
pub fn ops_json(o: &wire::Ops) -> Value {
    json!({"weights_by_addresses": o.ops.iter().map(|(a, w)| json!([hexs(a), w])).collect::<Vec<_>>(), "threshold": o.threshold})
}

#[derive(Clone, Debug)]
struct Sess {
    id: u64,
    ids: Vec<(String, String)>,
    ws: Wset,
    rotation: Option<Wset>,
    digest: String,
    proof: Value,
    signed: BTreeSet<String>,
    done: bool,
}

struct Sys {
    focus: u8,
    w: World,
    prover: Addr,
    ms: Addr,
    abi: bool,
    chain_id: Uint256,
    ratio: (u64, u64),
    diff: usize,
    active: Arc<Mutex<Vec<String>>>,
    stored: Arc<Mutex<BTreeMap<String, Value>>>,
    verified: Arc<Mutex<BTreeSet<String>>>,
    asked: Arc<Mutex<Vec<Value>>>,
    keys: BTreeMap<String, Key>,
    names: Vec<String>,
    next_key: usize,
    cur: Option<Wset>,
    pending: Option<Wset>,
    cached: BTreeSet<Vec<String>>,
    sessions: Vec<Sess>,
    msgs: Vec<Message>,
    confirmations: u64,
}

fn id_text(i: &(String, String)) -> String {
    format!("{}:{}", i.0, i.1)
}
fn mid(m: &Message) -> (String, String) {
    (m.cc_id.chain.to_string(), m.cc_id.id.to_string())
}
fn id_json(i: &(String, String)) -> Value {
    json!({"chain": i.0, "id": i.1})
}

/// the destination contract as the gateway format wants it, if it can be expressed
pub fn dest_bytes(abi: bool, a: &str) -> Option<Vec<u8>> {
    let n = if abi { 20 } else { 32 };
    let h = a.strip_prefix("0x").unwrap_or(a);
    // blanks between the digits of an EVM address do not matter
    let h: String = h.chars().filter(|c| !(abi && matches!(c, ' ' | '\n' | '\r' | '\t'))).collect();
    if h.len() != 2 * n {
        return None;
    }
    hex::decode(h).ok()
}

fn registry_query(active: Arc<Mutex<Vec<String>>>, chain: &'static str) -> crate::util::mock::QueryFn {
    Box::new(move |q| {
        let g = &q["get_active_workers"];
        if g["service_name"] != "validators" || g["chain_name"] != chain {
            return Err(format!("unexpected query {q}"));
        }
        let l: Vec<_> = active.lock().unwrap().iter().map(|a| voting::worker_record(a, "validators")).collect();
        serde_json::to_vec(&l).map(|v| v.into()).map_err(|e| e.to_string())
    })
}
fn gateway_query(stored: Arc<Mutex<BTreeMap<String, Value>>>) -> crate::util::mock::QueryFn {
    Box::new(move |q| {
        let ids = q["get_messages"]["message_ids"].as_array().ok_or_else(|| format!("unexpected query {q}"))?;
        let s = stored.lock().unwrap();
        let out: Result<Vec<Value>, String> =
            ids.iter().map(|i| s.get(&i.to_string()).cloned().ok_or_else(|| "message not found".to_string())).collect();
        serde_json::to_vec(&out?).map(|v| v.into()).map_err(|e| e.to_string())
    })
}

fn gen_chain_id(src: &mut Src, abi: bool) -> Uint256 {
    match src.below(4) {
        0 => Uint256::from(src.below(3)),
        1 if abi => Uint256::from_be_bytes(src.bytes32()),
        _ => Uint256::from(src.u64_any()),
    }
}

impl Sys {
    fn new(src: &mut Src, focus: u8, abi: bool) -> Sys {
        let mut w = World::new();
        let (rewards, _) = w.mock();
        let (gateway, gctl) = w.mock();
        let (registry, rctl) = w.mock();
        let (verifier, vctl) = w.mock();
        let active: Arc<Mutex<Vec<String>>> = Default::default();
        let stored: Arc<Mutex<BTreeMap<String, Value>>> = Default::default();
        let verified: Arc<Mutex<BTreeSet<String>>> = Default::default();
        let asked: Arc<Mutex<Vec<Value>>> = Default::default();
        gctl.lock().unwrap().query = Some(gateway_query(stored.clone()));
        rctl.lock().unwrap().query = Some(registry_query(active.clone(), DEST));
        let (v2, a2) = (verified.clone(), asked.clone());
        vctl.lock().unwrap().query = Some(Box::new(move |q| {
            let o = &q["is_worker_set_verified"]["new_operators"];
            if o.is_null() {
                return Err(format!("unexpected query {q}"));
            }
            a2.lock().unwrap().push(o.clone());
            let yes = v2.lock().unwrap().contains(&canon(o));
            Ok(yes.to_string().into_bytes().into())
        }));
        let ms = w
            .instantiate(
                w_multisig(),
                &json!({"governance_address": "governance", "rewards_address": rewards, "grace_period": src.below(4)}),
                "multisig",
            )
            .expect("multisig instantiates");
        let chain_id = gen_chain_id(src, abi);
        let ratio = voting::majority(src);
        let diff = src.weighted(&[5, 2, 1, 1]);
        let prover = w
            .instantiate(
                w_prover(),
                &json!({
                    "admin_address": "admin", "gateway_address": gateway, "multisig_address": ms,
                    "service_registry_address": registry, "voting_verifier_address": verifier,
                    "destination_chain_id": chain_id, "signing_threshold": [ratio.0.to_string(), ratio.1.to_string()],
                    "service_name": "validators", "chain_name": recase(src, DEST), "worker_set_diff_threshold": diff,
                    "encoder": if abi { "abi" } else { "bcs" }, "key_type": "ecdsa",
                }),
                "prover",
            )
            .expect("prover instantiates");
        let mut s = Sys {
            focus,
            w,
            prover,
            ms,
            abi,
            chain_id,
            ratio,
            diff,
            active,
            stored,
            verified,
            asked,
            keys: BTreeMap::new(),
            names: WORKERS.iter().map(|x| x.to_string()).collect(),
            next_key: 0,
            cur: None,
            pending: None,
            cached: BTreeSet::new(),
            sessions: vec![],
            msgs: vec![],
            confirmations: 0,
        };
        src.note(|| format!("prover abi {abi} chain id {chain_id} threshold {ratio:?} diff {diff}"));
        let m = json!({"authorize_caller": {"contract_address": s.prover}});
        let ms = s.ms.clone();
        s.w.exec(&addr("governance"), &ms, &m, &[]).expect("prover authorized");
        s
    }
    fn exec(&mut self, sender: &str, msg: &Value) -> Result<AppResponse, String> {
        let p = self.prover.clone();
        self.w.exec(&addr(sender), &p, msg, &[])
    }

    fn register_key(&mut self, src: &mut Src, who: &str) -> R {
        if self.next_key >= keys::N {
            return Ok(());
        }
        let k = (self.next_key, src.chance(3, 4));
        self.next_key += 1;
        let ms = self.ms.clone();
        let m = json!({"register_public_key": {"public_key": {"ecdsa": hexs(&pk_bytes(&k))}}});
        let r = self.w.exec(&addr(who), &ms, &m, &[]);
        ensure!(r.is_ok(), "key rejected: {r:?}");
        src.note(|| format!("{who} registers key {k:?}"));
        self.keys.insert(who.into(), k);
        Ok(())
    }
    fn set_active(&mut self, src: &mut Src) {
        let mut a: Vec<String>;
        let cur = self.active.lock().unwrap().clone();
        if cur.is_empty() || src.chance(1, 5) {
            a = src.subset(&self.names, if self.names.len() > 6 { 9 } else { 6 }, if self.names.len() > 6 { 10 } else { 9 });
        } else if self.cur.is_some() && src.chance(1, 4) {
            // back to the workers of the current set
            a = self.cur.as_ref().unwrap().members.keys().cloned().collect();
        } else {
            a = cur;
            for _ in 0..1 + src.idx(2) {
                let w = src.pick(&self.names).clone();
                if let Some(i) = a.iter().position(|x| *x == w) {
                    a.remove(i);
                } else {
                    a.push(w);
                }
            }
        }
        src.shuffle(&mut a);
        src.note(|| format!("active workers {a:?}"));
        *self.active.lock().unwrap() = a;
    }
    fn add_message(&mut self, src: &mut Src) {
        let dest = if src.chance(1, 25) { "avalanche" } else { DEST };
        let n = if self.abi { 20 } else { 32 };
        let from = *src.pick(CHAINS);
        let mut m = message(src, from, dest);
        if src.chance(9, 10) {
            let h = hexs(&src.bytes(n));
            let h = if src.chance(1, 4) { h.to_ascii_uppercase() } else { h };
            m.destination_address = if src.chance(3, 4) { format!("0x{h}") } else { h }.parse().unwrap();
        } else if src.bool() {
            let n = *src.pick(&[n - 1, n + 1, 20, 32, 52 - n]);
            m.destination_address = format!("0x{}", hexs(&src.bytes(n))).parse().unwrap();
        }
        // ids built from other ids and the separators
        if !self.msgs.is_empty() && src.chance(1, 6) {
            let o = src.pick(&self.msgs).clone();
            let t = match src.below(3) {
                0 => format!("{},{}", m.cc_id.id.as_str(), id_text(&mid(&o))),
                1 => format!("{}:{}", o.cc_id.id.as_str(), m.cc_id.id.as_str()),
                _ => format!("{}0", o.cc_id.id.as_str()),
            };
            m.cc_id.id = t.parse().unwrap();
            if src.bool() {
                m.cc_id.chain = o.cc_id.chain.clone();
            }
        }
        if self.msgs.iter().any(|x| x.cc_id == m.cc_id) {
            return;
        }
        src.note(|| format!("gateway stores {}", short(&m)));
        self.stored.lock().unwrap().insert(id_json(&mid(&m)).to_string(), msg_json(&m));
        self.msgs.push(m);
    }

    /// the worker set the prover would take from the registry now
    fn registry_set(&self) -> Option<Wset> {
        let a = self.active.lock().unwrap();
        if a.is_empty() {
            return None;
        }
        let mut members = BTreeMap::new();
        for w in a.iter() {
            members.insert(w.clone(), *self.keys.get(w)?);
        }
        let n = members.len() as u128;
        let threshold = (n * self.ratio.0 as u128 + self.ratio.1 as u128 - 1) / self.ratio.1 as u128;
        Some(Wset { members, threshold })
    }
    /// Ok(Some(new set)) if a rotation is due
    fn rotation(&self) -> Result<Option<Wset>, String> {
        let new = self.registry_set().ok_or("no usable workers")?;
        let cur = self.cur.as_ref().ok_or("no worker set")?;
        if new.diff(cur) > self.diff {
            if self.pending.as_ref().map(|p| *p != new).unwrap_or(false) {
                return Err("another worker set is pending".into());
            }
            Ok(Some(new))
        } else {
            Ok(None)
        }
    }

    fn check_sets(&mut self) -> R {
        let r: Result<Value, _> = self.w.query(&self.prover, &json!("get_worker_set"));
        match (&self.cur, r) {
            (None, r) => own!(self, C18, r.is_err(), "there is no worker set yet, the prover reports {r:?}"),
            (Some(c), r) => {
                let exp = self.set_json(c);
                let got = r.map(|mut v| {
                    if let Some(o) = v.as_object_mut() {
                        o.remove("created_at");
                    }
                    v
                });
                own!(self, C18, got == Ok(exp.clone()), "current worker set {got:?}, expected {exp}");
            }
        }
        Ok(())
    }
    fn set_json(&self, c: &Wset) -> Value {
        let m: serde_json::Map<String, Value> = c
            .members
            .iter()
            .map(|(a, k)| (a.clone(), json!({"address": a, "weight": "1", "pub_key": {"ecdsa": hexs(&pk_bytes(k))}})))
            .collect();
        json!({"signers": m, "threshold": c.threshold.to_string()})
    }
    fn current_id(&self) -> Option<String> {
        let w: Result<multisig::worker_set::WorkerSet, _> = self.w.query(&self.prover, &json!("get_worker_set"));
        w.ok().map(|w| w.id())
    }
    /// the current worker set is registered with the multisig contract
    fn check_registered(&mut self, bits: u8) -> R {
        let id = self.current_id().unwrap_or_default();
        let r: Result<Value, _> = self.w.query(&self.ms, &json!({"get_worker_set": {"worker_set_id": id}}));
        let p: Result<Value, _> = self.w.query(&self.prover, &json!("get_worker_set"));
        own!(self, bits, r.is_ok() && r == p, "worker set {p:?} registered with the multisig contract as {r:?}");
        Ok(())
    }

    /// bookkeeping and checks after a call that should have started a signing session
    fn started(&mut self, src: &mut Src, r: &AppResponse, ids: Vec<(String, String)>, rotation: Option<Wset>) -> R {
        let started = events(r, &self.ms, "signing_started");
        own!(self, ALL, started.len() == 1, "{} signing sessions started", started.len());
        let e = started[0];
        let sid: u64 = attr(e, "session_id").and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
        let msg = attr(e, "msg").unwrap_or("").to_string();
        let by = attr(e, "worker_set_id").unwrap_or("").to_string();
        own!(self, C18, Some(by.clone()) == self.current_id(), "session {sid} is signed by {by}, not by the current worker set");
        own!(self, C17, attr(e, "chain") == Some(DEST), "chain of session {sid}: {:?}", attr(e, "chain"));
        let made = events(r, &self.prover, "proof_under_construction");
        own!(self, C17, made.len() == 1, "{} proof_under_construction events", made.len());
        let told = attr(made[0], "multisig_session_id").unwrap_or("").trim_matches('"');
        own!(self, C17, told == sid.to_string(), "session {sid} announced as {told}");
        own!(self, C17, self.sessions.iter().all(|s| s.id != sid), "session {sid} used twice");
        let proof = self.get_proof(sid)?;
        let s = Sess {
            id: sid,
            ids,
            ws: self.cur.clone().unwrap(),
            rotation,
            digest: msg,
            proof,
            signed: BTreeSet::new(),
            done: false,
        };
        self.check_proof(&s)?;
        // the same batch again: the same content
        let mut sorted: Vec<_> = s.ids.clone();
        sorted.sort();
        for o in self.sessions.clone() {
            let mut so = o.ids.clone();
            so.sort();
            let same = so == sorted && o.rotation.is_none() && s.rotation.is_none() && !sorted.is_empty();
            if same {
                own!(
                    self,
                    C17,
                    o.proof["data"] == s.proof["data"] && o.proof["message_ids"] == s.proof["message_ids"],
                    "repeated request has data {} instead of {}",
                    s.proof["data"],
                    o.proof["data"]
                );
                src.class("repeated_request");
            }
            if so != sorted {
                own!(self, C17, o.digest != s.digest, "different requests are signed as one message");
            }
        }
        self.sessions.push(s);
        Ok(())
    }
    fn get_proof(&self, sid: u64) -> R<Value> {
        match self.w.query::<_, Value>(&self.prover, &json!({"get_proof": {"multisig_session_id": sid.to_string()}})) {
            Ok(v) => Ok(v),
            Err(e) => {
                own!(self, ALL, false, "proof of session {sid} cannot be queried: {e}");
                unreachable!()
            }
        }
    }

    /// what the proof query reports apart from the status
    fn check_proof(&mut self, s: &Sess) -> R {
        let p = &s.proof;
        own!(self, C17, p["multisig_session_id"] == json!(s.id.to_string()), "session id {}", p["multisig_session_id"]);
        let mut got: Vec<String> = p["message_ids"].as_array().map(|a| a.iter().map(|x| x.to_string()).collect()).unwrap_or_default();
        let mut want: Vec<String> = s.ids.iter().map(|i| id_json(i).to_string()).collect();
        let order: Vec<(String, String)> = p["message_ids"]
            .as_array()
            .map(|a| {
                a.iter()
                    .map(|x| (x["chain"].as_str().unwrap_or("").to_string(), x["id"].as_str().unwrap_or("").to_string()))
                    .collect()
            })
            .unwrap_or_default();
        got.sort();
        want.sort();
        own!(self, C17, got == want, "session {} is for {got:?}, requested were {want:?}", s.id);
        own!(
            self,
            ENC,
            p["data"]["destination_chain_id"] == json!(self.chain_id.to_string()),
            "destination chain id {}, expected {}",
            p["data"]["destination_chain_id"],
            self.chain_id
        );
        let cmds = p["data"]["commands"].as_array().cloned().unwrap_or_default();
        let mut approvals = vec![];
        let mut transfers = vec![];
        for c in &cmds {
            let id = hex::decode(c["id"].as_str().unwrap_or("?")).unwrap_or_default();
            let params = hex::decode(c["params"].as_str().unwrap_or("?")).unwrap_or_default();
            own!(self, ENC, id.len() == 32, "command id {}", c["id"]);
            match c["ty"].as_str().unwrap_or("") {
                "approve_contract_call" => approvals.push((id, params)),
                "transfer_operatorship" => transfers.push((id, params)),
                x => own!(self, ENC, false, "command type {x}"),
            }
        }
        own!(self, ENC | C17, approvals.len() == order.len(), "{} approvals for {} messages", approvals.len(), order.len());
        for (i, (id, params)) in order.iter().zip(&approvals) {
            let Some(m) = self.msgs.iter().find(|m| mid(m) == *i).cloned() else {
                own!(self, C17, false, "unknown message {i:?} in the batch");
                unreachable!()
            };
            let exp = wire::Approve {
                chain: m.cc_id.chain.to_string(),
                source: m.source_address.to_string(),
                dest: dest_bytes(self.abi, m.destination_address.as_str()).unwrap_or_default(),
                hash: m.payload_hash,
            };
            let got = wire::approve(self.abi, params);
            own!(self, ENC | C17, got == Ok(exp.clone()), "approval of {i:?} is {got:?}, expected {exp:?}");
            let exp = keys::keccak(id_text(i).as_bytes());
            own!(self, ENC | C17, *id == exp, "command id of {i:?} is {}", hexs(id));
        }
        match &s.rotation {
            None => own!(self, C17 | C18 | C19, transfers.is_empty(), "unexpected operator transfer in session {}", s.id),
            Some(n) => {
                own!(self, C17 | C18 | C19, transfers.len() == 1, "{} operator transfers in session {}", transfers.len(), s.id);
                let got = wire::operators(self.abi, &transfers[0].1);
                let exp = n.ops(self.abi);
                own!(self, ENC | C17 | C18 | C19, got == Ok(exp.clone()), "transfer to {got:?}, expected {exp:?}");
            }
        }
        Ok(())
    }

    fn construct(&mut self, src: &mut Src, ids: Vec<(String, String)>) -> R {
        let found: Vec<Option<Message>> = ids.iter().map(|i| self.msgs.iter().find(|m| mid(m) == *i).cloned()).collect();
        let mut sorted: Vec<String> = ids.iter().map(|i| id_json(i).to_string()).collect();
        sorted.sort();
        // (owner of the rejection, reason)
        let mut bad: Option<(u8, String)> = None;
        let mut rotation = None;
        if found.iter().any(|m| m.is_none()) {
            bad = Some((C17, "a message is not stored at the gateway".into()));
        } else if found.iter().flatten().any(|m| m.destination_chain.to_string() != DEST) {
            bad = Some((C17, "a message is for another chain".into()));
        } else if self.cur.is_none() {
            bad = Some((C18, "there is no worker set".into()));
        } else if !self.cached.contains(&sorted) {
            match self.rotation() {
                Err(e) => bad = Some((C18, e)),
                Ok(r) => {
                    rotation = r;
                    if found.iter().flatten().any(|m| dest_bytes(self.abi, m.destination_address.as_str()).is_none()) {
                        bad = Some((ENC, "a destination address is not valid on the chain".into()));
                    }
                }
            }
        }
        let before = (self.w.dump(&self.prover), self.w.dump(&self.ms));
        let sender = *src.pick(&["relayer", "anyone", "worker0"]);
        let m = json!({"construct_proof": {"message_ids": ids.iter().map(id_json).collect::<Vec<_>>()}});
        let r = self.exec(sender, &m);
        src.note(|| format!("construct proof for {:?} rotation {} -> {}", ids.iter().map(id_text).collect::<Vec<_>>(), rotation.is_some(), r.is_ok()));
        match bad {
            Some((bits, why)) => {
                own!(self, bits, r.is_err(), "proof construction accepted although {why}");
                own!(self, bits, (self.w.dump(&self.prover), self.w.dump(&self.ms)) == before, "a rejected proof construction had an effect");
                src.class("construct_rejected");
            }
            None => {
                own!(self, ALL, r.is_ok(), "proof construction rejected: {r:?}");
                if rotation.is_some() {
                    self.pending = rotation.clone();
                    src.class("construct_with_rotation");
                } else {
                    self.cached.insert(sorted);
                    src.class("construct");
                }
                self.started(src, &r.unwrap(), ids, rotation)?;
            }
        }
        Ok(())
    }

    fn update(&mut self, src: &mut Src) -> R {
        let first = self.cur.is_none();
        let exp: Result<Option<Wset>, String> = if first {
            self.registry_set().map(Some).ok_or("no usable workers".to_string())
        } else {
            self.rotation().and_then(|r| r.map(Some).ok_or("workers have not changed sufficiently".to_string()))
        };
        let before = (self.w.dump(&self.prover), self.w.dump(&self.ms));
        let r = self.exec("admin", &json!("update_worker_set"));
        src.note(|| format!("update worker set -> {} (expected {exp:?})", r.is_ok()));
        match exp {
            Err(why) => {
                own!(self, C18, r.is_err(), "worker set update accepted although {why}");
                own!(self, C18, (self.w.dump(&self.prover), self.w.dump(&self.ms)) == before, "a rejected update had an effect");
                src.class("update_rejected");
            }
            Ok(new) => {
                own!(self, ALL, r.is_ok(), "worker set update rejected: {r:?}");
                if first {
                    self.cur = new;
                    self.check_sets()?;
                    self.check_registered(C18)?;
                    src.class("first_set");
                } else {
                    self.pending = new.clone();
                    src.class("update");
                    self.started(src, &r.unwrap(), vec![], new)?;
                }
            }
        }
        Ok(())
    }

    fn confirm(&mut self, src: &mut Src) -> R {
        let exp = self.pending.as_ref().map(|p| {
            let o = ops_json(&p.ops(self.abi));
            (self.verified.lock().unwrap().contains(&canon(&o)), o)
        });
        let before = (self.w.dump(&self.prover), self.w.dump(&self.ms));
        self.asked.lock().unwrap().clear();
        let r = self.exec("relayer", &json!("confirm_worker_set"));
        src.note(|| format!("confirm worker set (pending and verified: {:?}) -> {}", exp.as_ref().map(|e| e.0), r.is_ok()));
        let asked = self.asked.lock().unwrap().clone();
        if let Some((_, o)) = &exp {
            own!(
                self,
                C18 | C19,
                !asked.is_empty() && asked.iter().all(|a| canon(a) == canon(o)),
                "the verifier was asked for {asked:?}, pending is {o}"
            );
        }
        let ok = matches!(exp, Some((true, _)));
        own!(self, C18 | C19, r.is_ok() == ok, "confirmation with pending and verified {exp:?}: {:?}", r.map(|_| ()));
        if ok {
            self.cur = self.pending.take();
            self.confirmations += 1;
            self.check_sets()?;
            self.check_registered(C18)?;
            src.class("confirmed");
        } else {
            own!(self, C18, (self.w.dump(&self.prover), self.w.dump(&self.ms)) == before, "a rejected confirmation had an effect");
            src.class("confirm_rejected");
        }
        Ok(())
    }
    /// the verifier learns of an installed worker set: the pending one or a near miss
    fn verify_set(&mut self, src: &mut Src) {
        let Some(mut p) = self.pending.clone().or(self.cur.clone()) else { return };
        let mut near = false;
        let mut o = p.ops(self.abi);
        if src.chance(1, 3) {
            near = true;
            match src.below(4) {
                0 => {
                    p.threshold += 1;
                    o = p.ops(self.abi);
                }
                1 => {
                    p.members.pop_first();
                    o = p.ops(self.abi);
                }
                2 => o.ops[0].1 = "2".into(),
                _ => *o.ops[0].0.last_mut().unwrap() ^= 1,
            }
        }
        src.note(|| format!("verifier confirms {} (near miss: {near})", ops_json(&o)));
        self.verified.lock().unwrap().insert(canon(&ops_json(&o)));
    }

    fn sign(&mut self, src: &mut Src, i: usize, all: bool) -> R {
        let s = self.sessions[i].clone();
        let mut todo: Vec<String> = s.ws.members.keys().filter(|w| !s.signed.contains(*w)).cloned().collect();
        src.shuffle(&mut todo);
        let k = if all { todo.len() } else { src.idx(3).min(todo.len()) };
        let hash = hex::decode(&s.digest).unwrap_or_default();
        for w in todo.into_iter().take(k) {
            if all && self.sessions[i].done {
                break;
            }
            let mut sig = keys::sign(s.ws.members[&w].0, &hash);
            let high = src.chance(1, 6);
            if high {
                sig = keys::high_s(&sig);
                src.class("high_s_signature");
            }
            let ms = self.ms.clone();
            let m = json!({"submit_signature": {"session_id": s.id.to_string(), "signature": hexs(&sig)}});
            let r = self.w.exec(&addr(&w), &ms, &m, &[]);
            src.note(|| format!("{w} signs session {} (high S {high}) -> {}", s.id, r.is_ok()));
            if r.is_ok() {
                self.sessions[i].signed.insert(w);
            } else if !high && !self.sessions[i].done {
                // the session must accept the genuine signature of a participant
                own!(self, ALL, false, "signature rejected: {r:?}");
            }
            if self.sessions[i].signed.len() as u128 >= s.ws.threshold {
                self.sessions[i].done = true;
            }
        }
        self.check_session(src, i)
    }

    fn check_session(&mut self, src: &mut Src, i: usize) -> R {
        let s = self.sessions[i].clone();
        let p = self.get_proof(s.id)?;
        for f in ["message_ids", "data", "multisig_session_id"] {
            own!(self, C17, p[f] == s.proof[f], "{f} of session {} changed from {} to {}", s.id, s.proof[f], p[f]);
        }
        if !s.done {
            own!(self, ENC | C17, p["status"] == json!("pending"), "session {} is not complete but reported as {}", s.id, p["status"]);
            return Ok(());
        }
        let Some(x) = p["status"]["completed"]["execute_data"].as_str() else {
            own!(self, ENC | C17, false, "session {} is complete but reported as {}", s.id, p["status"]);
            unreachable!()
        };
        let raw = hex::decode(x).unwrap_or_default();
        let r = check_execute(self.abi, &raw, &p["data"], &s.digest, &s.ws.ops(self.abi));
        if let Err(e) = r {
            own!(self, ENC, false, "session {}: {e}", s.id);
        }
        src.class("completed_proof");
        Ok(())
    }
}

/// checks the data and the proof sent to the gateway against the batch, the signed hash and the operators
pub fn check_execute(abi: bool, raw: &[u8], batch: &Value, digest: &str, ops: &wire::Ops) -> Result<(), String> {
    let (data, proof) = wire::execute(abi, raw)?;
    let d = wire::data(abi, &data).map_err(|e| format!("data: {e}"))?;
    if json!(d.chain_id) != batch["destination_chain_id"] {
        return Err(format!("data is for chain {}", d.chain_id));
    }
    let cmds: Vec<Value> = d
        .commands
        .iter()
        .map(|c| {
            let ty = match c.ty.as_str() {
                "approveContractCall" => "approve_contract_call",
                "transferOperatorship" => "transfer_operatorship",
                x => x,
            };
            json!({"id": hexs(&c.id), "ty": ty, "params": hexs(&c.params)})
        })
        .collect();
    if json!(cmds) != batch["commands"] {
        return Err(format!("data has commands {}, the batch {}", json!(cmds), batch["commands"]));
    }
    let hash = wire::digest(abi, &data);
    if hexs(&hash) != digest {
        return Err(format!("the signed hash {digest} is not the one of the data, {}", hexs(&hash)));
    }
    if proof.ops.ops.windows(2).any(|w| w[0].0 >= w[1].0) {
        return Err(format!("operators are not strictly increasing: {:?}", proof.ops.ops));
    }
    if proof.ops != *ops {
        return Err(format!("operators {:?}, expected {ops:?}", proof.ops));
    }
    let mut weight = Uint256::zero();
    let mut last: Option<usize> = None;
    for s in &proof.sigs {
        let k = wire::recover(abi, &hash, s)?;
        let pos = proof.ops.ops.iter().position(|(a, _)| {
            if abi {
                *a == wire::eth_address(&k)
            } else {
                k256::ecdsa::VerifyingKey::from_sec1_bytes(a).map(|x| x == k).unwrap_or(false)
            }
        });
        let Some(pos) = pos else { return Err("a signature recovers to no operator".into()) };
        if last.map(|l| pos <= l).unwrap_or(false) {
            return Err("signatures are not in the order of the operators".into());
        }
        last = Some(pos);
        weight += Uint256::try_from(proof.ops.ops[pos].1.as_str()).map_err(|e| e.to_string())?;
    }
    let t = Uint256::try_from(proof.ops.threshold.as_str()).map_err(|e| e.to_string())?;
    if weight < t {
        return Err(format!("signatures have weight {weight}, threshold is {t}"));
    }
    Ok(())
}

/// weights: construct, update, confirm, verify_set, workers, key, message, sign
fn history(src: &mut Src, focus: u8, abi: bool, w: [u64; 8], max: usize) -> R<Sys> {
    let mut s = Sys::new(src, focus, abi);
    history_on(src, &mut s, w, max)?;
    Ok(s)
}
fn history_on(src: &mut Src, s: &mut Sys, w: [u64; 8], max: usize) -> R {
    let n = src.size(6, 150);
    if n > 6 {
        s.names = (0..n).map(|i| format!("worker{i}")).collect();
        src.class("many_workers");
    }
    for x in &s.names.clone() {
        if n > 6 || src.chance(11, 12) {
            s.register_key(src, x)?;
        }
    }
    s.set_active(src);
    for _ in 0..src.size(4, 160) {
        s.add_message(src);
    }
    if src.chance(9, 10) {
        s.update(src)?;
    }
    src.repeat(1, max, (max as u64) / 2, |src, _| {
        match src.weighted(&w) {
            0 => {
                // old requests again (reordered), or a new one
                let ids = if !s.sessions.is_empty() && src.chance(1, 3) {
                    let mut v = s.sessions[src.idx(s.sessions.len())].ids.clone();
                    src.shuffle(&mut v);
                    if v.len() > 1 && src.chance(1, 4) {
                        v.pop();
                    }
                    v
                } else {
                    let mut v: Vec<_> = s.msgs.iter().map(mid).collect();
                    src.shuffle(&mut v);
                    if v.len() > 20 && src.bool() {
                        // all that can be approved
                        v.retain(|i| {
                            let m = s.msgs.iter().find(|m| mid(m) == *i).unwrap();
                            m.destination_chain.to_string() == DEST && dest_bytes(s.abi, m.destination_address.as_str()).is_some()
                        });
                        src.class("large_batch");
                    } else {
                        let n = (1 + src.idx(3)).min(v.len());
                        v.truncate(n);
                    }
                    if src.chance(1, 12) {
                        let mut x = v[0].clone();
                        x.1.push('9');
                        v.push(x);
                    }
                    v
                };
                if !ids.is_empty() {
                    s.construct(src, ids)?;
                }
            }
            1 => s.update(src)?,
            2 => s.confirm(src)?,
            3 => s.verify_set(src),
            4 => s.set_active(src),
            5 => {
                let x = src.pick(&s.names).clone();
                s.register_key(src, &x)?;
            }
            6 => s.add_message(src),
            _ => {
                if !s.sessions.is_empty() {
                    let i = src.idx(s.sessions.len());
                    let all = src.bool();
                    s.sign(src, i, all)?;
                }
            }
        }
        if src.chance(1, 2) {
            s.w.advance(1, 5);
        }
        s.check_sets()
    })
}
/// C38: which proof belongs to which session follows from the events alone
pub fn c38_prover(src: &mut Src) -> R {
    let abi = src.chance(2, 3);
    let mut s = Sys::new(src, C38, abi);
    s.w.record = true;
    let r = history_on(src, &mut s, [8, 2, 2, 2, 4, 1, 3, 2], 24);
    // by batch id: message ids and data; by data without operator transfers: batch id
    let mut batches: BTreeMap<String, (BTreeSet<String>, Value)> = BTreeMap::new();
    let mut by_data: BTreeMap<String, String> = BTreeMap::new();
    let mut sessions: BTreeSet<String> = BTreeSet::new();
    for tx in s.w.log.iter().filter(|t| t.contract == s.prover) {
        let made = events(&tx.res, &s.prover, "proof_under_construction");
        let started = events(&tx.res, &s.ms, "signing_started");
        ensure_eq!(made.len(), started.len(), "proofs announced and sessions opened by {}", tx.msg);
        for e in made {
            let at = |k: &str| super::events::plain(e, k);
            let (batch, sid) = (at("command_batch_id"), at("multisig_session_id"));
            ensure!(!batch.is_empty() && !sid.is_empty(), "proof announced without batch or session: {e:?}");
            ensure!(sessions.insert(sid.clone()), "session {sid} announced twice");
            ensure!(started.iter().any(|x| attr(x, "session_id").map(|x| x.trim_matches('"')) == Some(sid.as_str())),
                "session {sid} was announced, but not opened");
            let p: Result<Value, _> = s.w.query(&s.prover, &json!({"get_proof": {"multisig_session_id": sid}}));
            let Ok(p) = p else { return fail(format!("announced proof of session {sid} cannot be queried: {p:?}")) };
            let set = |v: &Value| -> BTreeSet<String> { v.as_array().map(|a| a.iter().map(|x| x.to_string()).collect()).unwrap_or_default() };
            let ids = set(&p["message_ids"]);
            if tx.msg.get("construct_proof").is_some() {
                ensure_eq!(ids, set(&tx.msg["construct_proof"]["message_ids"]), "messages of the announced proof and of the request");
            } else {
                ensure!(ids.is_empty(), "proof of a worker set update for messages {ids:?}");
            }
            let rotates = p["data"]["commands"].as_array().map(|c| c.iter().any(|x| x["ty"] == "transfer_operatorship")).unwrap_or(false);
            match batches.insert(batch.clone(), (ids.clone(), p["data"].clone())) {
                Some(o) => {
                    ensure!(o.0 == ids && o.1 == p["data"], "batch {batch} stands for {} and for {}", o.1, p["data"]);
                    src.class("batch_again");
                    src.nontrivial();
                }
                None => src.class("batch"),
            }
            if !rotates {
                if let Some(o) = by_data.insert(p["data"].to_string(), batch.clone()) {
                    ensure_eq!(batch, o, "batch announced for the same data and messages");
                }
            }
        }
    }
    r.or_else(|_| abandon())
}
fn finish(src: &mut Src, s: &mut Sys, most: usize) -> R {
    let n = s.sessions.len();
    for i in (0..n).rev().take(most) {
        s.sign(src, i, true)?;
    }
    for i in 0..n {
        s.check_session(src, i)?;
    }
    Ok(())
}
fn encoded(src: &mut Src, abi: bool) -> R {
    let mut s = history(src, ENC, abi, [6, 2, 2, 2, 3, 1, 3, 5], 14)?;
    finish(src, &mut s, 3)?;
    if s.sessions.iter().any(|x| x.done && x.ids.len() > 1 && x.ws.members.len() > 1) {
        src.nontrivial();
    }
    Ok(())
}
fn c15(src: &mut Src) -> R {
    encoded(src, true)
}
fn c16(src: &mut Src) -> R {
    encoded(src, false)
}
fn c17(src: &mut Src) -> R {
    let abi = src.chance(2, 3);
    let mut s = history(src, C17, abi, [10, 1, 1, 1, 1, 1, 5, 2], 24)?;
    finish(src, &mut s, 1)?;
    if s.sessions.len() > 2 {
        src.nontrivial();
    }
    Ok(())
}
/// few messages, many changes of the workers
fn c17_rotations(src: &mut Src) -> R {
    let abi = src.chance(2, 3);
    let mut s = history(src, C17, abi, [10, 2, 3, 2, 7, 1, 0, 1], 30)?;
    finish(src, &mut s, 1)?;
    if s.sessions.len() > 2 {
        src.nontrivial();
    }
    Ok(())
}
fn c18(src: &mut Src) -> R {
    let abi = src.chance(2, 3);
    let mut s = history(src, C18, abi, [5, 5, 6, 5, 4, 3, 1, 1], 36)?;
    finish(src, &mut s, 1)?;
    if s.confirmations > 0 {
        src.nontrivial();
    }
    Ok(())
}
fn c19(src: &mut Src) -> R {
    let abi = src.chance(1, 2);
    let s = history(src, C19, abi, [2, 5, 6, 5, 4, 3, 1, 0], 36)?;
    if s.confirmations > 0 {
        src.nontrivial();
    }
    Ok(())
}

/// the identity of a set of operators: every listing order is the same set, every change another one
fn c19_identity(src: &mut Src) -> R {
    let n = src.size(6, 80);
    let len = *src.pick(&[20usize, 32, 33]);
    let mut v: Vec<(HexBinary, Uint256)> = vec![];
    for _ in 0..n {
        let a = HexBinary::from(src.bytes(len));
        if v.iter().all(|x| x.0 != a) {
            v.push((a, Uint256::from(1 + src.u128_any() / 2)));
        }
    }
    let t = Uint256::from(1 + src.u128_any() / 2);
    let a = Operators::new(v.clone(), t);
    let mut p = v.clone();
    src.shuffle(&mut p);
    let b = Operators::new(p.clone(), t);
    src.ident((&v, t));
    src.note(|| format!("{v:?} {t} against {p:?}"));
    if p != v {
        src.nontrivial();
    }
    ensure_eq!(a, b, "operators listed in another order");
    ensure!(a.hash() == b.hash(), "hash depends on the listing order");
    let mut q = v.clone();
    let mut u = t;
    match src.below(5) {
        0 => u += Uint256::one(),
        1 => {
            let i = src.idx(q.len());
            q[i].1 += Uint256::one();
        }
        2 => {
            let i = src.idx(q.len());
            let mut x: Vec<u8> = q[i].0.clone().into();
            let k = src.idx(x.len());
            x[k] ^= 1 << src.below(8);
            if v.iter().any(|o| o.0.as_slice() == &x[..]) {
                return Ok(());
            }
            q[i].0 = x.into();
        }
        3 => {
            q.pop();
        }
        _ => {
            // swap two weights
            let (i, j) = (src.idx(q.len()), src.idx(q.len()));
            if q[i].1 == q[j].1 {
                return Ok(());
            }
            let w = q[i].1;
            q[i].1 = q[j].1;
            q[j].1 = w;
        }
    }
    src.note(|| format!("changed to {q:?} {u}"));
    let c = Operators::new(q, u);
    ensure!(c != a && c.hash() != a.hash(), "different operators have the same identity");
    let back: Operators = serde_json::from_value(serde_json::to_value(&a).unwrap()).map_err(|e| Fail {
        msg: e.to_string(),
        sig: None,
    })?;
    ensure!(back == a && back.hash() == a.hash(), "identity changes through serialization");
    Ok(())
}

/// proofs from weighted signers: the multisig contract is replaced by one that reports them
fn weighted(src: &mut Src, abi: bool) -> R {
    let mut w = World::new();
    let (ms, mctl) = w.mock();
    let (gateway, gctl) = w.mock();
    let (registry, rctl) = w.mock();
    let (verifier, _) = w.mock();
    let stored: Arc<Mutex<BTreeMap<String, Value>>> = Default::default();
    gctl.lock().unwrap().query = Some(gateway_query(stored.clone()));
    rctl.lock().unwrap().query = Some(registry_query(Arc::new(Mutex::new(vec!["worker0".into()])), DEST));
    let chain_id = gen_chain_id(src, abi);
    let prover = w
        .instantiate(
            w_prover(),
            &json!({
                "admin_address": "admin", "gateway_address": gateway, "multisig_address": ms,
                "service_registry_address": registry, "voting_verifier_address": verifier,
                "destination_chain_id": chain_id, "signing_threshold": ["2", "3"],
                "service_name": "validators", "chain_name": DEST, "worker_set_diff_threshold": 0,
                "encoder": if abi { "abi" } else { "bcs" }, "key_type": "ecdsa",
            }),
            "prover",
        )
        .expect("prover instantiates");
    let n = src.size(8, 150);
    let base = src.idx(keys::N - n);
    let cap = *src.pick(&[1u128, 3, 10, 1000, u128::MAX / 32]);
    let ks: Vec<(Key, u128)> = (0..n).map(|i| ((base + i, src.chance(3, 4)), 1 + src.u128_any() % cap)).collect();
    let total: u128 = ks.iter().map(|k| k.1).sum();
    let mut order: Vec<usize> = (0..n).collect();
    src.shuffle(&mut order);
    let k = 1 + src.idx(n);
    let signed: BTreeSet<usize> = order[..k].iter().copied().collect();
    let weight: u128 = signed.iter().map(|i| ks[*i].1).sum();
    // any threshold the signatures reach
    let quorum = match src.below(3) {
        0 => weight,
        1 => 1 + src.u128_any() % weight,
        _ => weight.min((total / 3 * 2).max(1)),
    };
    let mut msgs = vec![];
    for i in 0..src.size(2, 160) {
        let mut m = message(src, "polygon", DEST);
        m.cc_id.id = format!("{}{i}", m.cc_id.id.as_str()).parse().unwrap();
        m.destination_address = format!("0x{}", hexs(&src.bytes(if abi { 20 } else { 32 }))).parse().unwrap();
        stored.lock().unwrap().insert(id_json(&mid(&m)).to_string(), msg_json(&m));
        msgs.push(m);
    }
    let state: Arc<Mutex<Value>> = Arc::new(Mutex::new(Value::Null));
    let st2 = state.clone();
    let k0 = json!({"ecdsa": hexs(&pk_bytes(&ks[0].0))});
    {
        let mut c = mctl.lock().unwrap();
        c.data = Some(cosmwasm_std::to_binary("77").unwrap());
        c.query = Some(Box::new(move |q| {
            if q.get("get_public_key").is_some() {
                return Ok(serde_json::to_vec(&k0).unwrap().into());
            }
            if q["get_multisig"]["session_id"] == json!("77") {
                return Ok(serde_json::to_vec(&*st2.lock().unwrap()).unwrap().into());
            }
            Err(format!("unexpected query {q}"))
        }));
    }
    let r = w.exec(&addr("admin"), &prover, &json!("update_worker_set"), &[]);
    ensure!(r.is_ok(), "first worker set rejected: {r:?}");
    let m = json!({"construct_proof": {"message_ids": msgs.iter().map(|m| id_json(&mid(m))).collect::<Vec<_>>()}});
    let r = w.exec(&addr("relayer"), &prover, &m, &[]);
    ensure!(r.is_ok(), "proof construction rejected: {r:?}");
    let digest = w
        .mock_log(&ms)
        .iter()
        .filter_map(|r| r.json()["start_signing_session"]["msg"].as_str().map(|x| x.to_string()))
        .last()
        .unwrap_or_default();
    let hash = hex::decode(&digest).unwrap_or_default();
    ensure!(hash.len() == 32, "message to sign: {digest:?}");
    let signers: Vec<Value> = order
        .iter()
        .map(|i| {
            let (k, wt) = &ks[*i];
            let sig = if signed.contains(i) {
                let s = keys::sign(k.0, &hash);
                let s = if src.chance(1, 6) { keys::high_s(&s) } else { s };
                json!({"ecdsa": hexs(&s)})
            } else {
                Value::Null
            };
            json!([{"address": format!("worker{i}"), "weight": wt.to_string(), "pub_key": {"ecdsa": hexs(&pk_bytes(k))}}, sig])
        })
        .collect();
    *state.lock().unwrap() =
        json!({"state": {"completed": {"completed_at": 5}}, "quorum": quorum.to_string(), "signers": signers});
    src.note(|| format!("abi {abi} weights {:?} signed {signed:?} quorum {quorum}", ks.iter().map(|k| k.1).collect::<Vec<_>>()));
    let p: Result<Value, _> = w.query(&prover, &json!({"get_proof": {"multisig_session_id": "77"}}));
    ensure!(p.is_ok(), "proof query: {p:?}");
    let p = p.unwrap();
    let Some(x) = p["status"]["completed"]["execute_data"].as_str() else {
        return fail(format!("status {}", p["status"]));
    };
    let mut ops: Vec<(Vec<u8>, String)> = ks
        .iter()
        .map(|(k, wt)| (if abi { keys::key(k.0).eth.to_vec() } else { pk_bytes(k) }, wt.to_string()))
        .collect();
    ops.sort();
    let ops = wire::Ops {
        ops,
        threshold: quorum.to_string(),
    };
    if signed.len() > 1 && signed.len() < n {
        src.nontrivial();
    }
    src.class("weighted_proof");
    match check_execute(abi, &hex::decode(x).unwrap_or_default(), &p["data"], &digest, &ops) {
        Ok(()) => Ok(()),
        Err(e) => fail(e),
    }
}
fn c15_weighted(src: &mut Src) -> R {
    weighted(src, true)
}
fn c16_weighted(src: &mut Src) -> R {
    weighted(src, false)
}

pub const SHARED: &str = "workers-share-a-public-key";

/// a worker may register the public key of another one: the operators of the destination gateway
/// then contain the same address twice
fn shared_key(abi: bool) -> R {
    let mut src = Src::replay(vec![], false);
    let mut s = Sys::new(&mut src, 0, abi);
    let ms = s.ms.clone();
    let pk = pk_bytes(&(0, false));
    for who in ["worker0", "worker1"] {
        let m = json!({"register_public_key": {"public_key": {"ecdsa": hexs(&pk)}}});
        if s.w.exec(&addr(who), &ms, &m, &[]).is_err() {
            return Ok(());
        }
    }
    *s.active.lock().unwrap() = vec!["worker0".into(), "worker1".into()];
    let id = ("polygon".to_string(), "0xaa:1".to_string());
    let m = Message {
        cc_id: connection_router::state::CrossChainId { chain: "polygon".parse().unwrap(), id: id.1.parse().unwrap() },
        source_address: "0x01".parse().unwrap(),
        destination_chain: DEST.parse().unwrap(),
        destination_address: format!("0x{}", "02".repeat(if abi { 20 } else { 32 })).parse().unwrap(),
        payload_hash: [1; 32],
    };
    s.stored.lock().unwrap().insert(id_json(&id).to_string(), msg_json(&m));
    if s.exec("admin", &json!("update_worker_set")).is_err() {
        return Ok(());
    }
    let Ok(r) = s.exec("relayer", &json!({"construct_proof": {"message_ids": [id_json(&id)]}})) else { return Ok(()) };
    let digest = events(&r, &ms, "signing_started").first().and_then(|e| attr(e, "msg")).unwrap_or("").to_string();
    let sig = hexs(&keys::sign(0, &hex::decode(digest).unwrap_or_default()));
    for who in ["worker0", "worker1"] {
        let m = json!({"submit_signature": {"session_id": "1", "signature": sig}});
        let _ = s.w.exec(&addr(who), &ms, &m, &[]);
    }
    let p = s.get_proof(1)?;
    let Some(x) = p["status"]["completed"]["execute_data"].as_str() else { return Ok(()) };
    let (_, proof) = wire::execute(abi, &hex::decode(x).unwrap()).map_err(|e| Fail { msg: e, sig: None })?;
    if proof.ops.ops.windows(2).any(|w| w[0].0 >= w[1].0) {
        return fail_sig(SHARED, "the proof lists the operators of two workers with the same public key twice, and one signature counts for both");
    }
    Ok(())
}
fn c15_shared() -> R {
    shared_key(true)
}
fn c16_shared() -> R {
    shared_key(false)
}

pub fn checks() -> Vec<Check> {
    const A: &[&str] = &[
        "cw-multi-test 0.15.1 stands for the chain; gateway, service registry and voting verifier are programmable contracts, the multisig contract is real",
        "distinct workers register distinct, valid secp256k1 keys",
    ];
    vec![
        Check {
            id: "C15",
            rule: "histories of proof constructions, worker set updates, confirmations, registry and key changes and signatures (also high-S) on an ABI prover with the real multisig contract, plus proofs of weighted signers with arbitrary quorums; data, hash and proof are read by an independent ABI decoder and signatures recovered. Non-trivial: a completed proof of several messages by several operators (histories), some but not all of several operators signed (weighted)",
            assumptions: A,
            subs: vec![
                Sub { name: "history", f: c15, quick: 7_500, thorough: 200_000 },
                Sub { name: "weighted", f: c15_weighted, quick: 9_000, thorough: 200_000 },
            ],
            known: vec![(SHARED, c15_shared)],
        },
        Check {
            id: "C16",
            rule: "as C15, on a BCS prover with an independent BCS decoder",
            assumptions: A,
            subs: vec![
                Sub { name: "history", f: c16, quick: 7_500, thorough: 200_000 },
                Sub { name: "weighted", f: c16_weighted, quick: 9_000, thorough: 200_000 },
            ],
            known: vec![(SHARED, c16_shared)],
        },
        Check {
            id: "C17",
            rule: "histories with many proof requests for new, repeated, reordered and overlapping sets of ids (ids built from other ids and the separators), unknown ids and messages for other chains; sessions are compared with the requests at once and again at the end. Non-trivial: at least three sessions",
            assumptions: A,
            subs: vec![
                Sub { name: "history", f: c17, quick: 10_000, thorough: 400_000 },
                Sub { name: "rotations", f: c17_rotations, quick: 8_000, thorough: 300_000 },
            ],
            known: vec![],
        },
        Check {
            id: "C18",
            rule: "histories with many worker set updates and confirmations, registry and key changes, thresholds and near-miss confirmations against a model of current and pending worker set. Non-trivial: a rotation was confirmed",
            assumptions: A,
            subs: vec![Sub { name: "history", f: c18, quick: 8_000, thorough: 400_000 }],
            known: vec![],
        },
        Check {
            id: "C19",
            rule: "rotation histories in which the verifier's answer depends on the exact operators (near misses in address, weight, threshold); polls about worker sets on the real voting verifier; identity of operator lists under permutation and single changes. Non-trivial: a rotation was confirmed / a worker set was polled / the order changed",
            assumptions: A,
            subs: vec![
                Sub { name: "prover", f: c19, quick: 9_000, thorough: 300_000 },
                Sub { name: "verifier", f: voting::c19_verifier, quick: 18_000, thorough: 400_000 },
                Sub { name: "identity", f: c19_identity, quick: 120_000, thorough: 3_000_000 },
            ],
            known: vec![],
        },
    ]
}
