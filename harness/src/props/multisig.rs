//! C11-C14: the multisig contract against a reference model of signing sessions.
use crate::engine::*;
use crate::util::app::*;
use crate::util::gen::*;
use crate::util::keys;
use cosmwasm_std::{Addr, HexBinary, Uint128, Uint256};
use multisig::key::{KeyType, PublicKey};
use multisig::msg::{InstantiateMsg, Signer};
use multisig::worker_set::WorkerSet;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const C11: u8 = 1;
const C12: u8 = 2;
const C13: u8 = 4;
const C14: u8 = 8;
const C38: u8 = 16;

const WORKERS: &[&str] = &["worker0", "worker1", "worker2", "worker3", "worker4", "worker5"];
const CALLERS: &[&str] = &["caller0", "caller1", "caller2"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kt {
    Ecdsa(usize, bool),
    Ed(usize),
}
impl Kt {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Kt::Ecdsa(i, true) => keys::key(*i).compressed.clone(),
            Kt::Ecdsa(i, false) => keys::key(*i).uncompressed.clone(),
            Kt::Ed(i) => keys::key(*i).ed_pk.to_vec(),
        }
    }
    fn ty(&self) -> &'static str {
        match self {
            Kt::Ecdsa(..) => "ecdsa",
            Kt::Ed(_) => "ed25519",
        }
    }
    /// the same private key and type (whatever the encoding of the public key)
    fn same(&self, o: &Kt) -> bool {
        match (self, o) {
            (Kt::Ecdsa(a, _), Kt::Ecdsa(b, _)) | (Kt::Ed(a), Kt::Ed(b)) => a == b,
            _ => false,
        }
    }
    fn json(&self) -> Value {
        json!({self.ty(): hexs(&self.bytes())})
    }
    fn pk(&self) -> PublicKey {
        let t = match self {
            Kt::Ecdsa(..) => KeyType::Ecdsa,
            Kt::Ed(_) => KeyType::Ed25519,
        };
        PublicKey::try_from((t, HexBinary::from(self.bytes()))).expect("valid key")
    }
    fn sign(&self, msg: &[u8]) -> Vec<u8> {
        match self {
            Kt::Ecdsa(i, _) => keys::sign(*i, msg),
            Kt::Ed(i) => keys::sign_ed(*i, msg),
        }
    }
    fn verify(&self, msg: &[u8], sig: &[u8]) -> bool {
        match self {
            Kt::Ecdsa(..) => keys::verify(&self.bytes(), msg, sig),
            Kt::Ed(_) => keys::verify_ed(&self.bytes(), msg, sig),
        }
    }
}
fn any_key(src: &mut Src) -> Kt {
    let i = src.idx(12);
    match src.weighted(&[3, 2, 2]) {
        0 => Kt::Ecdsa(i, true),
        1 => Kt::Ed(i),
        _ => Kt::Ecdsa(i, false),
    }
}

#[derive(Clone)]
struct Ws {
    id: String,
    set: WorkerSet,
    members: BTreeMap<String, (Kt, Uint256)>,
    threshold: Uint256,
    registered: bool,
}
#[derive(Clone)]
struct Session {
    id: String,
    ws: usize,
    msg: Vec<u8>,
    sigs: BTreeMap<String, Vec<u8>>,
    completed_at: Option<u64>,
}
struct Sys {
    focus: u8,
    w: World,
    ms: Addr,
    gov: Addr,
    rewards: Addr,
    grace: u64,
    sets: Vec<Ws>,
    sessions: Vec<Session>,
    authorized: BTreeSet<String>,
    pub_keys: BTreeMap<(String, &'static str), Vec<u8>>,
    seen_rewards: usize,
}

fn gen_set(src: &mut Src, prev: &[Ws]) -> Ws {
    let mut members: BTreeMap<String, (Kt, Uint256)> = BTreeMap::new();
    let mut threshold;
    let mut created_at = src.below(3);
    if !prev.is_empty() && src.chance(1, 2) {
        // near copy: differs in one detail
        let b = &prev[src.idx(prev.len())];
        members = b.members.clone();
        threshold = b.threshold;
        created_at = b.set.created_at;
        let names: Vec<String> = members.keys().cloned().collect();
        match src.below(5) {
            0 => created_at += 1,
            1 => threshold += Uint256::one(),
            2 => {
                let n = src.pick(&names).clone();
                members.get_mut(&n).unwrap().1 += Uint256::one();
            }
            3 => {
                let n = src.pick(&names).clone();
                members.get_mut(&n).unwrap().0 = any_key(src);
            }
            _ => {
                let n = src.pick(WORKERS).to_string();
                members.insert(n, (any_key(src), Uint256::one()));
            }
        }
    } else {
        let n = src.size(WORKERS.len(), 70);
        let big = if src.chance(1, 4) { 1 + src.below(2) } else { 0 };
        let mut names: Vec<String> = (0..n.max(WORKERS.len())).map(|i| format!("worker{i}")).collect();
        src.shuffle(&mut names);
        for a in &names[..n] {
            let w = match big {
                0 => Uint256::from(1 + src.below(5)),
                _ => Uint256::from((src.u128_any() >> 8).max(1)),
            };
            // beyond 128 bits, some of them
            let w = if big == 2 && src.bool() { w * Uint256::from(1u128 << src.below(120)) } else { w };
            let k = any_key(src);
            members.insert(a.to_string(), (k, w));
        }
        let total: Uint256 = members.values().map(|m| m.1).sum();
        let (one, two) = (Uint256::one(), Uint256::from(2u8));
        threshold = match src.below(4) {
            0 => total,
            1 => total / two + one,
            2 => one + Uint256::from(src.below(Uint128::try_from(total).map_or(u64::MAX, |t| t.u128().min(u64::MAX as u128) as u64))),
            _ => (total * two + two) / Uint256::from(3u8),
        };
        if src.chance(1, 25) {
            threshold = total + one;
        }
    }
    let set = WorkerSet {
        signers: members
            .iter()
            .map(|(a, (k, w))| {
                (
                    a.clone(),
                    Signer {
                        address: Addr::unchecked(a),
                        weight: *w,
                        pub_key: k.pk(),
                    },
                )
            })
            .collect(),
        threshold,
        created_at,
    };
    Ws {
        id: set.id(),
        set,
        members,
        threshold,
        registered: false,
    }
}

fn ws_json(w: &Ws) -> Value {
    let signers: serde_json::Map<String, Value> = w
        .members
        .iter()
        .map(|(a, (k, wt))| (a.clone(), json!({"address": a, "weight": wt.to_string(), "pub_key": k.json()})))
        .collect();
    json!({"signers": signers, "threshold": w.threshold.to_string(), "created_at": w.set.created_at})
}

impl Sys {
    fn new(src: &mut Src, focus: u8) -> Sys {
        let mut w = World::new();
        let (rewards, _) = w.mock();
        let gov = addr("governance");
        let grace = match src.below(8) {
            0 => 0,
            1 => u64::MAX - src.below(20_000),
            _ => src.below(6),
        };
        let ms = w
            .instantiate(
                w_multisig(),
                &InstantiateMsg {
                    governance_address: gov.to_string(),
                    rewards_address: rewards.to_string(),
                    grace_period: grace,
                },
                "multisig",
            )
            .expect("multisig instantiates");
        src.note(|| format!("multisig with grace period {grace}"));
        Sys {
            focus,
            w,
            ms,
            gov,
            rewards,
            grace,
            sets: vec![],
            sessions: vec![],
            authorized: BTreeSet::new(),
            pub_keys: BTreeMap::new(),
            seen_rewards: 0,
        }
    }
    fn exec(&mut self, sender: &str, msg: &Value) -> Result<cw_multi_test::AppResponse, String> {
        let ms = self.ms.clone();
        self.w.exec(&addr(sender), &ms, msg, &[])
    }

    fn check_all(&mut self) -> R {
        for s in self.sessions.clone() {
            let r: Result<Value, _> = self.w.query(&self.ms, &json!({"get_multisig": {"session_id": s.id}}));
            let r = match r {
                Ok(r) => r,
                Err(e) => {
                    own!(self, C11 | C12 | C13, false, "session {} cannot be queried: {e}", s.id);
                    unreachable!()
                }
            };
            let ws = self.sets[s.ws].clone();
            let state = match s.completed_at {
                None => json!("pending"),
                Some(h) => json!({"completed": {"completed_at": h}}),
            };
            own!(
                self,
                C12,
                r["state"] == state,
                "session {} is {}, expected {state} (signed {:?} of {:?}, threshold {})",
                s.id,
                r["state"],
                s.sigs.keys().collect::<Vec<_>>(),
                ws.members.iter().map(|(a, m)| (a, m.1)).collect::<Vec<_>>(),
                ws.threshold
            );
            own!(self, C12 | C13, r["quorum"] == json!(ws.threshold.to_string()), "quorum of session {}: {}", s.id, r["quorum"]);
            let mut got: BTreeMap<String, Value> = BTreeMap::new();
            let empty = vec![];
            let list = r["signers"].as_array().unwrap_or(&empty);
            for p in list {
                got.insert(p[0]["address"].as_str().unwrap_or("").to_string(), p.clone());
            }
            own!(self, C11 | C13, got.len() == list.len(), "duplicate signers in session {}", s.id);
            let exp: BTreeMap<String, Value> = ws
                .members
                .iter()
                .map(|(a, (k, w))| {
                    let sig = match s.sigs.get(a) {
                        None => Value::Null,
                        Some(b) => json!({k.ty(): hexs(b)}),
                    };
                    (a.clone(), json!([{"address": a, "weight": w.to_string(), "pub_key": k.json()}, sig]))
                })
                .collect();
            own!(self, C11 | C13, got == exp, "session {} reports {got:?}, expected {exp:?}", s.id);
        }
        Ok(())
    }
    fn check_keys_and_sets(&mut self) -> R {
        for a in WORKERS {
            for ty in ["ecdsa", "ed25519"] {
                let r: Result<Value, _> = self.w.query(
                    &self.ms,
                    &json!({"get_public_key": {"worker_address": a, "key_type": ty}}),
                );
                match self.pub_keys.get(&(a.to_string(), ty)) {
                    None => own!(self, C14, r.is_err(), "{a} has a {ty} key {r:?} but registered none"),
                    Some(k) => {
                        let e = json!({ty: hexs(k)});
                        own!(self, C14, r == Ok(e.clone()), "{ty} key of {a}: {r:?}, expected {e}");
                    }
                }
            }
        }
        for ws in self.sets.clone() {
            let r: Result<Value, _> = self.w.query(&self.ms, &json!({"get_worker_set": {"worker_set_id": ws.id}}));
            if ws.registered {
                let e = ws_json(&ws);
                own!(self, C14, r == Ok(e.clone()), "worker set {}: {r:?}, expected {e}", ws.id);
            } else {
                own!(self, C14, r.is_err(), "unregistered worker set {} found: {r:?}", ws.id);
            }
        }
        Ok(())
    }
    /// returns the participation reports since the last call
    fn new_rewards(&mut self) -> Vec<(Addr, Value)> {
        let log = self.w.mock_log(&self.rewards);
        let v = log[self.seen_rewards..].iter().map(|r| (r.sender.clone(), r.json())).collect();
        self.seen_rewards = log.len();
        v
    }

    fn register_set(&mut self, src: &mut Src, i: usize) -> R {
        let m = json!({"register_worker_set": {"worker_set": ws_json(&self.sets[i])}});
        let r = self.exec("anyone", &m);
        src.note(|| format!("register worker set #{i} {} -> {}", &self.sets[i].id[..6], r.is_ok()));
        own!(self, C14, r.is_ok(), "worker set rejected: {r:?}");
        self.sets[i].registered = true;
        Ok(())
    }

    fn start(&mut self, src: &mut Src) -> R {
        let sender = if self.authorized.len() > 0 && self.focus != C13 && src.chance(9, 10) {
            let v: Vec<String> = self.authorized.iter().cloned().collect();
            src.pick(&v).clone()
        } else if src.chance(1, 12) {
            src.pick(&["governance", "worker0", "anyone"]).to_string()
        } else {
            src.pick(CALLERS).to_string()
        };
        let known = !self.sets.is_empty() && !src.chance(1, 15);
        let (ws, id) = if known {
            let reg: Vec<usize> = (0..self.sets.len()).filter(|i| self.sets[*i].registered).collect();
            let i = if !reg.is_empty() && src.chance(5, 6) { *src.pick(&reg) } else { src.idx(self.sets.len()) };
            (Some(i), self.sets[i].id.clone())
        } else {
            (None, src.pick(&["", "00", "zz"]).to_string())
        };
        let len = match src.below(16) {
            0 => 31,
            1 => 33,
            2 => src.idx(3),
            3 => 64,
            _ => 32,
        };
        let msg = if len == 32 { src.bytes32().to_vec() } else { src.bytes(len) };
        let chain = *src.pick(CHAINS);
        let before = self.w.dump(&self.ms);
        let r = self.exec(
            &sender,
            &json!({"start_signing_session": {"worker_set_id": id, "msg": hexs(&msg), "chain_name": chain, "sig_verifier": null}}),
        );
        let ok_set = ws.map(|i| self.sets[i].registered).unwrap_or(false);
        let ok = ok_set && len == 32 && self.authorized.contains(&sender);
        src.note(|| {
            format!("{sender} starts a session for set {ws:?} over {len} bytes -> {}", if r.is_ok() { "ok" } else { "rejected" })
        });
        match r {
            Err(e) => {
                own!(self, C13, !ok, "valid session request rejected: {e}");
                own!(self, C13, self.w.dump(&self.ms) == before, "a rejected session request changed the state");
                src.class("start_rejected");
                if ok_set && len == 32 {
                    src.class("start_unauthorized");
                }
            }
            Ok(r) => {
                own!(self, C13, ok, "{sender} opened a session (authorized: {}, set registered: {ok_set}, {len} bytes)",
                    self.authorized.contains(&sender));
                let ws = ws.unwrap();
                let evs = events(&r, &self.ms, "signing_started");
                own!(self, C13, evs.len() == 1, "{} signing_started events", evs.len());
                let e = evs[0];
                let Some(sid) = attr(e, "session_id").map(|s| s.to_string()) else {
                    own!(self, C13, false, "signing_started without a session id: {e:?}");
                    unreachable!()
                };
                own!(self, C12 | C13, self.sessions.iter().all(|s| s.id != sid), "session id {sid} reused");
                own!(self, C13, attr(e, "worker_set_id") == Some(&id), "worker set in {e:?}");
                own!(self, C13, attr(e, "msg") == Some(&hexs(&msg)), "message in {e:?}");
                own!(self, C13, attr(e, "chain") == Some(chain), "chain in {e:?}");
                let pk: Value = attr(e, "pub_keys").and_then(|s| serde_json::from_str(s).ok()).unwrap_or(Value::Null);
                let exp: serde_json::Map<String, Value> =
                    self.sets[ws].members.iter().map(|(a, (k, _))| (a.clone(), k.json())).collect();
                own!(self, C13, pk == Value::Object(exp.clone()), "event announces keys {pk}, expected {exp:?}");
                let data: Option<String> = r.data.as_ref().and_then(|d| cosmwasm_std::from_binary(d).ok());
                own!(self, C13, data == Some(sid.clone()), "response data {data:?}, session {sid}");
                self.sessions.push(Session {
                    id: sid,
                    ws,
                    msg,
                    sigs: BTreeMap::new(),
                    completed_at: None,
                });
                src.class("session");
            }
        }
        Ok(())
    }

    fn submit(&mut self, src: &mut Src, si: usize, who: &str) -> R {
        let s = self.sessions[si].clone();
        let ws = self.sets[s.ws].clone();
        let member = ws.members.get(who).cloned();
        let key = member.map(|m| m.0).unwrap_or(Kt::Ecdsa(0, true));
        let kind = src.weighted(&[12, 1, 1, 1, 1, 1, 1, 1]);
        let (sig, valid) = match kind {
            0 => (key.sign(&s.msg), Some(true)),
            1 => {
                // over another message (maybe of another session)
                let mut m = self.sessions[src.idx(self.sessions.len())].msg.clone();
                if m == s.msg {
                    m[31] ^= 1;
                }
                (key.sign(&m), Some(false))
            }
            2 => {
                // by another key of the same type
                let other = match key {
                    Kt::Ecdsa(i, c) => Kt::Ecdsa(i + 1, c),
                    Kt::Ed(i) => Kt::Ed(i + 1),
                };
                (other.sign(&s.msg), Some(false))
            }
            3 => {
                // the other key type
                let other = match key {
                    Kt::Ecdsa(i, _) => Kt::Ed(i),
                    Kt::Ed(i) => Kt::Ecdsa(i, true),
                };
                (other.sign(&s.msg), Some(false))
            }
            4 => {
                let mut b = key.sign(&s.msg);
                let i = src.idx(b.len());
                b[i] ^= 1 << src.below(8);
                (b, Some(false))
            }
            5 => {
                // wrong length; 65 bytes with a recovery byte may be accepted if it is genuine
                let mut b = key.sign(&s.msg);
                match src.below(4) {
                    0 => {
                        b.pop();
                    }
                    1 => b.push(src.below(4) as u8),
                    2 => b.extend([0u8; 2]),
                    _ => b.clear(),
                }
                let v = if b.len() == 65 && matches!(key, Kt::Ecdsa(..)) { None } else { Some(false) };
                (b, v)
            }
            6 => match key {
                // the high-S form is mathematically valid: both answers are fine here
                Kt::Ecdsa(..) => (keys::high_s(&key.sign(&s.msg)), None),
                Kt::Ed(_) => (key.sign(&s.msg), Some(true)),
            },
            _ => {
                // a signature that someone else already submitted
                match s.sigs.iter().find(|(a, _)| a.as_str() != who) {
                    Some((a, b)) if !ws.members[a].0.same(&key) => (b.clone(), Some(false)),
                    _ => (vec![0; 64], Some(false)),
                }
            }
        };
        let before = self.w.dump(&self.ms);
        let r = self.exec(who, &json!({"submit_signature": {"session_id": s.id, "signature": hexs(&sig)}}));
        let h = self.w.height();
        let open = match s.completed_at {
            None => true,
            Some(c) => (h as u128) <= c as u128 + self.grace as u128,
        };
        let fresh = !s.sigs.contains_key(who);
        let base_ok = member.is_some() && fresh;
        src.note(|| {
            format!(
                "h{h} {who} signs session {} (kind {kind}, member {}, fresh {fresh}, open {open}) -> {}",
                s.id,
                member.is_some(),
                if r.is_ok() { "ok" } else { "rejected" }
            )
        });
        let rewards = self.new_rewards();
        match r {
            Err(e) => {
                let should = base_ok && valid == Some(true);
                own!(self, C11 | C12, !(should && open), "valid signature of {who} rejected: {e}");
                own!(self, C11, self.w.dump(&self.ms) == before, "a rejected signature changed the state");
                own!(self, C11, rewards.is_empty(), "participation reported for a rejected signature");
                src.class(if should { "late_rejected" } else { "rejected" });
                if !open && should {
                    src.nontrivial();
                }
            }
            Ok(r) => {
                own!(self, C11, base_ok, "{who} signed session {}: member {}, first signature {fresh}", s.id, member.is_some());
                own!(self, C11, valid != Some(false) && key.verify(&s.msg, sig.get(..64).unwrap_or(&[])),
                    "a bad signature of {who} was accepted (kind {kind})");
                own!(self, C12, open, "signature accepted at {h}, completed at {:?}, grace {}", s.completed_at, self.grace);
                if sig.len() != 64 {
                    return abandon();
                }
                let ok = rewards.len() == 1
                    && rewards[0].0 == self.ms
                    && rewards[0].1 == json!({"record_participation": {"event_id": s.id, "worker_address": who}});
                own!(self, C11, ok, "participation reports after a signature: {rewards:?}");
                let ses = &mut self.sessions[si];
                ses.sigs.insert(who.to_string(), sig.clone());
                let weight: Uint256 = ses.sigs.keys().map(|a| ws.members[a].1).sum();
                let reached = ses.completed_at.is_none() && weight >= ws.threshold;
                if reached {
                    ses.completed_at = Some(h);
                    src.class("completed");
                    src.nontrivial();
                } else if ses.completed_at.is_some() {
                    src.class("signed_in_grace");
                }
                let done = events(&r, &self.ms, "signing_completed");
                own!(self, C12, done.len() == reached as usize, "{} signing_completed events, expected {}", done.len(), reached as u8);
                if reached {
                    own!(self, C12, attr(done[0], "session_id") == Some(&s.id), "session in {:?}", done[0]);
                    own!(self, C12, attr(done[0], "completed_at") == Some(&h.to_string()), "height in {:?}", done[0]);
                }
                let sub = events(&r, &self.ms, "signature_submitted");
                own!(self, C11, sub.len() == 1
                    && attr(sub[0], "session_id") == Some(&s.id)
                    && attr(sub[0], "participant") == Some(who)
                    && attr(sub[0], "signature") == Some(&hexs(&sig)), "signature_submitted events {sub:?}");
                src.class("signature");
            }
        }
        Ok(())
    }
    fn authorize(&mut self, src: &mut Src) -> R {
        let grant = src.chance(3, 5);
        let sender = if src.chance(3, 4) {
            self.gov.to_string()
        } else {
            src.pick(&["caller0", "anyone", "deployer"]).to_string()
        };
        let who = src.pick(CALLERS).to_string();
        let before = self.w.dump(&self.ms);
        let verb = if grant { "authorize_caller" } else { "unauthorize_caller" };
        let r = self.exec(&sender, &json!({verb: {"contract_address": who}}));
        let ok = sender == self.gov.as_str();
        src.note(|| format!("{sender}: {verb} {who} -> {}", r.is_ok()));
        own!(self, C13, r.is_ok() == ok, "{verb} by {sender}: {r:?}");
        if ok {
            if grant {
                self.authorized.insert(who);
            } else {
                self.authorized.remove(&who);
                src.class("revoked");
            }
        } else {
            own!(self, C13, self.w.dump(&self.ms) == before, "a rejected {verb} changed the state");
        }
        Ok(())
    }
    fn register_key(&mut self, src: &mut Src) -> R {
        let who = src.pick(WORKERS).to_string();
        let k = any_key(src);
        let (mut bytes, ty) = (k.bytes(), k.ty());
        if src.chance(1, 4) {
            match src.below(4) {
                0 => {
                    bytes.pop();
                }
                1 => bytes.push(1),
                2 => bytes.clear(),
                _ => bytes = src.bytes(if ty == "ecdsa" { 32 } else { 33 }),
            }
        }
        let valid = match ty {
            "ecdsa" => bytes.len() == 33 || bytes.len() == 65,
            _ => bytes.len() == 32,
        };
        let before = self.w.dump(&self.ms);
        let r = self.exec(&who, &json!({"register_public_key": {"public_key": {ty: hexs(&bytes)}}}));
        src.note(|| format!("{who} registers {ty} key of {} bytes -> {}", bytes.len(), r.is_ok()));
        own!(self, C14, r.is_ok() == valid, "{ty} key with {} bytes: {r:?}", bytes.len());
        if valid {
            if self.pub_keys.insert((who, ty), bytes).is_some() {
                src.class("key_replaced");
            }
        } else {
            own!(self, C14, self.w.dump(&self.ms) == before, "a rejected key changed the state");
            src.class("key_rejected");
        }
        Ok(())
    }
}

fn history(src: &mut Src, focus: u8) -> R {
    let mut s = Sys::new(src, focus);
    history_on(src, &mut s)
}
fn history_on(src: &mut Src, s: &mut Sys) -> R {
    let focus = s.focus;
    let n = 1 + src.idx(4);
    for _ in 0..n {
        let ws = src.span(|src| gen_set(src, &s.sets));
        if s.sets.iter().all(|o| ws_json(o) != ws_json(&ws)) {
            own!(s, C14, s.sets.iter().all(|o| o.id != ws.id), "two different worker sets share the id {}", ws.id);
            s.sets.push(ws);
        }
    }
    let w: &[u64] = if focus == C14 {
        &[2, 4, 1, 2, 1, 8]
    } else if focus == C13 {
        &[8, 5, 2, 1, 6, 1]
    } else if focus == C38 {
        &[4, 10, 3, 1, 3, 4]
    } else {
        &[3, 14, 4, 1, 1, 0]
    };
    if focus != C13 || src.chance(2, 3) {
        let g = s.gov.to_string();
        let _ = s.exec(&g, &json!({"authorize_caller": {"contract_address": "caller0"}}));
        s.authorized.insert("caller0".into());
        for i in 0..s.sets.len() {
            if i == 0 || src.chance(3, 4) {
                s.register_set(src, i)?;
            }
        }
    }
    let mut recent = 3;
    if src.chance(1, 60) {
        // many sessions
        recent = if src.chance(1, 6) { 250 + src.idx(20) } else { 8 + src.idx(20) };
        for _ in 0..recent {
            s.start(src)?;
        }
        src.class("many_sessions");
    }
    src.repeat(1, 40, 14, |src, _| {
        match src.weighted(w) {
            0 => s.start(src)?,
            1 => {
                if s.sessions.is_empty() {
                    s.start(src)?;
                } else {
                    let i = s.sessions.len() - 1 - src.idx(s.sessions.len().min(recent));
                    let all = s.sets[s.sessions[i].ws].members.len();
                    let k = 1 + src.idx(if all > 6 { all } else { 3 });
                    for _ in 0..k {
                        let ses = &s.sessions[i];
                        let left: Vec<String> =
                            s.sets[ses.ws].members.keys().filter(|a| !ses.sigs.contains_key(*a)).cloned().collect();
                        let who = if src.chance(1, 20) {
                            "anyone".to_string()
                        } else if !left.is_empty() && src.chance(2, 3) {
                            src.pick(&left).clone()
                        } else {
                            src.pick(WORKERS).to_string()
                        };
                        let who = who.as_str();
                        s.submit(src, i, who)?;
                    }
                }
            }
            2 => {
                let d = 1 + src.below(if s.grace < 100 { s.grace + 2 } else { 5 });
                s.w.advance(d, d * 5);
            }
            3 => {
                let i = src.idx(s.sets.len());
                s.register_set(src, i)?;
            }
            4 => s.authorize(src)?,
            _ => {
                s.register_key(src)?;
                if focus == C14 {
                    src.nontrivial();
                }
            }
        }
        if focus == C13 && !s.sessions.is_empty() {
            src.nontrivial();
        }
        s.check_all()?;
        if focus & C14 != 0 {
            s.check_keys_and_sets()?;
        }
        Ok(())
    })
}
/// C38: sessions, keys and permissions follow from the events alone
pub fn c38_multisig(src: &mut Src) -> R {
    let mut s = Sys::new(src, C38);
    s.w.record = true;
    let r = history_on(src, &mut s);
    // (worker set, keys, signatures, completed at)
    type Ses = (String, Value, BTreeMap<String, String>, Option<String>);
    let mut ses: BTreeMap<String, Ses> = BTreeMap::new();
    let mut keys: BTreeMap<(String, String), Value> = BTreeMap::new();
    let mut callers: BTreeSet<String> = BTreeSet::new();
    use super::events::{parsed, plain};
    for tx in s.w.log.iter().filter(|t| t.contract == s.ms) {
        for e in events(&tx.res, &s.ms, "signing_started") {
            let old = ses.insert(plain(e, "session_id"), (plain(e, "worker_set_id"), parsed(e, "pub_keys"), BTreeMap::new(), None));
            ensure!(old.is_none(), "session announced twice: {e:?}");
            let want = &tx.msg["start_signing_session"];
            ensure!(want["msg"] == json!(plain(e, "msg")) && want["chain_name"] == json!(plain(e, "chain")),
                "{want} announced as {e:?}");
        }
        for e in events(&tx.res, &s.ms, "signature_submitted") {
            match ses.get_mut(&plain(e, "session_id")) {
                Some(x) => {
                    let old = x.2.insert(plain(e, "participant"), plain(e, "signature"));
                    ensure!(old.is_none(), "signature announced twice: {e:?}");
                }
                None => return fail(format!("signature for a session that was never announced: {e:?}")),
            }
        }
        for e in events(&tx.res, &s.ms, "signing_completed") {
            match ses.get_mut(&plain(e, "session_id")) {
                Some(x) => {
                    ensure!(x.3.is_none(), "completion announced twice: {e:?}");
                    x.3 = Some(plain(e, "completed_at"));
                    src.class("completed");
                }
                None => return fail(format!("completion of a session that was never announced: {e:?}")),
            }
        }
        for e in events(&tx.res, &s.ms, "public_key_registered") {
            let k = parsed(e, "public_key");
            let Some(ty) = k.as_object().and_then(|o| o.keys().next().cloned()) else {
                return fail(format!("registration without a key: {e:?}"));
            };
            keys.insert((plain(e, "worker"), ty), k);
            src.class("key_registered");
        }
        for e in events(&tx.res, &s.ms, "caller_authorized") {
            callers.insert(plain(e, "contract_address"));
        }
        for e in events(&tx.res, &s.ms, "caller_unauthorized") {
            callers.remove(&plain(e, "contract_address"));
            src.class("caller_removed");
        }
    }
    for (id, (set, pks, sigs, done)) in &ses {
        let r: Result<Value, _> = s.w.query(&s.ms, &json!({"get_multisig": {"session_id": id}}));
        let Ok(m) = r else { return fail(format!("announced session {id:?} cannot be queried: {r:?}")) };
        let state = match done {
            None => json!("pending"),
            Some(h) => json!({"completed": {"completed_at": h.parse::<u64>().ok()}}),
        };
        ensure_eq!(m["state"], state, "state of session {id} and the announced one");
        let mut got_keys = serde_json::Map::new();
        let mut got_sigs = BTreeMap::new();
        for p in m["signers"].as_array().unwrap_or(&vec![]) {
            let a = p[0]["address"].as_str().unwrap_or("").to_string();
            got_keys.insert(a.clone(), p[0]["pub_key"].clone());
            if let Some(o) = p[1].as_object() {
                got_sigs.insert(a, o.values().next().and_then(|x| x.as_str()).unwrap_or("").to_string());
            }
        }
        ensure_eq!(Value::Object(got_keys), *pks, "keys of session {id} and the announced ones");
        ensure_eq!(got_sigs, *sigs, "signatures of session {id} and the announced ones");
        let ws: Result<Value, _> = s.w.query(&s.ms, &json!({"get_worker_set": {"worker_set_id": set}}));
        let Ok(ws) = ws else { return fail(format!("worker set {set:?} announced for session {id} is unknown")) };
        ensure_eq!(ws["threshold"], m["quorum"], "threshold of the announced worker set and quorum of session {id}");
        src.nontrivial();
    }
    for a in WORKERS {
        for ty in ["ecdsa", "ed25519"] {
            let r: Result<Value, String> =
                s.w.query(&s.ms, &json!({"get_public_key": {"worker_address": a, "key_type": ty}}));
            ensure_eq!(r.ok(), keys.get(&(a.to_string(), ty.to_string())).cloned(), "{ty} key of {a} and the announced one");
        }
    }
    // who may open sessions
    if let Some(i) = (0..s.sets.len()).find(|i| s.sets[*i].registered) {
        for c in CALLERS {
            let r = s.exec(
                c,
                &json!({"start_signing_session": {"worker_set_id": s.sets[i].id, "msg": hexs(&[7; 32]), "chain_name": "a", "sig_verifier": null}}),
            );
            ensure_eq!(r.is_ok(), callers.contains(*c), "{c} may open a session, and the announced permissions {callers:?}");
            if let Ok(r) = r {
                let id = events(&r, &s.ms, "signing_started").first().and_then(|e| attr(e, "session_id")).unwrap_or("").to_string();
                ensure!(!ses.contains_key(&id), "session {id} announced twice");
            }
        }
    }
    r.or_else(|_| abandon())
}

fn c11(src: &mut Src) -> R {
    history(src, C11)
}
fn c12(src: &mut Src) -> R {
    history(src, C12)
}
fn c13(src: &mut Src) -> R {
    history(src, C13)
}
fn c14(src: &mut Src) -> R {
    history(src, C14)
}

/// keys and signatures of every length through constructors and JSON
fn c14_forms(src: &mut Src) -> R {
    use multisig::key::Signature;
    use multisig::types::MsgToSign;
    let len = match src.below(4) {
        0 => src.idx(80),
        1 => *src.pick(&[31usize, 32, 33, 34]),
        2 => *src.pick(&[63usize, 64, 65, 66]),
        _ => src.idx(200),
    };
    let bytes = src.bytes(len);
    let hexb = HexBinary::from(bytes.clone());
    src.note(|| format!("{len} bytes {}", hexs(&bytes)));
    if [32, 33, 64, 65].contains(&len) {
        src.nontrivial();
    }
    for (ty, kt, ok) in [
        ("ecdsa", KeyType::Ecdsa, len == 33 || len == 65),
        ("ed25519", KeyType::Ed25519, len == 32),
    ] {
        let r = PublicKey::try_from((kt, hexb.clone()));
        ensure!(r.is_ok() == ok, "{ty} public key of {len} bytes accepted by the constructor: {}", r.is_ok());
        let text = json!({ty: hexs(&bytes)}).to_string();
        let j: Result<PublicKey, _> = cosmwasm_std::from_slice(text.as_bytes());
        ensure!(j.is_ok() == ok, "{ty} public key of {len} bytes accepted from JSON: {}", j.is_ok());
        let j2: Result<PublicKey, _> = serde_json::from_str(&text);
        ensure!(j2.is_ok() == ok, "{ty} public key of {len} bytes accepted from JSON (serde_json): {}", j2.is_ok());
        if let (Ok(a), Ok(b)) = (r, j) {
            ensure_eq!(a, b, "{ty} key by constructor and from JSON");
            ensure_eq!(a.as_ref(), &bytes[..], "bytes of the {ty} key");
            let out: Value = serde_json::from_slice(&cosmwasm_std::to_vec(&a).unwrap()).unwrap();
            ensure_eq!(out, json!({ty: hexs(&bytes)}), "JSON of the {ty} key");
            ensure_eq!(HexBinary::from(a), hexb, "hex of the {ty} key");
        }
    }
    for (ty, kt, ok) in [
        ("ecdsa", KeyType::Ecdsa, len == 64 || len == 65),
        ("ed25519", KeyType::Ed25519, len == 64),
    ] {
        let r = Signature::try_from((kt, hexb.clone()));
        ensure!(r.is_ok() == ok, "{ty} signature of {len} bytes accepted: {}", r.is_ok());
        if let Ok(s) = r {
            ensure_eq!(s.as_ref(), &bytes[..], "bytes of the {ty} signature");
            let back: Signature = cosmwasm_std::from_slice(&cosmwasm_std::to_vec(&s).unwrap())
                .map_err(|e| Fail { msg: e.to_string(), sig: None })?;
            ensure_eq!(back, s, "signature after a JSON round trip");
        }
    }
    let m = MsgToSign::try_from(hexb.clone());
    ensure!(m.is_ok() == (len == 32), "message of {len} bytes accepted: {}", m.is_ok());
    if let Ok(m) = m {
        ensure_eq!(m.as_ref(), &bytes[..], "message bytes");
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    const A: &[&str] = &[
        "the rewards contract is a recorder; every participant's weight is positive and thresholds are at least 1",
        "cw-multi-test 0.15.1 stands for the chain; k256 and ed25519-zebra decide which signatures are genuine",
        "a high-S ECDSA signature and a 65-byte recoverable one may be accepted or rejected as long as they are genuine",
    ];
    vec![
        Check {
            id: "C11",
            rule: "histories of sessions over near-identical worker sets with mixed key types and genuine, foreign, replayed, corrupted, wrong-type and wrong-length signatures by members and outsiders; all sessions are compared with a model after each step. Non-trivial: some session completes or a late signature is rejected",
            assumptions: A,
            subs: vec![Sub { name: "history", f: c11, quick: 24_000, thorough: 400_000 }],
            known: vec![],
        },
        Check {
            id: "C12",
            rule: "the same histories, checking completion, completion height and event, grace period (0 to near 2^64) and session independence; non-trivial as in C11",
            assumptions: A,
            subs: vec![Sub { name: "history", f: c12, quick: 16_000, thorough: 400_000 }],
            known: vec![],
        },
        Check {
            id: "C13",
            rule: "histories of grants, revocations and session requests by governance, callers and others, with unknown and unregistered worker sets and messages of every length. Non-trivial: at least one session was opened",
            assumptions: A,
            subs: vec![Sub { name: "history", f: c13, quick: 20_000, thorough: 500_000 }],
            known: vec![],
        },
        Check {
            id: "C14",
            rule: "histories of key and worker-set registrations compared with a model; 'forms' feeds byte strings of all lengths to every constructor and JSON decoder. Non-trivial: a key was registered (forms: a length that is valid for some type)",
            assumptions: A,
            subs: vec![
                Sub { name: "history", f: c14, quick: 8_000, thorough: 400_000 },
                Sub { name: "forms", f: c14_forms, quick: 100_000, thorough: 3_000_000 },
            ],
            known: vec![],
        },
    ]
}
