//! C35: the worker's part in signing sessions of the real multisig contract.
use super::polls::handler;
use super::sim::*;
use crate::engine::*;
use crate::handlers::multisig;
use crate::tofnd::grpc::{EcdsaClient, SharableEcdsaClient};
use crate::tofnd::{self, MessageDigest, Signature};
use crate::types::PublicKey;
use crate::util::app::*;
use crate::util::keys;
use async_trait::async_trait;
use cosmwasm_std::Addr;
use error_stack::Report;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kt {
    Ecdsa(usize),
    Ed(usize),
}
impl Kt {
    fn bytes(self) -> Vec<u8> {
        match self {
            Kt::Ecdsa(i) => keys::key(i).compressed.clone(),
            Kt::Ed(i) => keys::key(i).ed_pk.to_vec(),
        }
    }
    fn ty(self) -> &'static str {
        match self {
            Kt::Ecdsa(_) => "ecdsa",
            Kt::Ed(_) => "ed25519",
        }
    }
    fn sign(self, m: &[u8]) -> Vec<u8> {
        match self {
            Kt::Ecdsa(i) => keys::sign(i, m),
            Kt::Ed(i) => keys::sign_ed(i, m),
        }
    }
}

#[derive(Clone, Debug)]
struct Call {
    uid: String,
    digest: Vec<u8>,
    key: Vec<u8>,
}
/// the worker's signer: holds all keys, records what it is asked to sign
#[derive(Clone, Default)]
struct Signer {
    calls: Arc<Mutex<Vec<Call>>>,
    fails: Arc<Mutex<bool>>,
}
#[async_trait]
impl EcdsaClient for Signer {
    async fn keygen(&mut self, _: &str) -> error_stack::Result<PublicKey, tofnd::error::Error> {
        Err(Report::new(tofnd::error::Error::KeygenFailed))
    }
    async fn sign(
        &mut self,
        key_uid: &str,
        data: MessageDigest,
        pub_key: &PublicKey,
    ) -> error_stack::Result<Signature, tofnd::error::Error> {
        if *self.fails.lock().unwrap() {
            return Err(Report::new(tofnd::error::Error::SignFailed));
        }
        let digest: Vec<u8> = data.into();
        let key = pub_key.to_bytes();
        self.calls.lock().unwrap().push(Call { uid: key_uid.into(), digest: digest.clone(), key: key.clone() });
        for i in 0..keys::N {
            for k in [Kt::Ecdsa(i), Kt::Ed(i)] {
                if k.bytes() == key {
                    return Ok(k.sign(&digest));
                }
            }
        }
        Err(Report::new(tofnd::error::Error::SignFailed))
    }
}

const WORKERS: &[&str] = &["worker0", "worker1", "worker2", "worker3"];

struct Worker {
    name: &'static str,
    signer: Signer,
    sender: Sender,
    handle: Box<dyn Fn(&events::Event) -> Result<(), String>>,
    queue: Vec<(events::Event, Option<usize>)>,
}
struct Session {
    contract: usize,
    id: String,
    msg: Vec<u8>,
    members: BTreeMap<String, Kt>,
    signed: BTreeSet<String>,
}
struct Sys {
    w: World,
    /// the configured multisig and another one
    ms: Vec<Addr>,
    sets: Vec<(String, BTreeMap<String, Kt>)>,
    sessions: Vec<Session>,
    workers: Vec<Worker>,
}

impl Sys {
    fn new(src: &mut Src) -> Sys {
        let mut w = World::new();
        let mut ms = vec![];
        for i in 0..2 {
            let (rewards, _) = w.mock();
            let a = w
                .instantiate(
                    w_multisig(),
                    &::multisig::msg::InstantiateMsg {
                        governance_address: "governance".into(),
                        rewards_address: rewards.to_string(),
                        grace_period: src.below(4),
                    },
                    &format!("multisig{i}"),
                )
                .expect("multisig instantiates");
            w.exec(&addr("governance"), &a, &json!({"authorize_caller": {"contract_address": "prover"}}), &[])
                .expect("governance authorizes");
            ms.push(a);
        }
        let n = 1 + src.idx(WORKERS.len());
        let workers = WORKERS[..n]
            .iter()
            .map(|name| {
                let (signer, sender) = (Signer::default(), Sender::default());
                let h = multisig::Handler::new(
                    tm(name),
                    tm(ms[0].as_str()),
                    sender.clone(),
                    SharableEcdsaClient::new(signer.clone()),
                );
                Worker { name, signer, sender, handle: handler(h), queue: vec![] }
            })
            .collect();
        src.note(|| format!("workers {:?} sign for {}", &WORKERS[..n], ms[0]));
        Sys { w, ms, sets: vec![], sessions: vec![], workers }
    }

    fn register(&mut self, src: &mut Src) -> R {
        let mut names = WORKERS.to_vec();
        src.shuffle(&mut names);
        let n = 1 + src.idx(names.len());
        let mut members = BTreeMap::new();
        // signers that never sign
        for i in 0..src.size(1, 90) - 1 {
            members.insert(format!("idle{i}"), Kt::Ecdsa(i % 12));
        }
        for a in &names[..n] {
            let i = src.idx(12);
            members.insert(a.to_string(), if src.chance(1, 3) { Kt::Ed(i) } else { Kt::Ecdsa(i) });
        }
        let signers: serde_json::Map<String, Value> = members
            .iter()
            .map(|(a, k)| (a.clone(), json!({"address": a, "weight": "1", "pub_key": {k.ty(): hex::encode(k.bytes())}})))
            .collect();
        let threshold = 1 + src.below(n as u64);
        let set = json!({"signers": signers, "threshold": threshold.to_string(), "created_at": self.sets.len()});
        let typed: ::multisig::worker_set::WorkerSet = serde_json::from_value(set.clone()).expect("worker set");
        for a in self.ms.clone() {
            let m = ::multisig::msg::ExecuteMsg::RegisterWorkerSet { worker_set: typed.clone() };
            if self.w.exec(&addr("prover"), &a, &m, &[]).is_err() {
                return abandon();
            }
        }
        src.note(|| format!("set {members:?}, threshold {threshold}"));
        self.sets.push((typed.id(), members));
        Ok(())
    }

    fn publish(&mut self, src: &mut Src, evs: &[cosmwasm_std::Event], si: Option<usize>) -> R {
        let evs = decoded(evs)?;
        for wk in &mut self.workers {
            for e in &evs {
                let is = matches!(e, events::Event::Abci { event_type, .. } if event_type == "wasm-signing_started");
                if is || src.chance(1, 6) {
                    wk.queue.push((e.clone(), if is { si } else { None }));
                }
            }
        }
        Ok(())
    }

    fn start(&mut self, src: &mut Src) -> R {
        if self.sets.is_empty() {
            self.register(src)?;
        }
        let (id, members) = src.pick(&self.sets).clone();
        let contract = if src.chance(1, 6) { 1 } else { 0 };
        let msg = match src.below(6) {
            // the digits of the hash look like a number
            0 => {
                let mut d: Vec<u8> = src.bytes(32).iter().map(|b| ((b >> 4) % 10) << 4 | (b & 15) % 10).collect();
                if src.bool() {
                    let i = src.idx(32);
                    d[i] = d[i] & 0xf0 | 0x0e;
                }
                d
            }
            1 => match self.sessions.last() {
                Some(s) => s.msg.clone(),
                None => src.bytes(32),
            },
            2 if src.chance(1, 4) => {
                let n = 30 + src.below(5) as usize;
                src.bytes(n)
            }
            _ => src.bytes(32),
        };
        let chain = *src.pick(&["ethereum", "sui", "137"]);
        let r = self.w.exec(
            &addr("prover"),
            &self.ms[contract].clone(),
            &json!({"start_signing_session": {"worker_set_id": id, "msg": hex::encode(&msg), "chain_name": chain, "sig_verifier": null}}),
            &[],
        );
        src.note(|| format!("session at multisig{contract} over {} of {:?}: {:?}", hex::encode(&msg), members.keys(), r.as_ref().err()));
        let Ok(r) = r else { return Ok(()) };
        let Some(id) = events(&r, &self.ms[contract], "signing_started")
            .first()
            .and_then(|e| attr(e, "session_id").map(|s| s.to_string()))
        else {
            return abandon();
        };
        let si = self.sessions.len();
        self.sessions.push(Session { contract, id, msg, members, signed: BTreeSet::new() });
        self.publish(src, &r.events, Some(si))
    }

    fn noise(&mut self, src: &mut Src) -> R {
        let ty = *src.pick(&["wasm-signing_started", "wasm-signature_submitted", "signing_started", "transfer"]);
        let mut e = cosmwasm_std::Event::new(ty);
        // no contract but the multisig can emit events under its address
        match src.below(4) {
            0 => {}
            1 => e = e.add_attribute("_contract_addr", self.ms[1].as_str()),
            _ => e = e.add_attribute("_contract_addr", "imitation"),
        }
        let k = keys::key(3);
        for (name, values) in [
            ("session_id", vec!["1".to_string(), "x".into()]),
            ("msg", vec![hex::encode([7; 32]), "zz".into()]),
            ("pub_keys", vec![json!({"worker0": {"ecdsa": hex::encode(&k.compressed)}}).to_string(), "{\"Worker0\": 1}".into()]),
        ] {
            if src.bool() {
                e = e.add_attribute(name, src.pick(&values).clone());
            }
        }
        src.note(|| format!("event {e:?}"));
        self.publish(src, &[e], None)
    }

    fn work(&mut self, src: &mut Src, wi: usize) -> R {
        if self.workers[wi].queue.is_empty() {
            return Ok(());
        }
        let (event, si) = self.workers[wi].queue.remove(0);
        let w = &self.workers[wi];
        let (signer_fails, sender_fails) = (src.chance(1, 15), src.chance(1, 15));
        *w.signer.fails.lock().unwrap() = signer_fails;
        *w.sender.fails.lock().unwrap() = sender_fails;
        let r = (w.handle)(&event);
        let calls: Vec<Call> = std::mem::take(&mut *w.signer.calls.lock().unwrap());
        let sent = w.sender.take();
        let name = w.name;
        src.note(|| {
            format!(
                "{name} handles {si:?}{}{}: {r:?}, signs {calls:?}, sends {:?}",
                if signer_fails { ", signer fails" } else { "" },
                if sender_fails { ", sending fails" } else { "" },
                sent.iter().map(|m| String::from_utf8_lossy(&m.msg).to_string()).collect::<Vec<_>>()
            )
        });
        let key = si
            .map(|i| &self.sessions[i])
            .filter(|s| s.contract == 0)
            .and_then(|s| s.members.get(name).map(|k| (*k, s.id.clone(), s.msg.clone())));
        let Some((key, id, msg)) = key else {
            ensure!(r.is_ok(), "{name}: an event that does not ask it for a signature stops the worker: {r:?} for {event:?}");
            ensure!(calls.is_empty(), "{name}: signs {calls:?} without being asked by its multisig: {event:?}");
            ensure!(sent.is_empty(), "{name}: sends {sent:?} without being asked by its multisig");
            src.class("not for this worker");
            return Ok(());
        };
        if signer_fails {
            ensure!(r.is_err() && sent.is_empty(), "{name}: without a signature, {r:?}, sends {sent:?}");
            src.class("signer fails");
            return Ok(());
        }
        ensure!(calls.len() == 1, "{name}: {} signatures for a session: {r:?}", calls.len());
        let c = &calls[0];
        ensure!(c.digest == msg, "{name}: signs {} instead of {}", hex::encode(&c.digest), hex::encode(&msg));
        ensure!(c.key == key.bytes(), "{name}: signs with {} instead of {}", hex::encode(&c.key), hex::encode(key.bytes()));
        ensure!(c.uid == self.ms[0].as_str(), "{name}: signs with the key of {}", c.uid);
        if sender_fails {
            ensure!(r.is_err(), "{name}: a signature that could not be sent is not reported");
            src.class("sending fails");
            return Ok(());
        }
        ensure!(r.is_ok(), "{name}: {r:?} though the signature was made");
        ensure!(sent.len() == 1, "{name}: {} messages for a session", sent.len());
        let m = &sent[0];
        ensure!(
            m.sender.as_ref() as &str == name && m.contract.as_ref() as &str == self.ms[0].as_str(),
            "{name}: the signature is sent from {} to {}",
            m.sender,
            m.contract
        );
        ensure!(m.funds.is_empty(), "{name}: the signature spends {:?}", m.funds);
        let j: Value = serde_json::from_slice(&m.msg).unwrap_or(Value::Null);
        ensure!(
            j == json!({"submit_signature": {"session_id": id, "signature": hex::encode(key.sign(&msg))}}),
            "{name}: sends {j} in session {id}"
        );
        src.class("signed");
        src.nontrivial();
        // the contract takes it, unless the session is over
        let got: Result<Value, _> = self.w.query(&self.ms[0], &json!({"get_multisig": {"session_id": id}}));
        let Ok(got) = got else { return abandon() };
        let pending = got["state"] == json!("pending");
        let r = self.w.exec(&addr(name), &self.ms[0].clone(), &j, &[]);
        ensure!(r.is_ok() || !pending, "{name}: the signature is rejected: {:?}", r.err());
        if r.is_ok() {
            let si = si.unwrap();
            self.sessions[si].signed.insert(name.to_string());
            let got: Result<Value, _> = self.w.query(&self.ms[0], &json!({"get_multisig": {"session_id": id}}));
            let Ok(got) = got else { return abandon() };
            let have: BTreeSet<String> = got["signers"]
                .as_array()
                .map(|v| {
                    v.iter()
                        .filter(|p| !p[1].is_null())
                        .map(|p| p[0]["address"].as_str().unwrap_or_default().to_string())
                        .collect()
                })
                .unwrap_or_default();
            ensure!(have == self.sessions[si].signed, "session {id} has signatures of {have:?}, sent by {:?}", self.sessions[si].signed);
        }
        Ok(())
    }
}

pub fn c35(src: &mut Src) -> R {
    let mut s = Sys::new(src);
    s.register(src)?;
    src.repeat(2, 12, 8, |src, _| {
        match src.weighted(&[1, 5, 2, 1]) {
            0 => s.register(src)?,
            1 => s.start(src)?,
            2 => s.noise(src)?,
            _ => {
                let n = src.below(3);
                s.w.advance(n, 5 * n);
            }
        }
        for wi in 0..s.workers.len() {
            while !s.workers[wi].queue.is_empty() && !src.chance(1, 8) {
                s.work(src, wi)?;
            }
        }
        Ok(())
    })?;
    for wi in 0..s.workers.len() {
        while !s.workers[wi].queue.is_empty() {
            s.work(src, wi)?;
        }
    }
    Ok(())
}
