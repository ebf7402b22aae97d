//! C40: the whole worker, as its daemon command runs it, on a chain with the real contracts.
use super::axelar::*;
use super::sim::*;
use super::sim::Tx as SourceTx;
use crate::commands::daemon;
use crate::config::Config;
use crate::engine::*;
use crate::util::app::*;
use crate::util::keys;
use cosmrs::cosmwasm::MsgExecuteContract;
use cosmwasm_std::{Addr, Uint256};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tendermint::abci;
use tendermint::block::Height;
use tendermint_rpc::endpoint;
use tokio::time::{sleep, timeout};

struct AxNode {
    first: u64,
    blocks: Vec<Vec<Vec<abci::Event>>>,
    latest: u64,
    calls: usize,
    fails: Option<usize>,
    failed: bool,
}
struct Ax(Arc<Mutex<AxNode>>);
impl Ax {
    fn call(&self) -> Result<std::sync::MutexGuard<AxNode>, tendermint_rpc::Error> {
        let mut n = self.0.lock().unwrap();
        n.calls += 1;
        if n.fails == Some(n.calls) {
            n.failed = true;
        }
        if n.failed {
            return Err(tendermint_rpc::Error("no answer".into()));
        }
        Ok(n)
    }
}
#[async_trait::async_trait]
impl tendermint_rpc::Client for Ax {
    async fn latest_block(&self) -> Result<endpoint::block::Response, tendermint_rpc::Error> {
        let n = self.call()?;
        let height = n.latest.try_into().expect("height");
        Ok(endpoint::block::Response { block: endpoint::block::Block { header: endpoint::block::Header { height } } })
    }
    async fn block_results(&self, h: Height) -> Result<endpoint::block_results::Response, tendermint_rpc::Error> {
        let n = self.call()?;
        let i = h.value();
        if i < n.first || i > n.latest {
            return Err(tendermint_rpc::Error(format!("height {i} is not available")));
        }
        let txs = &n.blocks[(i - n.first) as usize];
        Ok(endpoint::block_results::Response {
            height: h,
            begin_block_events: None,
            txs_results: Some(txs.iter().map(|t| endpoint::block_results::TxResult { events: t.clone() }).collect()),
            end_block_events: None,
        })
    }
}

struct Verifier {
    addr: Addr,
    kind: Kind,
    chain: String,
    /// the name of the chain in the worker's configuration
    name: String,
    gateway: Vec<u8>,
    expiry: u64,
    active: Arc<Mutex<Vec<String>>>,
    source: Arc<Mutex<SourceChain>>,
    node: Arc<Mutex<Node>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Role {
    Msgs(usize),
    Sets(usize),
    Sign,
}
#[derive(Clone, Debug)]
enum Want {
    Json(Value),
    Signature { session: String, msg: Vec<u8> },
}
/// something the worker is asked for
#[derive(Clone, Debug)]
struct Job {
    height: u64,
    role: Role,
    contract: String,
    want: Want,
    /// the block from which on it is too late
    expires: u64,
}

struct Sys {
    w: World,
    seed: u64,
    worker: String,
    verifiers: Vec<Verifier>,
    multisig: Addr,
    ms_key: Vec<u8>,
    jobs: Vec<Job>,
    n: u64,
}

const ME_UID: &str = "axelar";

impl Sys {
    fn new(src: &mut Src) -> Option<Sys> {
        let seed = src.below(1 << 16);
        let key = public(&derive(seed, ME_UID));
        let pk: crate::types::PublicKey = k256::ecdsa::VerifyingKey::from_sec1_bytes(&key).ok()?.into();
        let worker = pk.account_id("axelar").ok()?.to_string();
        let mut w = World::new();
        let (rewards, _) = w.mock();
        let mut verifiers = vec![];
        let mut kinds = vec![Kind::Ethereum, Kind::OtherEvm, Kind::Sui];
        src.shuffle(&mut kinds);
        for kind in &kinds[..1 + src.idx(3)] {
            let chain = match kind {
                Kind::Ethereum => "ethereum",
                Kind::OtherEvm => *src.pick(&["avalanche", "polygon-2"]),
                Kind::Sui => "sui",
            };
            let name = match kind {
                Kind::Ethereum => "Ethereum".to_string(),
                _ => crate::util::gen::recase(src, chain),
            };
            let (registry, ctl) = w.mock();
            let active: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![worker.clone(), "other".into()]));
            let a2 = active.clone();
            ctl.lock().unwrap().query = Some(Box::new(move |_| {
                use service_registry::state::{AuthorizationState, BondingState, Worker};
                let v: Vec<Worker> = a2
                    .lock()
                    .unwrap()
                    .iter()
                    .map(|a| Worker {
                        address: Addr::unchecked(a),
                        bonding_state: BondingState::Bonded { amount: 100u128.into() },
                        authorization_state: AuthorizationState::Authorized,
                        service_name: "service".into(),
                    })
                    .collect();
                serde_json::to_vec(&v).map(|v| v.into()).map_err(|e| e.to_string())
            }));
            let expiry = if src.chance(1, 4) { 1 + src.below(6) } else { 100 };
            let gateway = src.bytes(kind.addr_len());
            let msg: voting_verifier::msg::InstantiateMsg = serde_json::from_value(json!({
                "service_registry_address": registry, "service_name": "service",
                "source_gateway_address": hx(&gateway), "voting_threshold": ["2", "3"],
                "block_expiry": expiry, "confirmation_height": 2, "source_chain": chain, "rewards_address": rewards,
            }))
            .expect("valid instantiate message");
            let addr = w.instantiate(w_voting_verifier(), &msg, "verifier").expect("verifier");
            let source = SourceChain { kind: *kind, txs: vec![], latest: 5000, finalized: 4900 };
            verifiers.push(Verifier {
                addr,
                kind: *kind,
                chain: chain.into(),
                name,
                gateway,
                expiry,
                active,
                source: Arc::new(Mutex::new(source)),
                node: Arc::default(),
            });
        }
        let m = ::multisig::msg::InstantiateMsg {
            governance_address: "governance".into(),
            rewards_address: rewards.to_string(),
            grace_period: 3,
        };
        let multisig = w.instantiate(w_multisig(), &m, "multisig").expect("multisig");
        w.exec(&addr("governance"), &multisig, &json!({"authorize_caller": {"contract_address": "prover"}}), &[]).expect("caller");
        let ms_key = public(&derive(seed, multisig.as_str()));
        Some(Sys { w, seed, worker, verifiers, multisig, ms_key, jobs: vec![], n: 0 })
    }
    fn fresh(&mut self) -> [u8; 32] {
        self.n += 1;
        keccak(format!("{}/{}", self.seed, self.n).as_bytes())
    }
    /// a transaction of the source chain with one log, and its id
    fn source_tx(&mut self, vi: usize, ev: Ev, index: u64) -> String {
        let hash = self.fresh();
        let v = &self.verifiers[vi];
        let log = Log { emitter: v.gateway.clone(), index, ev, other_tx: false, other_module: false };
        v.source.lock().unwrap().txs.push(SourceTx { hash, block: Some(4000), logs: vec![log] });
        match v.kind {
            Kind::Sui => b58(&hash),
            _ => hx(&hash),
        }
    }
    fn participates(&mut self, src: &mut Src, vi: usize) -> bool {
        let yes = !src.chance(1, 6);
        *self.verifiers[vi].active.lock().unwrap() =
            if yes { vec![self.worker.clone(), "other".into()] } else { vec!["other".into(), "another".into()] };
        yes
    }

    /// one transaction of Axelar: its events, and what the worker makes of it
    fn tx(&mut self, src: &mut Src) -> R<Vec<abci::Event>> {
        let height = self.w.height();
        let vi = src.idx(self.verifiers.len());
        let r = match src.below(7) {
            0 | 1 | 2 => {
                let me = self.participates(src, vi);
                let mut msgs = vec![];
                let mut votes = vec![];
                for _ in 0..1 + src.below(3) {
                    let sender = src.bytes(self.verifiers[vi].kind.addr_len());
                    let payload = src.bytes(3);
                    let hash = keccak(&payload);
                    let (chain, dest) = (src.pick(&["avalanche", "Fantom"]).to_string(), src.pick(&["0xab", "d:1"]).to_string());
                    let index = if self.verifiers[vi].kind == Kind::Sui { 0 } else { src.below(30) };
                    let id = self.source_tx(
                        vi,
                        Ev::Call { sender: sender.clone(), chain: chain.clone(), dest: dest.clone(), hash, payload },
                        index,
                    );
                    let mut asked = hash;
                    let genuine = !src.chance(1, 3);
                    if !genuine {
                        asked[src.idx(32)] ^= 1;
                    }
                    msgs.push(json!({"cc_id": {"chain": self.verifiers[vi].chain, "id": format!("{id}:{index}")},
                        "source_address": hx(&sender), "destination_chain": chain, "destination_address": dest,
                        "payload_hash": hex::encode(asked)}));
                    votes.push(if genuine { "succeeded_on_chain" } else { "not_found" });
                }
                let to = self.verifiers[vi].addr.clone();
                let r = self.w.exec(&addr("anyone"), &to, &json!({"verify_messages": {"messages": msgs}}), &[]);
                let Ok(r) = r else { return abandon() };
                let id = events(&r, &to, "messages_poll_started")
                    .first()
                    .and_then(|e| attr(e, "poll_id"))
                    .and_then(|s| serde_json::from_str::<String>(s).ok());
                let Some(id) = id else { return abandon() };
                src.note(|| format!("block {height}: poll {id} at {to} ({}), worker {me}: {votes:?}", self.verifiers[vi].chain));
                if me {
                    self.jobs.push(Job {
                        height,
                        role: Role::Msgs(vi),
                        contract: to.to_string(),
                        want: Want::Json(json!({"vote": {"poll_id": id, "votes": votes}})),
                        expires: height + self.verifiers[vi].expiry,
                    });
                }
                r
            }
            3 | 4 => {
                let me = self.participates(src, vi);
                let len = if self.verifiers[vi].kind == Kind::Sui { 33 } else { 20 };
                let mut ops = vec![];
                for _ in 0..1 + src.below(3) {
                    let mut a = src.bytes(len);
                    a[0] = 2;
                    ops.push((a, Uint256::from(1 + src.below(1000))));
                }
                ops.sort();
                let set = OpSet { ops: ops.clone(), threshold: (1 + src.below(1000)).into() };
                let index = if self.verifiers[vi].kind == Kind::Sui { 0 } else { src.below(30) };
                let id = self.source_tx(vi, Ev::Ops(set.clone()), index);
                let genuine = !src.chance(1, 3);
                let threshold = if genuine { set.threshold } else { set.threshold + Uint256::one() };
                let pairs: Vec<(String, String)> = ops.iter().map(|(a, w)| (hex::encode(a), w.to_string())).collect();
                let to = self.verifiers[vi].addr.clone();
                let m = json!({"verify_worker_set": {"message_id": format!("{id}:{index}"),
                    "new_operators": {"weights_by_addresses": pairs, "threshold": threshold.to_string()}}});
                let Ok(r) = self.w.exec(&addr("anyone"), &to, &m, &[]) else { return abandon() };
                let id = events(&r, &to, "worker_set_poll_started")
                    .first()
                    .and_then(|e| attr(e, "poll_id"))
                    .and_then(|s| serde_json::from_str::<String>(s).ok());
                let Some(id) = id else { return abandon() };
                src.note(|| format!("block {height}: worker set poll {id} at {to} ({}), worker {me}, genuine {genuine}", self.verifiers[vi].chain));
                if me {
                    let v = if genuine { "succeeded_on_chain" } else { "not_found" };
                    self.jobs.push(Job {
                        height,
                        role: Role::Sets(vi),
                        contract: to.to_string(),
                        want: Want::Json(json!({"vote": {"poll_id": id, "votes": [v]}})),
                        expires: height + self.verifiers[vi].expiry,
                    });
                }
                r
            }
            _ => {
                let me = !src.chance(1, 6);
                let mut signers = serde_json::Map::new();
                let mut member = |a: &str, k: &[u8]| {
                    signers.insert(a.into(), json!({"address": a, "weight": "1", "pub_key": {"ecdsa": hex::encode(k)}}));
                };
                if me {
                    member(&self.worker, &self.ms_key);
                }
                member("other", &keys::key(src.idx(8)).compressed);
                let set = json!({"signers": signers, "threshold": "1", "created_at": height});
                let Ok(typed) = serde_json::from_value::<::multisig::worker_set::WorkerSet>(set) else { return abandon() };
                let ms = self.multisig.clone();
                let m = ::multisig::msg::ExecuteMsg::RegisterWorkerSet { worker_set: typed.clone() };
                if self.w.exec(&addr("prover"), &ms, &m, &[]).is_err() {
                    return abandon();
                }
                let msg = self.fresh().to_vec();
                let m = json!({"start_signing_session": {"worker_set_id": typed.id(), "msg": hex::encode(&msg), "chain_name": "ethereum", "sig_verifier": null}});
                let Ok(r) = self.w.exec(&addr("prover"), &ms, &m, &[]) else { return abandon() };
                let id = events(&r, &ms, "signing_started").first().and_then(|e| attr(e, "session_id").map(|s| s.to_string()));
                let Some(session) = id else { return abandon() };
                src.note(|| format!("block {height}: session {session}, worker {me}"));
                if me {
                    self.jobs.push(Job {
                        height,
                        role: Role::Sign,
                        contract: ms.to_string(),
                        want: Want::Signature { session, msg },
                        expires: u64::MAX,
                    });
                }
                r
            }
        };
        Ok(abci(&r.events))
    }
    fn handlers(&self) -> Vec<(Role, Value)> {
        let mut v = vec![(Role::Sign, json!({"type": "MultisigSigner", "cosmwasm_contract": self.multisig}))];
        for (i, x) in self.verifiers.iter().enumerate() {
            let url = format!("http://{}:8545", x.chain);
            let (a, b) = match x.kind {
                Kind::Sui => (
                    json!({"type": "SuiMsgVerifier", "cosmwasm_contract": x.addr, "rpc_url": url}),
                    json!({"type": "SuiWorkerSetVerifier", "cosmwasm_contract": x.addr, "rpc_url": url}),
                ),
                _ => (
                    json!({"type": "EvmMsgVerifier", "cosmwasm_contract": x.addr, "chain_name": x.name, "chain_rpc_url": url}),
                    json!({"type": "EvmWorkerSetVerifier", "cosmwasm_contract": x.addr, "chain_name": x.name, "chain_rpc_url": url}),
                ),
            };
            v.push((Role::Msgs(i), a));
            v.push((Role::Sets(i), b));
        }
        v
    }
    fn matches(&self, job: &Job, m: &MsgExecuteContract) -> bool {
        if job.contract != m.contract.to_string() {
            return false;
        }
        let j: Value = serde_json::from_slice(&m.msg).unwrap_or(Value::Null);
        match &job.want {
            Want::Json(w) => j == *w,
            Want::Signature { session, msg } => {
                let s = &j["submit_signature"];
                let sig = s["signature"].as_str().and_then(|h| hex::decode(h).ok()).unwrap_or_default();
                s["session_id"] == json!(session) && keys::verify(&self.ms_key, msg, &sig)
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Stop {
    Signal(u64, bool),
    Crash(u64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// the Axelar node stops answering about blocks
    Node(usize),
    /// the Axelar node does not take transactions any more
    Tx(usize),
    KeyStore(usize),
    Source(usize),
    Account,
    NoTofnd,
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn c40(src: &mut Src) -> R {
    let Some(mut s) = Sys::new(src) else { return abandon() };
    // the history of Axelar
    let total = 3 + src.below(18);
    s.w.advance(1 + src.below(50), 5);
    let first = s.w.height();
    let last = first + total - 1;
    let mut blocks = vec![];
    for i in 0..total {
        let mut txs = vec![];
        for _ in 0..src.below(4) {
            txs.push(s.tx(src)?);
        }
        blocks.push(txs);
        if i + 1 < total {
            s.w.advance(1, 5);
        }
    }
    let node = Arc::new(Mutex::new(AxNode { first, blocks, latest: first + src.below(3), calls: 0, fails: None, failed: false }));
    let key = public(&derive(s.seed, ME_UID));
    let tofnd = Arc::new(Mutex::new(Tofnd { seed: s.seed, ..Default::default() }));
    let chain = Arc::new(Mutex::new(Chain::new("axelar-1", &s.worker, 7, src.below(100), key)));
    // the folder of the state file may not exist yet
    let dir = std::env::temp_dir().join(format!("pbt-c40-{}-{:?}", std::process::id(), std::thread::current().id()));
    let _ = std::fs::remove_dir_all(&dir);
    let _scratch = Scratch(dir.clone());
    let path = if src.bool() {
        std::fs::create_dir_all(&dir).expect("scratch folder");
        dir.join("state.json")
    } else {
        dir.join("of").join("ampd").join("state.json")
    };
    let all = s.handlers();
    let broadcast = json!({"chain_id": "axelar-1", "tx_fetch_interval": "0s", "tx_fetch_max_retries": 2,
        "gas_adjustment": *src.pick(&[1.0, 1.5]), "gas_price": "0.007uaxl", "batch_gas_limit": *src.pick(&[1000, 2500, 4000, 100000]),
        "queue_cap": *src.pick(&[1, 5, 1000]), "broadcast_interval": *src.pick(&["500ms", "2s", "5s"])});
    let sessions = 1 + src.below(4);
    let mut begin: BTreeMap<Role, u64> = BTreeMap::new();
    // per job: the sessions that executed it
    let mut done: Vec<Vec<u64>> = s.jobs.iter().map(|_| vec![]).collect();
    // per run: the handlers whose blocks are known to be complete in the state file
    let mut graceful: Vec<BTreeSet<Role>> = vec![];
    // jobs that may have been lost in the queue of a worker that could not send any more
    let mut lost: BTreeSet<usize> = BTreeSet::new();
    let mut worked = 0;
    for si in 0..sessions {
        let final_session = si + 1 == sessions;
        let mut roles = all.clone();
        if !final_session && src.chance(1, 4) {
            let i = src.idx(roles.len());
            roles.remove(i);
        }
        src.shuffle(&mut roles);
        let block_ms = 500 + 500 * src.below(16);
        let enough = block_ms * (total + 3) + 60_000;
        let stop = if final_session {
            Stop::Signal(enough, src.bool())
        } else if src.chance(1, 4) {
            Stop::Crash(src.below(40_000))
        } else {
            Stop::Signal(100 + src.below(60_000), src.bool())
        };
        let fault = if final_session || !src.chance(1, 3) {
            Fault::None
        } else {
            match src.below(10) {
                0 | 1 => Fault::Node(1 + src.below(30) as usize),
                2 | 3 => Fault::Tx(1 + src.below(5) as usize),
                4 | 5 => Fault::KeyStore(1 + src.below(8) as usize),
                6 | 7 => Fault::Source(src.idx(s.verifiers.len())),
                8 => Fault::Account,
                _ => Fault::NoTofnd,
            }
        };
        let config: Config = serde_json::from_value(json!({
            "tm_jsonrpc": "http://axelar:26657", "tm_grpc": GRPC, "broadcast": broadcast,
            "handlers": roles.iter().map(|r| r.1.clone()).collect::<Vec<_>>(),
            "tofnd_config": {"url": TOFND, "party_uid": "party", "key_uid": ME_UID},
        }))
        .expect("configuration");
        tonic::clear();
        serve_chain(&chain);
        if fault != Fault::NoTofnd {
            serve_tofnd(&tofnd);
        }
        tendermint_rpc::serve("http://axelar:26657", Arc::new(Ax(node.clone())));
        for (i, v) in s.verifiers.iter().enumerate() {
            let down = fault == Fault::Source(i);
            *v.node.lock().unwrap() = Node { finality_fails: down, multi_fails: down, ..Default::default() };
            ethers::providers::serve(&format!("http://{}:8545", v.chain), Arc::new(Rpc { chain: v.source.clone(), node: v.node.clone() }));
        }
        let start_latest = {
            let mut n = node.lock().unwrap();
            n.calls = 0;
            n.failed = false;
            n.fails = if let Fault::Node(k) = fault { Some(k) } else { None };
            let mut c = chain.lock().unwrap();
            c.failed = false;
            c.dies_at = if let Fault::Tx(k) = fault { Some(c.sent.len() + k) } else { None };
            c.account_fate = if fault == Fault::Account { Fate::Fails } else { Fate::Fine };
            let mut t = tofnd.lock().unwrap();
            t.failed = false;
            t.sign_fails_at = if let Fault::KeyStore(k) = fault { Some(t.signs.len() + k) } else { None };
            n.latest
        };
        let from = chain.lock().unwrap().done.len();
        src.note(|| {
            format!(
                "run {si}: Axelar {first}..={last} at {start_latest}, a block every {block_ms} ms, {:?}, {stop:?}, {fault:?}",
                roles.iter().map(|r| r.0).collect::<Vec<_>>()
            )
        });
        tokio::select_support::seed(src.below(1 << 20) as usize);
        tokio::signal::unix::reset();
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime");
        let trouble = || node.lock().unwrap().failed || chain.lock().unwrap().failed || tofnd.lock().unwrap().failed;
        // (result, whether it ended by itself), none after a crash
        let out: Result<Option<(Result<Option<String>, String>, bool)>, String> = rt.block_on(async {
            let grow = {
                let n = node.clone();
                tokio::spawn(async move {
                    loop {
                        sleep(Duration::from_millis(block_ms)).await;
                        let mut n = n.lock().unwrap();
                        n.latest = (n.latest + 1).min(last);
                    }
                })
            };
            let mut run = Box::pin(daemon::run(config, &path));
            let text = |r: Result<Option<String>, error_stack::Report<crate::Error>>| {
                r.map_err(|e| format!("{e:?}").replace(char::is_whitespace, " "))
            };
            let t = match stop {
                Stop::Signal(t, _) | Stop::Crash(t) => t,
            };
            let mut early = timeout(Duration::from_millis(t), &mut run).await.ok();
            if early.is_none() && trouble() && !matches!(stop, Stop::Crash(_)) {
                // it is about to give up
                early = timeout(Duration::from_millis(60_000), &mut run).await.ok();
                if early.is_none() {
                    return Err("the worker goes on although a service that it needs has failed".into());
                }
            }
            if let Some(r) = early {
                grow.abort();
                return Ok(Some((text(r), true)));
            }
            match stop {
                Stop::Crash(_) => Ok(None),
                Stop::Signal(_, term) => {
                    use tokio::signal::unix::{send, SignalKind};
                    send(if term { SignalKind::terminate() } else { SignalKind::interrupt() });
                    let r = timeout(Duration::from_millis(120_000), &mut run).await;
                    grow.abort();
                    match r {
                        Ok(r) => Ok(Some((text(r), false))),
                        Err(_) => Err("the worker does not stop when it is asked to".into()),
                    }
                }
            }
        });
        drop(rt);
        let executed_now: Vec<cosmrs::Any> = chain.lock().unwrap().done[from..].iter().map(|d| d.1.clone()).collect();
        let latest = node.lock().unwrap().latest;
        src.note(|| format!("  {out:?} at block {latest}, {} messages executed", executed_now.len()));
        ensure!(chain.lock().unwrap().wrong.is_empty(), "the node does not accept: {:?}", chain.lock().unwrap().wrong);
        let out = match out {
            Ok(o) => o,
            Err(e) => return fail(e),
        };
        let hit = trouble();
        match &out {
            None => src.class("crash"),
            Some((r, true)) => {
                ensure!(fault != Fault::None, "the worker ends by itself: {r:?}");
                ensure!(r.is_err(), "the worker ends by itself without an error: {r:?}");
                src.class("failure");
            }
            Some((r, false)) => {
                ensure!(r.is_ok() || hit, "the worker is asked to stop: {r:?}");
                ensure!(!matches!(fault, Fault::Account | Fault::NoTofnd), "the worker runs without {fault:?}");
                src.class("stopped");
            }
        }
        let calm = matches!(&out, Some((Ok(_), false))) && !hit;
        // every executed message is an answer to a request
        let mut this: BTreeMap<usize, usize> = BTreeMap::new();
        for a in &executed_now {
            let Some(m) = executed(a) else { return fail(format!("the worker sends {a:?}")) };
            ensure!(m.sender.to_string() == s.worker && m.funds.is_empty(), "sent from {} with {:?}", m.sender, m.funds);
            let Some(ji) = (0..s.jobs.len()).find(|i| s.matches(&s.jobs[*i], &m)) else {
                return fail(format!("nobody asked the worker for {} at {}", String::from_utf8_lossy(&m.msg), m.contract));
            };
            let job = &s.jobs[ji];
            ensure!(job.height <= latest, "{job:?} is done before it exists");
            ensure!(job.expires > start_latest, "{job:?} is done in run {si}, when it was over: the chain was at {start_latest}");
            ensure!(roles.iter().any(|r| r.0 == job.role), "{job:?} is done, for which nothing is configured");
            *this.entry(ji).or_default() += 1;
            ensure!(this[&ji] == 1, "{job:?} is done twice in one run");
            if let Some(p) = done[ji].iter().find(|p| graceful[**p as usize].contains(&job.role)) {
                return fail(format!("{:?} is done in run {si}, it was done in run {p} in which its handler ended in order", job));
            }
        }
        for ji in this.keys() {
            done[*ji].push(si);
        }
        // the failure of a source chain or of the queries for blocks only concerns the handlers of that chain, or none
        let sends = !chain.lock().unwrap().failed && !tofnd.lock().unwrap().failed;
        let orderly = out.is_some() && sends && matches!(fault, Fault::None | Fault::Node(_) | Fault::Source(_));
        graceful.push(if calm {
            all.iter().map(|r| r.0).collect()
        } else if orderly {
            src.class("others end in order");
            let broken = |r: &Role| matches!((r, fault), (Role::Msgs(i) | Role::Sets(i), Fault::Source(j)) if *i == j);
            all.iter().map(|r| r.0).filter(|r| !broken(r)).collect()
        } else {
            BTreeSet::new()
        });
        if !this.is_empty() {
            worked += 1;
        }
        if chain.lock().unwrap().failed || tofnd.lock().unwrap().failed {
            lost.extend((0..s.jobs.len()).filter(|i| s.jobs[*i].height <= latest));
        }
        let long = matches!(stop, Stop::Signal(t, _) if t > 20_000);
        for (r, _) in &roles {
            if calm && long {
                begin.entry(*r).or_insert(start_latest + 1);
            }
        }
        // an orderly stop leaves a state that can be read
        if out.is_some() {
            ensure!(crate::state::load(&path).is_ok(), "the state file cannot be read");
        }
    }
    for (ji, job) in s.jobs.iter().enumerate() {
        let Some(b) = begin.get(&job.role) else { continue };
        if job.height < *b || lost.contains(&ji) {
            continue;
        }
        ensure!(!done[ji].is_empty() || job.expires <= last, "{job:?} is never done");
        if done[ji].is_empty() {
            src.class("too late");
        }
    }
    if worked > 1 {
        src.nontrivial();
    }
    Ok(())
}
