//! C41: the commands by which a worker joins, and its configuration.
use super::axelar::*;
use super::polls::handler;
use super::sim::{decoded, tm, Sender};
use crate::commands::{bond_worker, declare_chain_support, register_public_key, worker_address};
use crate::config::Config;
use crate::engine::*;
use crate::handlers::multisig;
use crate::tofnd::grpc::{MultisigClient, SharableEcdsaClient};
use crate::util::app::*;
use cosmrs::cosmwasm::MsgExecuteContract;
use cosmwasm_std::{coins, Addr};
use serde_json::{json, Map, Value};
use std::collections::BTreeSet;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        let d = std::env::temp_dir().join(format!("pbt-c41-{}-{:?}", std::process::id(), std::thread::current().id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch directory");
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Cmd {
    Address,
    Bond { service: String, amount: u128, denom: String },
    Declare { service: String, chains: Vec<String> },
    Register,
}

/// what the state file of the worker holds
#[derive(Clone, Debug, PartialEq)]
enum File {
    Absent,
    /// in a directory that does not exist
    AbsentDir,
    State,
    StateWithKey,
    Damaged(Vec<u8>),
}

const SERVICE: &str = "validators";

pub fn commands(src: &mut Src) -> R {
    let dir = Dir::new();
    let seed = src.below(1 << 16);
    let uid = *src.pick(&["axelar", "key"]);
    let key = public(&derive(seed, uid));
    let worker: crate::types::PublicKey = match k256::ecdsa::VerifyingKey::from_sec1_bytes(&key) {
        Ok(k) => k.into(),
        Err(_) => return abandon(),
    };
    let Ok(worker) = worker.account_id("axelar").map(|a| a.to_string()) else {
        return abandon();
    };
    // Axelar
    let mut w = World::new();
    let (rewards, _) = w.mock();
    let mut ms = vec![];
    for i in 0..2 {
        let m = ::multisig::msg::InstantiateMsg {
            governance_address: "governance".into(),
            rewards_address: rewards.to_string(),
            grace_period: 2,
        };
        let a = w.instantiate(w_multisig(), &m, &format!("multisig{i}")).expect("multisig");
        w.exec(&addr("governance"), &a, &json!({"authorize_caller": {"contract_address": "prover"}}), &[]).expect("caller");
        ms.push(a);
    }
    let registry = w.instantiate(w_registry(), &json!({"governance_account": "governance"}), "registry").expect("registry");
    let services: &[&str] = &[SERVICE, "other service"];
    for s in services {
        let m = service_registry::msg::ExecuteMsg::RegisterService {
            service_name: s.to_string(),
            service_contract: addr("nowhere"),
            min_num_workers: 0,
            max_num_workers: Some(100),
            min_worker_bond: 100u128.into(),
            bond_denom: "uaxl".into(),
            unbonding_period_days: 1,
            description: "x".into(),
        };
        w.exec(&addr("governance"), &registry, &m, &[]).expect("service");
        let m = json!({"authorize_workers": {"service_name": s, "workers": [worker]}});
        w.exec(&addr("governance"), &registry, &m, &[]).expect("authorized");
    }
    w.mint(&addr(&worker), coins(1_000_000, "uaxl"));
    // the worker
    let with_multisig = !src.chance(1, 6);
    let sequence = src.below(1000);
    let config = || -> Config {
        let mut handlers = vec![
            json!({"type": "SuiMsgVerifier", "cosmwasm_contract": "contract77", "rpc_url": "http://sui:9000"}),
            json!({"type": "EvmMsgVerifier", "cosmwasm_contract": "contract78", "chain_name": "Ethereum", "chain_rpc_url": "http://ethereum:8545"}),
        ];
        if with_multisig {
            handlers.insert(1, json!({"type": "MultisigSigner", "cosmwasm_contract": ms[0]}));
        }
        serde_json::from_value(json!({
            "tm_grpc": GRPC, "handlers": handlers,
            "broadcast": {"chain_id": "axelar-1", "tx_fetch_interval": "0s", "tx_fetch_max_retries": 2, "gas_adjustment": 1.5,
                "gas_price": "0.007uaxl", "batch_gas_limit": 1000, "queue_cap": 10, "broadcast_interval": "1s"},
            "tofnd_config": {"url": TOFND, "party_uid": "party", "key_uid": uid},
            "service_registry": {"cosmwasm_contract": registry},
        }))
        .expect("configuration")
    };
    let tofnd = Arc::new(Mutex::new(Tofnd { seed, ..Default::default() }));
    let chain = Arc::new(Mutex::new(Chain::new("axelar-1", &worker, 7, sequence, key.clone())));
    tonic::clear();
    serve_tofnd(&tofnd);
    serve_chain(&chain);
    src.note(|| format!("worker {worker} with the key {uid}, multisig {}", if with_multisig { "configured" } else { "not configured" }));

    let mut done = BTreeSet::new();
    let mut staked = 0u128;
    let mut registered: Option<Vec<u8>> = None;
    for step in 0..1 + src.below(6) {
        let cmd = match src.below(7) {
            0 => Cmd::Address,
            1 | 2 => Cmd::Bond {
                service: src.pick(services).to_string(),
                amount: *src.pick(&[100, 1, 0, 99, 5_000, 2_000_000]),
                denom: src.pick(&["uaxl", "uaxl", "uaxl", "uaxl", "stake", "ibc/AB12"]).to_string(),
            },
            3 | 4 => {
                let mut chains = vec![];
                for _ in 0..1 + src.below(3) {
                    chains.push(src.pick(&["ethereum", "Avalanche", "sui", "polygon-2"]).to_string());
                }
                Cmd::Declare { service: src.pick(services).to_string(), chains }
            }
            _ => Cmd::Register,
        };
        let heights = json!({"sui-msg-verifier": "120", "other": "7"});
        let file = match src.below(9) {
            0 | 1 => File::StateWithKey,
            2 => File::State,
            3 => File::Damaged(src.pick(&[&b"{\"handlers\":{\"sui-msg-"[..], b"", b"[1]", b"\xff\xfe{}", b"null"]).to_vec()),
            4 => File::AbsentDir,
            _ => File::Absent,
        };
        let path = match file {
            File::AbsentDir => dir.0.join("none").join("state.json"),
            _ => dir.0.join(format!("state{step}.json")),
        };
        let content = match &file {
            File::Absent | File::AbsentDir => None,
            File::Damaged(b) => Some(b.clone()),
            f => {
                let mut s = crate::state::State::default();
                if let Some(m) = heights.as_object() {
                    for (k, v) in m {
                        s.set_handler_block_height(k, v.as_str().and_then(|x| x.parse::<u32>().ok()).unwrap_or(1));
                    }
                }
                if *f == File::StateWithKey {
                    s.pub_key = k256::ecdsa::VerifyingKey::from_sec1_bytes(&key).ok().map(|k| k.into());
                }
                serde_json::to_vec(&s).ok()
            }
        };
        if let Some(b) = &content {
            std::fs::write(&path, b).expect("scratch file");
        }
        let bad = |src: &mut Src| {
            if src.chance(1, 14) {
                src.pick(&[Fate::Fails, Fate::Empty, Fate::Reports]).clone()
            } else {
                Fate::Fine
            }
        };
        let (f_key, f_sign, f_acc, f_sim, f_send) = (bad(src), bad(src), bad(src), bad(src), bad(src));
        let code = if src.chance(1, 14) { 5 } else { 0 };
        {
            let mut t = tofnd.lock().unwrap();
            t.keygen_fate = Some(f_key.clone());
            t.sign_fate = Some(f_sign.clone());
            t.signs.clear();
            t.keygens.clear();
            let mut c = chain.lock().unwrap();
            c.account_fate = f_acc.clone();
            c.simulate_fate = f_sim.clone();
            c.broadcast_fate = f_send.clone();
            c.polls = vec![Poll::Unknown, Poll::Code(code)];
            c.sent.clear();
            c.done.clear();
        }
        let cfg = config();
        let res: Result<Option<String>, String> = futures::executor::block_on(async {
            match &cmd {
                Cmd::Address => worker_address::run(cfg.tofnd_config, &path).await,
                Cmd::Bond { service, amount, denom } => {
                    let args = bond_worker::Args {
                        service_name: service.as_str().try_into().expect("name"),
                        amount: *amount,
                        denom: denom.clone(),
                    };
                    bond_worker::run(cfg, &path, args).await
                }
                Cmd::Declare { service, chains } => {
                    let args = declare_chain_support::Args {
                        service_name: service.as_str().try_into().expect("name"),
                        chains: chains.iter().map(|c| c.parse().expect("chain")).collect(),
                    };
                    declare_chain_support::run(cfg, &path, args).await
                }
                Cmd::Register => register_public_key::run(cfg, &path).await,
            }
        })
        .map_err(|e| format!("{e:?}").replace(char::is_whitespace, " "));
        let c = chain.lock().unwrap();
        let t = tofnd.lock().unwrap();
        src.note(|| {
            format!(
                "{cmd:?}, state {file:?}, keygen {f_key:?}, sign {f_sign:?}, account {f_acc:?}, simulation {f_sim:?}, sending {f_send:?}, code {code}: {}",
                match &res {
                    Ok(s) => format!("{s:?}"),
                    Err(e) => e.chars().take(120).collect(),
                }
            )
        });
        // the state file belongs to the daemon
        let now = std::fs::read(&path).ok();
        match (&file, &now, &content) {
            (File::Damaged(_), _, _) => ensure!(now == content, "a damaged state file is overwritten with {now:?}"),
            (_, Some(n), Some(o)) => {
                let h = |b: &[u8]| serde_json::from_slice::<Value>(b).unwrap_or_default()["handlers"].clone();
                ensure!(h(n) == h(o), "a command changes what the handlers have completed: {}", String::from_utf8_lossy(n));
            }
            (_, None, Some(_)) => return fail("a command removes the state file"),
            _ => {}
        }
        ensure!(c.wrong.is_empty(), "the node does not accept: {:?}", c.wrong);
        let damaged = matches!(file, File::Damaged(_));
        let keyless = matches!(file, File::Absent | File::AbsentDir | File::State);
        if cmd == Cmd::Address {
            ensure!(c.sent.is_empty() && t.signs.is_empty(), "asking for the address sends {:?}", c.sent);
            let ok = !damaged && (!keyless || f_key == Fate::Fine);
            ensure!(res.is_ok() == ok, "address: {res:?}, state {file:?}, key store {f_key:?}");
            if let Ok(s) = &res {
                let words: Vec<&str> = s.iter().flat_map(|s| s.split_whitespace()).collect();
                ensure!(words.contains(&worker.as_str()), "the address of {worker} is reported as {s:?}");
                src.class("address");
            }
            continue;
        }
        let invalid = match &cmd {
            Cmd::Register => !with_multisig,
            _ => false,
        };
        let key_asked = keyless || cmd == Cmd::Register;
        let sendable = !damaged
            && !invalid
            && (!key_asked || f_key == Fate::Fine)
            && f_acc == Fate::Fine
            && f_sim == Fate::Fine
            && f_sign == Fate::Fine;
        // a key store that makes no keys may or may not be asked if the key is known
        let open = !keyless && f_key != Fate::Fine && cmd == Cmd::Register;
        if !sendable && !open {
            ensure!(res.is_err(), "{cmd:?} succeeds: {res:?}");
            ensure!(c.sent.is_empty(), "{cmd:?} fails but sends {:?}", c.sent);
            src.class("fails");
            continue;
        }
        if open && res.is_err() && c.sent.is_empty() {
            continue;
        }
        ensure!(c.sent.len() == 1, "{cmd:?} sends {} transactions: {res:?}", c.sent.len());
        let ok = f_send == Fate::Fine && code == 0;
        ensure!(res.is_ok() == ok, "{cmd:?}: {res:?} where the node {f_send:?} and the result has code {code}");
        let msgs = &c.sent[0].0.body.messages;
        ensure!(msgs.len() == 1, "{cmd:?} sends {msgs:?}");
        let Some(m): Option<MsgExecuteContract> = executed(&msgs[0]) else {
            return fail(format!("{cmd:?} sends {msgs:?}"));
        };
        ensure!(m.sender.to_string() == worker, "{cmd:?} is sent from {} instead of {worker}", m.sender);
        let target = if cmd == Cmd::Register { &ms[0] } else { &registry };
        ensure!(m.contract.to_string() == target.as_str(), "{cmd:?} is sent to {} instead of {target}", m.contract);
        let funds: Vec<(u128, String)> = m.funds.iter().map(|c| (c.amount, c.denom.to_string())).collect();
        let j: Value = serde_json::from_slice(&m.msg).unwrap_or(Value::Null);
        match &cmd {
            Cmd::Bond { service, amount, denom } => {
                ensure!(j == json!({"bond_worker": {"service_name": service}}), "{cmd:?} sends {j}");
                ensure!(funds == vec![(*amount, denom.clone())], "{cmd:?} spends {funds:?}");
            }
            Cmd::Declare { service, chains } => {
                let same = |a: &Value| {
                    let a: Vec<String> = serde_json::from_value(a.clone()).unwrap_or_default();
                    a.len() == chains.len() && a.iter().zip(chains).all(|(x, y)| x.to_lowercase() == y.to_lowercase())
                };
                let d = &j["declare_chain_support"];
                ensure!(d["service_name"] == json!(service) && same(&d["chains"]), "{cmd:?} sends {j}");
                ensure!(funds.is_empty(), "{cmd:?} spends {funds:?}");
            }
            _ => ensure!(funds.is_empty(), "{cmd:?} spends {funds:?}"),
        }
        if !ok {
            ensure!(c.done.is_empty() || code == 0, "executed");
            src.class("not executed");
            // the next command finds the account as it is
            continue;
        }
        let hash = Chain::hash(&serde_json::to_vec(&c.sent[0].0.raw).expect("transaction"));
        ensure!(
            res.as_ref().map_or(false, |s| s.iter().any(|s| s.to_uppercase().contains(&hash))),
            "the transaction {hash} is reported as {res:?}"
        );
        drop((c, t));
        // what the contracts make of it
        let cs: Vec<cosmwasm_std::Coin> = funds.iter().filter(|f| f.0 > 0).map(|(a, d)| cosmwasm_std::coin(*a, d)).collect();
        let r = w.exec(&addr(&worker), target, &j, &cs);
        match &cmd {
            Cmd::Bond { amount, denom, service } => {
                let fine = *amount > 0 && *amount <= 1_000_000 - staked && denom == "uaxl";
                ensure!(r.is_ok() || !fine, "bonding {amount}{denom} is refused: {:?}", r.err());
                if r.is_ok() {
                    staked += amount;
                    let b = w.balance(&addr(&worker), "uaxl");
                    ensure!(b == 1_000_000 - staked, "the worker has {b} after staking {staked}");
                    done.insert(("bond", service.clone()));
                }
            }
            Cmd::Declare { service, .. } => {
                ensure!(r.is_ok(), "{cmd:?} is refused: {:?}", r.err());
                done.insert(("declare", service.clone()));
            }
            _ => {
                ensure!(r.is_ok(), "the key is refused: {:?}, {j}", r.err());
                let k: Result<Value, _> = w.query(&ms[0], &json!({"get_public_key": {"worker_address": worker, "key_type": "ecdsa"}}));
                let k = k.ok().and_then(|k| k["ecdsa"].as_str().and_then(|h| hex::decode(h).ok()));
                let Some(k) = k else {
                    return fail("no key is registered");
                };
                ensure!(registered.is_none() || registered == Some(k.clone()), "another key is registered the next time");
                registered = Some(k.clone());
                done.insert(("register", String::new()));
                session(src, &mut w, &ms, &worker, &k, &tofnd)?;
            }
        }
        if done.len() >= 2 {
            src.nontrivial();
        }
        src.class(match cmd {
            Cmd::Bond { .. } => "bonded",
            Cmd::Declare { .. } => "declared",
            _ => "registered",
        });
    }
    Ok(())
}

/// a worker signs with the key that it has registered
fn session(src: &mut Src, w: &mut World, ms: &[Addr], worker: &str, key: &[u8], tofnd: &Arc<Mutex<Tofnd>>) -> R {
    let set = json!({"signers": {worker: {"address": worker, "weight": "1", "pub_key": {"ecdsa": hex::encode(key)}}},
        "threshold": "1", "created_at": 1});
    let Ok(typed) = serde_json::from_value::<::multisig::worker_set::WorkerSet>(set) else {
        return abandon();
    };
    let m = ::multisig::msg::ExecuteMsg::RegisterWorkerSet { worker_set: typed.clone() };
    if w.exec(&addr("prover"), &ms[0], &m, &[]).is_err() {
        return abandon();
    }
    let msg = src.bytes(32);
    let m = json!({"start_signing_session": {"worker_set_id": typed.id(), "msg": hex::encode(&msg), "chain_name": "ethereum", "sig_verifier": null}});
    let Ok(r) = w.exec(&addr("prover"), &ms[0], &m, &[]) else {
        return abandon();
    };
    {
        let mut t = tofnd.lock().unwrap();
        t.sign_fate = None;
        t.signs.clear();
    }
    let client = futures::executor::block_on(MultisigClient::connect("party".into(), TOFND.parse().expect("url")));
    let Ok(client) = client else { return abandon() };
    let sender = Sender::default();
    let h = handler(multisig::Handler::new(tm(worker), tm(ms[0].as_str()), sender.clone(), SharableEcdsaClient::new(client)));
    for e in decoded(&r.events)? {
        let r = h(&e);
        ensure!(r.is_ok(), "the worker cannot sign with the key it has registered, {}: {}", hex::encode(key), r.err().unwrap_or_default());
    }
    let sent = sender.take();
    ensure!(sent.len() == 1, "{} signatures are sent", sent.len());
    let j: Value = serde_json::from_slice(&sent[0].msg).unwrap_or(Value::Null);
    let r = w.exec(&addr(worker), &ms[0], &j, &[]);
    ensure!(r.is_ok(), "the signature with the registered key is refused: {:?}", r.err());
    src.class("signed with the registered key");
    Ok(())
}

// ---------------------------------------------------------------- configuration

fn url(src: &mut Src) -> String {
    let s = *src.pick(&["http", "https", "tcp"]);
    let h = *src.pick(&["localhost", "127.0.0.1", "a.b-c.org", "node"]);
    let p = 1024 + src.below(60000);
    // without a path, http and https addresses get a slash
    format!("{s}://{h}:{p}/{}", src.pick(&["", "rpc", "v1/key?x=1"]))
}
fn contract(src: &mut Src) -> String {
    format!("contract{}", src.below(1000))
}
fn duration(src: &mut Src) -> (String, u128) {
    let n = src.below(500);
    match src.below(3) {
        0 => (format!("{n}ms"), n as u128 * 1_000_000),
        1 => (format!("{n}s"), n as u128 * 1_000_000_000),
        _ => (format!("{n}m"), n as u128 * 60_000_000_000),
    }
}

fn in_toml(v: &Value) -> toml::Value {
    match v {
        Value::Number(n) => match n.as_i64() {
            Some(i) if !n.to_string().contains('.') => toml::Value::Integer(i),
            _ => toml::Value::Float(n.as_f64().expect("number")),
        },
        Value::Array(a) => toml::Value::Array(a.iter().map(in_toml).collect()),
        Value::Object(o) => toml::Value::Table(o.iter().map(|(k, v)| (k.clone(), in_toml(v))).collect()),
        v => toml::Value::String(v.as_str().unwrap_or_default().into()),
    }
}

pub fn config(src: &mut Src) -> R {
    let mut j = Map::new();
    let mut handlers = vec![];
    let chains = ["Ethereum", "Fantom", "avalanche", "polygon-2"];
    let n = src.below(6);
    let mut labels: Vec<(String, String)> = vec![];
    for _ in 0..n {
        let ty = *src.pick(&["EvmMsgVerifier", "EvmWorkerSetVerifier", "MultisigSigner", "SuiMsgVerifier", "SuiWorkerSetVerifier"]);
        let mut h = json!({"type": ty, "cosmwasm_contract": contract(src)});
        let mut chain = String::new();
        if ty.starts_with("Evm") {
            chain = src.pick(&chains).to_string();
            h["chain_name"] = json!(chain);
            h["chain_rpc_url"] = json!(url(src));
        } else if ty.starts_with("Sui") {
            h["rpc_url"] = json!(url(src));
        }
        labels.push((ty.into(), chain));
        handlers.push(h);
    }
    let unique = labels.iter().collect::<BTreeSet<_>>().len() == labels.len();
    // some handler is not complete
    let mut valid = unique;
    if !handlers.is_empty() && src.chance(1, 6) {
        let i = src.idx(handlers.len());
        let h = handlers[i].as_object_mut().expect("handler");
        let keys: Vec<String> = h.keys().cloned().collect();
        let k = src.pick(&keys).clone();
        valid = false;
        match src.below(3) {
            0 => drop(h.remove(&k)),
            1 => drop(h.insert(k, json!(17))),
            _ => match k.as_str() {
                "type" => drop(h.insert(k, json!("EvmMsg"))),
                "rpc_url" | "chain_rpc_url" => drop(h.insert(k, json!("no url"))),
                _ => drop(h.remove(&k)),
            },
        }
    }
    let with_handlers = !handlers.is_empty() || src.bool();
    if with_handlers {
        j.insert("handlers".into(), json!(handlers));
    } else {
        valid = true;
    }
    for k in ["tm_jsonrpc", "tm_grpc"] {
        if src.bool() {
            j.insert(k.into(), json!(url(src)));
        }
    }
    if src.bool() {
        j.insert("event_buffer_cap".into(), json!(src.below(1 << 40)));
    }
    let mut intervals = None;
    if src.bool() {
        let (a, b) = (duration(src), duration(src));
        let amount = *src.pick(&["0.007", "1", "25.5"]);
        j.insert(
            "broadcast".into(),
            json!({"chain_id": *src.pick(&["axelar-dojo-1", "x"]), "tx_fetch_interval": a.0, "tx_fetch_max_retries": src.below(1 << 32),
                "gas_adjustment": *src.pick(&[1.0, 1.5, 2.25]), "gas_price": format!("{amount}{}", src.pick(&["uaxl", "stake"])),
                "batch_gas_limit": src.below(1 << 40), "queue_cap": src.below(1 << 40), "broadcast_interval": b.0}),
        );
        intervals = Some((a.1, b.1));
    }
    if src.bool() {
        j.insert(
            "tofnd_config".into(),
            json!({"url": url(src), "party_uid": *src.pick(&["a", "", "party"]), "key_uid": *src.pick(&["k", "axelar"])}),
        );
    }
    if src.bool() {
        j.insert("service_registry".into(), json!({"cosmwasm_contract": contract(src)}));
    }
    // some other part is wrong
    if src.chance(1, 8) {
        valid = false;
        match src.below(7) {
            0 => drop(j.insert("tm_grpc".into(), json!("no url"))),
            1 => drop(j.insert("event_buffer_cap".into(), json!(-1))),
            2 => drop(j.insert("tofnd_config".into(), json!({"url": "http://a/", "party_uid": "x"}))),
            3 => drop(j.insert("service_registry".into(), json!({"cosmwasm_contract": ""}))),
            4 => drop(j.insert("handlers".into(), json!("none"))),
            x => {
                let mut b = json!({"chain_id": "x", "tx_fetch_interval": "1s", "tx_fetch_max_retries": 1, "gas_adjustment": 1.0,
                    "gas_price": "1uaxl", "batch_gas_limit": 1, "queue_cap": 1, "broadcast_interval": "1s"});
                match x {
                    5 => {
                        let inf = format!("{}uaxl", "9".repeat(400));
                        b["gas_price"] = json!(*src.pick(&["uaxl", "1", "", "-1uaxl", "1.2.3uaxl", "nanuaxl", "1 uaxl", "1,5uaxl", inf.as_str()]))
                    }
                    _ => {
                        let k = *src.pick(&["chain_id", "gas_price", "queue_cap", "broadcast_interval"]);
                        drop(b.as_object_mut().expect("object").remove(k))
                    }
                }
                j.insert("broadcast".into(), b);
            }
        }
    }
    let j = Value::Object(j);
    src.note(|| format!("{j}"));
    let Ok(text) = toml::to_string(&in_toml(&j)) else { return abandon() };
    let (a, b) = (serde_json::from_value::<Config>(j.clone()), toml::from_str::<Config>(&text));
    ensure!(a.is_ok() == valid, "configuration: {a:?} although it is {}", if valid { "valid" } else { "invalid" });
    ensure!(b.is_ok() == valid, "configuration in TOML: {b:?} although it is {}", if valid { "valid" } else { "invalid" });
    let (Ok(a), Ok(b)) = (a, b) else {
        src.class("invalid");
        return Ok(());
    };
    ensure!(a == b, "configuration {a:?} is {b:?} in TOML");
    // everything that is given counts, everything else is as by default
    let d = Config::default();
    let field = |k: &str| j.get(k).cloned();
    let text = |u: &dyn std::fmt::Display| u.to_string();
    match field("tm_jsonrpc") {
        Some(u) => ensure!(json!(text(&a.tm_jsonrpc)) == u, "{} instead of {u}", a.tm_jsonrpc),
        None => ensure!(a.tm_jsonrpc == d.tm_jsonrpc, "{} by default", a.tm_jsonrpc),
    }
    match field("tm_grpc") {
        Some(u) => ensure!(json!(text(&a.tm_grpc)) == u, "{} instead of {u}", a.tm_grpc),
        None => ensure!(a.tm_grpc == d.tm_grpc, "{} by default", a.tm_grpc),
    }
    match field("event_buffer_cap") {
        Some(u) => ensure!(json!(a.event_buffer_cap) == u, "{} instead of {u}", a.event_buffer_cap),
        None => ensure!(a.event_buffer_cap == d.event_buffer_cap, "{} by default", a.event_buffer_cap),
    }
    match field("service_registry") {
        Some(u) => ensure!(
            json!({"cosmwasm_contract": a.service_registry.cosmwasm_contract.to_string()}) == u,
            "{:?} instead of {u}",
            a.service_registry
        ),
        None => ensure!(a.service_registry == d.service_registry, "{:?} by default", a.service_registry),
    }
    let t = &a.tofnd_config;
    match field("tofnd_config") {
        Some(u) => ensure!(json!({"url": text(&t.url), "party_uid": t.party_uid, "key_uid": t.key_uid}) == u, "{t:?} instead of {u}"),
        None => ensure!(*t == d.tofnd_config, "{t:?} by default"),
    }
    let x = &a.broadcast;
    match (field("broadcast"), intervals) {
        (Some(u), Some((f, i))) => {
            ensure!(x.tx_fetch_interval.as_nanos() == f && x.broadcast_interval.as_nanos() == i, "intervals {x:?} instead of {u}");
            ensure!(
                x.tx_fetch_max_retries as u64 == u["tx_fetch_max_retries"]
                    && x.batch_gas_limit == u["batch_gas_limit"]
                    && x.queue_cap as u64 == u["queue_cap"],
                "{x:?} instead of {u}"
            );
            ensure!(x.gas_adjustment == u["gas_adjustment"] && x.chain_id.to_string() == u["chain_id"], "{x:?} instead of {u}");
            ensure!(x.gas_price.to_string() == u["gas_price"], "gas price {} instead of {u}", x.gas_price);
            let p = cosmrs::proto::cosmos::base::v1beta1::DecCoin::from(&x.gas_price);
            ensure!(format!("{}{}", p.amount, p.denom) == u["gas_price"].as_str().unwrap_or(""), "gas price {p:?} instead of {u}");
            ensure!(x.gas_price.clone().try_into().map_or(false, |q: cosmrs::proto::cosmos::base::v1beta1::DecCoin| q == p), "gas price {p:?}");
            let mut back = x.gas_price.clone();
            back = match p.clone().try_into() {
                Ok(b) => b,
                Err(e) => return fail(format!("gas price {p:?} is not read back ({back}): {e:?}")),
            };
            ensure!(back == x.gas_price, "gas price {p:?} is read back as {back}");
            ensure!(back.amount * 3.0 == 3.0 * back.amount && back.amount * 1.0 == amount_of(&u["gas_price"]), "gas price {p:?} is {}", back.amount * 1.0);
        }
        _ => ensure!(*x == d.broadcast, "{x:?} by default"),
    }
    ensure!(a.handlers.len() == handlers.len(), "{} handlers of {}", a.handlers.len(), handlers.len());
    for (h, u) in a.handlers.iter().zip(&handlers) {
        let s = serde_json::to_value(h).unwrap_or_default();
        ensure!(s == *u, "handler {s} instead of {u}");
        if !u["chain_name"].is_null() {
            src.class("evm");
        }
    }
    // written and read again
    let back = serde_json::to_value(&a).ok().and_then(|v| serde_json::from_value::<Config>(v).ok());
    ensure!(back.as_ref() == Some(&a), "{a:?} is read back as {back:?}");
    // an empty list of handlers cannot be written after the tables
    if !handlers.is_empty() {
        let back = toml::to_string_pretty(&a).ok().and_then(|v| toml::from_str::<Config>(&v).ok());
        ensure!(back.as_ref() == Some(&a), "{a:?} is read back from TOML as {back:?}");
    }
    if handlers.len() > 1 && j.as_object().map_or(0, |o| o.len()) > 2 {
        src.nontrivial();
    }
    Ok(())
}
fn amount_of(v: &Value) -> f64 {
    let t: String = v.as_str().unwrap_or("").chars().take_while(|c| c.is_ascii_digit() || *c == '.').collect();
    t.parse().unwrap_or(-1.0)
}
