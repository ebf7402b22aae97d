//! The assembled contracts on cw-multi-test, for the demonstrations.
#![allow(dead_code)]
use cosmwasm_std::{coin, Addr, Coin, Empty};
use cw_multi_test::{App, AppResponse, Contract, ContractWrapper, Executor};
use k256::ecdsa::signature::hazmat::PrehashSigner;
use k256::ecdsa::{Signature, SigningKey, VerifyingKey};
use serde::{Deserialize, Serialize};
pub use serde_json::{json, Value};

pub fn a(s: &str) -> Addr {
    Addr::unchecked(s)
}
pub struct World {
    pub app: App,
}
impl World {
    pub fn new() -> World {
        World { app: App::default() }
    }
    pub fn mint(&mut self, to: &str, coins: Vec<Coin>) {
        self.app.init_modules(|r, _, s| r.bank.init_balance(s, &a(to), coins).unwrap());
    }
    pub fn put(&mut self, c: Box<dyn Contract<Empty>>, m: Value) -> Addr {
        let id = self.app.store_code(c);
        self.app.instantiate_contract(id, a("deployer"), &m, &[], "c", None).unwrap()
    }
    pub fn pay(&mut self, who: &str, to: &Addr, m: Value, funds: &[Coin]) -> Result<AppResponse, String> {
        let (app, who, to) = (&mut self.app, a(who), to.clone());
        let funds = funds.to_vec();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || app.execute_contract(who, to, &m, &funds))) {
            Ok(r) => r.map_err(|e| format!("{e:#}")),
            Err(_) => Err("panic".into()),
        }
    }
    pub fn exec(&mut self, who: &str, to: &Addr, m: Value) -> Result<AppResponse, String> {
        self.pay(who, to, m, &[])
    }
    pub fn query(&self, to: &Addr, m: Value) -> Result<Value, String> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.app.wrap().query_wasm_smart(to, &m))) {
            Ok(r) => r.map_err(|e| format!("{e:#}")),
            Err(_) => Err("panic".into()),
        }
    }
    pub fn advance(&mut self, blocks: u64) {
        self.days(blocks, 0);
    }
    pub fn days(&mut self, blocks: u64, days: u64) {
        self.app.update_block(|b| {
            b.height += blocks;
            b.time = b.time.plus_seconds(5 * blocks + 86_400 * days);
        });
    }
    pub fn balance(&self, who: &str, denom: &str) -> u128 {
        self.app.wrap().query_balance(a(who), denom).unwrap().amount.u128()
    }
}
pub fn attr(r: &AppResponse, ev: &str, key: &str) -> Option<String> {
    r.events
        .iter()
        .filter(|e| e.ty == format!("wasm-{ev}"))
        .flat_map(|e| e.attributes.iter())
        .find(|x| x.key == key)
        .map(|x| x.value.clone())
}
pub fn count(r: &AppResponse, ev: &str) -> usize {
    r.events.iter().filter(|e| e.ty == format!("wasm-{ev}")).count()
}

// ---- contracts
pub fn router() -> Box<dyn Contract<Empty>> {
    use connection_router::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query))
}
pub fn gateway() -> Box<dyn Contract<Empty>> {
    use gateway::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query))
}
pub fn aggregate() -> Box<dyn Contract<Empty>> {
    use aggregate_verifier::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query).with_reply(c::reply))
}
pub fn verifier() -> Box<dyn Contract<Empty>> {
    use voting_verifier::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query))
}
pub fn multisig() -> Box<dyn Contract<Empty>> {
    use multisig::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query))
}
pub fn prover() -> Box<dyn Contract<Empty>> {
    use multisig_prover::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query).with_reply(c::reply))
}
pub fn rewards() -> Box<dyn Contract<Empty>> {
    use rewards::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, no_query))
}
pub fn registry() -> Box<dyn Contract<Empty>> {
    use service_registry::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query))
}
pub fn batching() -> Box<dyn Contract<Empty>> {
    use batching::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, no_query).with_reply(c::reply))
}
pub fn no_query(_: cosmwasm_std::Deps, _: cosmwasm_std::Env, _: Empty) -> cosmwasm_std::StdResult<cosmwasm_std::Binary> {
    Err(cosmwasm_std::StdError::generic_err("no queries"))
}

/// a contract that takes every message, remembers it (query "log") and fails on {"fail":..}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Entry {
    pub sender: String,
    pub msg: Value,
    pub funds: Vec<Coin>,
}
pub fn recorder() -> Box<dyn Contract<Empty>> {
    fn log(s: &dyn cosmwasm_std::Storage) -> Vec<Entry> {
        s.get(b"log").map(|b| serde_json::from_slice(&b).unwrap()).unwrap_or_default()
    }
    struct Any;
    impl Contract<Empty> for Any {
        fn execute(&self, d: cosmwasm_std::DepsMut, _: cosmwasm_std::Env, i: cosmwasm_std::MessageInfo, m: Vec<u8>) -> anyhow::Result<cosmwasm_std::Response> {
            let msg: Value = serde_json::from_slice(&m)?;
            if msg.get("fail").is_some() {
                return Err(anyhow::anyhow!("told to fail"));
            }
            let mut l = log(d.storage);
            l.push(Entry { sender: i.sender.to_string(), msg, funds: i.funds });
            d.storage.set(b"log", &serde_json::to_vec(&l)?);
            Ok(cosmwasm_std::Response::new())
        }
        fn instantiate(&self, _: cosmwasm_std::DepsMut, _: cosmwasm_std::Env, _: cosmwasm_std::MessageInfo, _: Vec<u8>) -> anyhow::Result<cosmwasm_std::Response> {
            Ok(cosmwasm_std::Response::new())
        }
        fn query(&self, d: cosmwasm_std::Deps, _: cosmwasm_std::Env, _: Vec<u8>) -> anyhow::Result<cosmwasm_std::Binary> {
            Ok(cosmwasm_std::Binary(serde_json::to_vec(&log(d.storage))?))
        }
        fn sudo(&self, _: cosmwasm_std::DepsMut, _: cosmwasm_std::Env, _: Vec<u8>) -> anyhow::Result<cosmwasm_std::Response> {
            Err(anyhow::anyhow!("no sudo"))
        }
        fn reply(&self, _: cosmwasm_std::DepsMut, _: cosmwasm_std::Env, _: cosmwasm_std::Reply) -> anyhow::Result<cosmwasm_std::Response> {
            Err(anyhow::anyhow!("no reply"))
        }
        fn migrate(&self, _: cosmwasm_std::DepsMut, _: cosmwasm_std::Env, _: Vec<u8>) -> anyhow::Result<cosmwasm_std::Response> {
            Err(anyhow::anyhow!("no migrate"))
        }
    }
    Box::new(Any)
}
pub fn log(w: &World, c: &Addr) -> Vec<Entry> {
    serde_json::from_value(w.query(c, json!({})).unwrap()).unwrap()
}

// ---- keys
pub fn key(i: u8) -> SigningKey {
    SigningKey::from_bytes((&[i + 1; 32]).into()).unwrap()
}
pub fn pubkey(i: u8) -> String {
    hex::encode(VerifyingKey::from(&key(i)).to_encoded_point(true).as_bytes())
}
pub fn sign(i: u8, hash: &str) -> String {
    let s: Signature = key(i).sign_prehash(&hex::decode(hash).unwrap()).unwrap();
    hex::encode(s.normalize_s().unwrap_or(s).to_vec())
}

// ---- the assembled system: chains "alpha" and "beta", workers worker0..worker3 active on both
pub const SERVICE: &str = "validators";
pub struct Chain {
    pub name: &'static str,
    pub vv: Addr,
    pub gw: Addr,
    pub prover: Addr,
}
pub struct Sys {
    pub w: World,
    pub registry: Addr,
    pub rewards: Addr,
    pub ms: Addr,
    pub nexus: Addr,
    pub router: Addr,
    pub chains: Vec<Chain>,
    pub members: Vec<u8>,
}
pub const N: u8 = 4;
pub const EXPIRY: u64 = 10;
pub fn worker(i: u8) -> String {
    format!("worker{i}")
}
impl Sys {
    pub fn new() -> Sys {
        Sys::with(json!(["2", "3"]), 0, 5)
    }
    /// the second chain takes BCS payloads
    pub fn bcs() -> Sys {
        Sys::build(json!(["2", "3"]), 0, 5, "bcs")
    }
    pub fn with(threshold: Value, diff: u32, grace: u64) -> Sys {
        Sys::build(threshold, diff, grace, "abi")
    }
    pub fn build(threshold: Value, diff: u32, grace: u64, second: &str) -> Sys {
        let mut w = World::new();
        for i in 0..N + 2 {
            w.mint(&worker(i), vec![coin(1_000_000, "uaxl")]);
        }
        let registry = w.put(registry(), json!({"governance_account": "governance"}));
        let rewards = w.put(
            rewards(),
            json!({"governance_address": "governance", "rewards_denom": "uaxl",
                "params": {"epoch_duration": "10", "rewards_per_epoch": "1000", "participation_threshold": ["1", "2"]}}),
        );
        let ms = w.put(multisig(), json!({"governance_address": "governance", "rewards_address": rewards, "grace_period": grace}));
        let nexus = w.put(recorder(), json!({}));
        let router = w.put(router(), json!({"admin_address": "admin", "governance_address": "governance", "nexus_gateway": nexus}));
        let mut chains = vec![];
        for (name, encoder) in [("alpha", "abi"), ("beta", second)] {
            let vv = w.put(
                verifier(),
                json!({"service_registry_address": registry, "service_name": SERVICE, "source_gateway_address": "0x1234",
                    "voting_threshold": threshold, "block_expiry": EXPIRY, "confirmation_height": 1,
                    "source_chain": name, "rewards_address": rewards}),
            );
            let gw = w.put(gateway(), json!({"verifier_address": vv, "router_address": router}));
            let prover = w.put(
                prover(),
                json!({"admin_address": "admin", "gateway_address": gw, "multisig_address": ms,
                    "service_registry_address": registry, "voting_verifier_address": vv,
                    "destination_chain_id": "7", "signing_threshold": threshold,
                    "service_name": SERVICE, "chain_name": name, "worker_set_diff_threshold": diff,
                    "encoder": encoder, "key_type": "ecdsa"}),
            );
            w.exec("governance", &router, json!({"register_chain": {"chain": name, "gateway_address": gw}})).unwrap();
            w.exec("governance", &ms, json!({"authorize_caller": {"contract_address": prover}})).unwrap();
            chains.push(Chain { name, vv, gw, prover });
        }
        w.exec(
            "governance",
            &registry,
            json!({"register_service": {"service_name": SERVICE, "service_contract": "nowhere", "min_num_workers": 0,
                "max_num_workers": 100, "min_worker_bond": "100", "bond_denom": "uaxl", "unbonding_period_days": 1, "description": "x"}}),
        )
        .unwrap();
        let mut s = Sys { w, registry, rewards, ms, nexus, router, chains, members: vec![] };
        for i in 0..N {
            s.join(i);
        }
        s
    }
    pub fn join(&mut self, i: u8) {
        let (r, m, x) = (self.registry.clone(), self.ms.clone(), worker(i));
        self.w.exec("governance", &r, json!({"authorize_workers": {"workers": [x], "service_name": SERVICE}})).unwrap();
        self.w.pay(&x, &r, json!({"bond_worker": {"service_name": SERVICE}}), &[coin(100, "uaxl")]).unwrap();
        self.w.exec(&x, &r, json!({"declare_chain_support": {"service_name": SERVICE, "chains": ["alpha", "beta"]}})).unwrap();
        self.w.exec(&x, &m, json!({"register_public_key": {"public_key": {"ecdsa": pubkey(i)}}})).unwrap();
        self.members.push(i);
    }
    pub fn leave(&mut self, i: u8) {
        let r = self.registry.clone();
        self.w.exec("governance", &r, json!({"unauthorize_workers": {"workers": [worker(i)], "service_name": SERVICE}})).unwrap();
        self.members.retain(|m| *m != i);
    }
    /// the active workers as the operators of an EVM gateway (threshold 2/3)
    pub fn operators(&self, _c: usize) -> Value {
        use sha3::{Digest, Keccak256};
        let mut o: Vec<(String, String)> = self
            .members
            .iter()
            .map(|i| {
                let p = VerifyingKey::from(&key(*i)).to_encoded_point(false);
                (hex::encode(&Keccak256::digest(&p.as_bytes()[1..])[12..]), "1".to_string())
            })
            .collect();
        o.sort();
        let n = o.len();
        json!({"weights_by_addresses": o, "threshold": ((2 * n + 2) / 3).to_string()})
    }
    /// asks for the verification of the active workers as a worker set, and returns the poll's id
    pub fn verify_set(&mut self, c: usize, id: &str) -> String {
        let (vv, o) = (self.chains[c].vv.clone(), self.operators(c));
        let r = self.w.exec("relayer", &vv, json!({"verify_worker_set": {"message_id": id, "new_operators": o}})).unwrap();
        attr(&r, "worker_set_poll_started", "poll_id").unwrap().trim_matches('"').to_string()
    }
    /// starts a poll and returns its id
    pub fn verify(&mut self, c: usize, msgs: &[Value]) -> Option<String> {
        let vv = self.chains[c].vv.clone();
        let r = self.w.exec("relayer", &vv, json!({"verify_messages": {"messages": msgs}})).unwrap();
        attr(&r, "messages_poll_started", "poll_id").map(|x| x.trim_matches('"').to_string())
    }
    pub fn vote(&mut self, c: usize, who: &str, poll: &str, votes: &[&str]) -> Result<AppResponse, String> {
        let vv = self.chains[c].vv.clone();
        self.w.exec(who, &vv, json!({"vote": {"poll_id": poll, "votes": votes}}))
    }
    pub fn confirm(&mut self, c: usize, msgs: &[Value]) {
        let p = self.verify(c, msgs).unwrap();
        for i in 0..N {
            let _ = self.vote(c, &worker(i), &p, &vec![OK; msgs.len()]);
        }
    }
    pub fn verified(&self, c: usize, m: &Value) -> bool {
        self.w.query(&self.chains[c].vv, json!({"is_verified": {"messages": [m]}})).unwrap()[0][1].as_bool().unwrap()
    }
    pub fn route(&mut self, c: usize, msgs: &[Value]) -> Result<AppResponse, String> {
        let gw = self.chains[c].gw.clone();
        self.w.exec("relayer", &gw, json!({ "route_messages": msgs }))
    }
    pub fn stored(&self, c: usize, m: &Value) -> Option<Value> {
        self.w.query(&self.chains[c].gw, json!({"get_messages": {"message_ids": [m["cc_id"]]}})).ok().map(|v| v[0].clone())
    }
    /// verified, routed and stored at the destination
    pub fn deliver(&mut self, c: usize, msgs: &[Value]) {
        self.confirm(c, msgs);
        self.route(c, msgs).unwrap();
    }
    pub fn update(&mut self, c: usize) -> Result<AppResponse, String> {
        let p = self.chains[c].prover.clone();
        self.w.exec("relayer", &p, json!("update_worker_set"))
    }
    pub fn construct(&mut self, c: usize, msgs: &[Value]) -> Result<(String, String), String> {
        let p = self.chains[c].prover.clone();
        let ids: Vec<Value> = msgs.iter().map(|m| m["cc_id"].clone()).collect();
        let r = self.w.exec("relayer", &p, json!({"construct_proof": {"message_ids": ids}}))?;
        Ok((attr(&r, "signing_started", "session_id").unwrap(), attr(&r, "signing_started", "msg").unwrap()))
    }
    pub fn submit(&mut self, who: &str, session: &str, sig: &str) -> Result<AppResponse, String> {
        let m = self.ms.clone();
        self.w.exec(who, &m, json!({"submit_signature": {"session_id": session, "signature": sig}}))
    }
    pub fn proof(&self, c: usize, session: &str) -> Result<Value, String> {
        self.w.query(&self.chains[c].prover, json!({"get_proof": {"multisig_session_id": session}}))
    }
}
pub const OK: &str = "succeeded_on_chain";
pub const FAILED: &str = "failed_on_chain";
pub const NOT_FOUND: &str = "not_found";
pub fn msg(from: &str, id: &str, to: &str, hash: u8) -> Value {
    json!({"cc_id": {"chain": from, "id": id}, "source_address": "0xsource", "destination_chain": to,
        "destination_address": "0x00112233445566778899aabbccddeeff00112233", "payload_hash": hex::encode([hash; 32])})
}
