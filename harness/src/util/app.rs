//! cw-multi-test world helpers.
use crate::engine::guard;
use crate::util::mock::{log_query, Ctl, CtlRef, Mock, Rec};
use cosmwasm_std::{to_binary, Addr, Coin, Empty, Event, WasmMsg};
use cw_multi_test::{App, AppResponse, Contract, ContractWrapper, Executor};
use serde::{de::DeserializeOwned, Serialize};
use std::sync::{Arc, Mutex};

pub struct World {
    pub app: App,
    /// keep all transactions (off by default)
    pub record: bool,
    pub log: Vec<Tx>,
    /// responses of all instantiations
    pub born: Vec<(Addr, AppResponse)>,
}

/// a successful transaction
#[derive(Clone, Debug)]
pub struct Tx {
    pub sender: Addr,
    pub contract: Addr,
    pub msg: serde_json::Value,
    pub res: AppResponse,
    pub height: u64,
}

pub fn addr(s: &str) -> Addr {
    Addr::unchecked(s)
}

impl World {
    pub fn new() -> Self {
        World { app: App::default(), record: false, log: vec![], born: vec![] }
    }
    /// creates tokens for `to`
    pub fn mint(&mut self, to: &Addr, coins: Vec<Coin>) {
        self.app.init_modules(|router, _, storage| {
            // init_balance overwrites: read the current balance first through the caller
            router.bank.init_balance(storage, to, coins).unwrap()
        });
    }
    pub fn instantiate<M: Serialize + std::fmt::Debug>(
        &mut self,
        c: Box<dyn Contract<Empty>>,
        msg: &M,
        label: &str,
    ) -> Result<Addr, String> {
        let app = &mut self.app;
        let r = match guard(move || {
            let code_id = app.store_code(c);
            let msg = WasmMsg::Instantiate {
                admin: None,
                code_id,
                msg: to_binary(msg).map_err(|e| e.to_string())?,
                funds: vec![],
                label: label.to_string(),
            };
            app.execute(addr("deployer"), msg.into()).map_err(|e| format!("{e:#}"))
        }) {
            Ok(r) => r?,
            Err(p) => return Err(p),
        };
        trace::response(&Ok(r.clone()));
        let a = r
            .events
            .iter()
            .find(|e| e.ty == "instantiate")
            .and_then(|e| attr(e, "_contract_addr"))
            .map(addr)
            .ok_or("no instantiate event")?;
        self.born.push((a.clone(), r));
        Ok(a)
    }
    pub fn mock(&mut self) -> (Addr, CtlRef) {
        let ctl: CtlRef = Arc::new(Mutex::new(Ctl::default()));
        let a = self
            .instantiate(Box::new(Mock(ctl.clone())), &serde_json::json!({}), "mock")
            .expect("mock");
        (a, ctl)
    }
    pub fn mock_log(&self, a: &Addr) -> Vec<Rec> {
        self.app
            .wrap()
            .query_wasm_smart(a, &log_query())
            .expect("mock log")
    }
    /// Executes a transaction; contract errors and panics both abort it (Err, no state change).
    pub fn exec<M: Serialize + std::fmt::Debug>(
        &mut self,
        sender: &Addr,
        contract: &Addr,
        msg: &M,
        funds: &[Coin],
    ) -> Result<AppResponse, String> {
        let app = &mut self.app;
        let height = app.block_info().height;
        let r = match guard(move || {
            app.execute_contract(sender.clone(), contract.clone(), msg, funds)
                .map_err(|e| format!("{e:#}"))
        }) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        trace::response(&r);
        if self.record {
            if let Ok(res) = &r {
                self.log.push(Tx {
                    sender: sender.clone(),
                    contract: contract.clone(),
                    msg: serde_json::to_value(msg).unwrap_or_default(),
                    res: res.clone(),
                    height,
                });
            }
        }
        r
    }
    pub fn query<M: Serialize, T: DeserializeOwned>(&self, contract: &Addr, msg: &M) -> Result<T, String> {
        let app = &self.app;
        trace::query(app, contract, msg);
        match guard(|| {
            app.wrap()
                .query_wasm_smart::<T>(contract, msg)
                .map_err(|e| e.to_string())
        }) {
            Ok(r) => r,
            Err(p) => Err(p),
        }
    }
    pub fn height(&self) -> u64 {
        self.app.block_info().height
    }
    pub fn advance(&mut self, blocks: u64, secs: u64) {
        self.app.update_block(|b| {
            b.height += blocks;
            b.time = b.time.plus_seconds(secs);
        });
    }
    pub fn balance(&self, a: &Addr, denom: &str) -> u128 {
        self.app.wrap().query_balance(a, denom).unwrap().amount.u128()
    }
    /// full raw state of a contract (to check "nothing changes")
    pub fn dump(&self, a: &Addr) -> Vec<(Vec<u8>, Vec<u8>)> {
        self.app.dump_wasm_raw(a)
    }
}

/// events of type wasm-<name> emitted by contract `from`
impl Drop for World {
    fn drop(&mut self) {
        if !trace::on() || std::thread::panicking() {
            return;
        }
        for (a, _) in &self.born {
            for (k, v) in self.dump(a) {
                trace::push(|| format!("state {a} {} {}", hex::encode(k), trace::plain(&v)));
            }
            trace::push(|| format!("balance {a} {:?}", self.app.wrap().query_all_balances(a)));
        }
    }
}

/// records what the contracts do on this thread
pub mod trace {
    use super::*;
    use serde_json::Value;
    use std::cell::RefCell;
    thread_local! { static TRACE: RefCell<Option<Vec<String>>> = RefCell::new(None); }
    pub fn start() {
        TRACE.with(|t| *t.borrow_mut() = Some(vec![]))
    }
    pub fn stop() -> Vec<String> {
        TRACE.with(|t| t.borrow_mut().take()).unwrap_or_default()
    }
    pub fn on() -> bool {
        TRACE.with(|t| t.borrow().is_some())
    }
    pub fn push(f: impl FnOnce() -> String) {
        if on() {
            let s = f();
            TRACE.with(|t| t.borrow_mut().as_mut().unwrap().push(s));
        }
    }
    fn sort(v: &mut Value) {
        match v {
            Value::Object(m) => m.values_mut().for_each(sort),
            Value::Array(l) if l.iter().all(|x| x.is_string()) => l.sort_by(|a, b| a.as_str().cmp(&b.as_str())),
            Value::Array(l) => l.iter_mut().for_each(sort),
            _ => (),
        }
    }
    /// JSON with its entries and lists of names in order, anything else as hex
    pub fn plain(b: &[u8]) -> String {
        match serde_json::from_slice::<Value>(b) {
            Ok(mut v @ (Value::Object(_) | Value::Array(_))) => {
                sort(&mut v);
                v.to_string()
            }
            _ => hex::encode(b),
        }
    }
    pub fn response(r: &Result<AppResponse, String>) {
        push(|| match r {
            Err(_) => "refused".to_string(),
            Ok(r) => {
                let mut transfers = vec![];
                let mut out = String::from("ok ");
                for e in &r.events {
                    let l: Vec<String> = e.attributes.iter().map(|a| format!("{}={}", a.key, plain(a.value.as_bytes()))).collect();
                    let l = format!("{}[{}]", e.ty, l.join(" "));
                    if e.ty == "transfer" {
                        transfers.push(l)
                    } else {
                        out += &l
                    }
                }
                transfers.sort();
                format!("{out} {transfers:?} {}", r.data.as_ref().map(|d| plain(d)).unwrap_or_default())
            }
        })
    }
    pub fn query<M: Serialize>(app: &App, contract: &Addr, msg: &M) {
        if !on() {
            return;
        }
        let r = guard(|| app.wrap().query_wasm_smart::<Value>(contract, msg).map(|mut v| {
            sort(&mut v);
            v.to_string()
        }).map_err(|_| ()));
        push(|| format!("query {r:?}"));
    }
}

pub fn events<'a>(r: &'a AppResponse, from: &Addr, name: &str) -> Vec<&'a Event> {
    let ty = format!("wasm-{name}");
    r.events
        .iter()
        .filter(|e| {
            e.ty == ty
                && e.attributes
                    .iter()
                    .any(|a| a.key == "_contract_addr" && a.value == from.as_str())
        })
        .collect()
}
pub fn attr<'a>(e: &'a Event, key: &str) -> Option<&'a str> {
    e.attributes.iter().find(|a| a.key == key).map(|a| a.value.as_str())
}

pub fn w_router() -> Box<dyn Contract<Empty>> {
    use connection_router::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query))
}
pub fn w_gateway() -> Box<dyn Contract<Empty>> {
    use gateway::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query))
}
pub fn w_aggregate_verifier() -> Box<dyn Contract<Empty>> {
    use aggregate_verifier::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query).with_reply(c::reply))
}
pub fn w_voting_verifier() -> Box<dyn Contract<Empty>> {
    use voting_verifier::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query))
}
pub fn w_multisig() -> Box<dyn Contract<Empty>> {
    use multisig::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query))
}
pub fn w_prover() -> Box<dyn Contract<Empty>> {
    use multisig_prover::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query).with_reply(c::reply))
}
pub fn w_rewards() -> Box<dyn Contract<Empty>> {
    use rewards::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, no_query))
}
pub fn w_registry() -> Box<dyn Contract<Empty>> {
    use service_registry::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query))
}
pub fn w_batching() -> Box<dyn Contract<Empty>> {
    use batching::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, no_query).with_reply(c::reply))
}

/// The nexus gateway answers with messages for a chain module that has no counterpart in the
/// simulated chain: they are turned into calls of a recording contract.
pub struct NexusGateway {
    pub module: Addr,
}
fn custom_to_wasm<T: Serialize + std::fmt::Debug>(
    r: cosmwasm_std::Response<T>,
    module: &Addr,
) -> anyhow::Result<cosmwasm_std::Response> {
    use cosmwasm_std::{CosmosMsg, Response, SubMsg};
    let mut out = Response::new().add_attributes(r.attributes).add_events(r.events);
    for m in r.messages {
        let msg = match m.msg {
            CosmosMsg::Custom(c) => WasmMsg::Execute {
                contract_addr: module.to_string(),
                msg: cosmwasm_std::to_binary(&c)?,
                funds: vec![],
            }
            .into(),
            CosmosMsg::Wasm(w) => CosmosMsg::Wasm(w),
            CosmosMsg::Bank(b) => CosmosMsg::Bank(b),
            other => return Err(anyhow::anyhow!("unexpected message {other:?}")),
        };
        out = out.add_submessage(SubMsg {
            id: m.id,
            msg,
            gas_limit: m.gas_limit,
            reply_on: m.reply_on,
        });
    }
    if let Some(d) = r.data {
        out = out.set_data(d);
    }
    Ok(out)
}
impl Contract<Empty> for NexusGateway {
    fn execute(
        &self,
        deps: cosmwasm_std::DepsMut,
        env: cosmwasm_std::Env,
        info: cosmwasm_std::MessageInfo,
        msg: Vec<u8>,
    ) -> anyhow::Result<cosmwasm_std::Response> {
        let r = nexus_gateway::contract::execute(deps, env, info, cosmwasm_std::from_slice(&msg)?)
            .map_err(|e| anyhow::anyhow!("{e}"))?;
        custom_to_wasm(r, &self.module)
    }
    fn instantiate(
        &self,
        deps: cosmwasm_std::DepsMut,
        env: cosmwasm_std::Env,
        info: cosmwasm_std::MessageInfo,
        msg: Vec<u8>,
    ) -> anyhow::Result<cosmwasm_std::Response> {
        nexus_gateway::contract::instantiate(deps, env, info, cosmwasm_std::from_slice(&msg)?)
            .map_err(|e| anyhow::anyhow!("{e}"))
    }
    fn query(&self, _: cosmwasm_std::Deps, _: cosmwasm_std::Env, _: Vec<u8>) -> anyhow::Result<cosmwasm_std::Binary> {
        Err(anyhow::anyhow!("no queries"))
    }
    fn sudo(&self, _: cosmwasm_std::DepsMut, _: cosmwasm_std::Env, _: Vec<u8>) -> anyhow::Result<cosmwasm_std::Response> {
        Err(anyhow::anyhow!("no sudo"))
    }
    fn reply(
        &self,
        _: cosmwasm_std::DepsMut,
        _: cosmwasm_std::Env,
        _: cosmwasm_std::Reply,
    ) -> anyhow::Result<cosmwasm_std::Response> {
        Err(anyhow::anyhow!("no reply"))
    }
    fn migrate(&self, _: cosmwasm_std::DepsMut, _: cosmwasm_std::Env, _: Vec<u8>) -> anyhow::Result<cosmwasm_std::Response> {
        Err(anyhow::anyhow!("no migrate"))
    }
}

fn no_query(_: cosmwasm_std::Deps, _: cosmwasm_std::Env, _: Empty) -> cosmwasm_std::StdResult<cosmwasm_std::Binary> {
    Err(cosmwasm_std::StdError::generic_err("no queries"))
}
