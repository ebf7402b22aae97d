//! A programmable neighbour contract: records every execution in its own storage (so that
//! rolled-back calls leave no record), can be told to fail, and answers queries from a closure.

use anyhow::{anyhow, Result as AnyResult};
use cosmwasm_std::{
    from_binary, from_slice, to_binary, to_vec, Addr, Binary, Coin, Deps, DepsMut, Empty, Env, MessageInfo, Reply,
    Response,
};
use cw_multi_test::Contract;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Rec {
    pub seq: u64,
    pub sender: Addr,
    pub msg: Binary,
    pub funds: Vec<Coin>,
}

impl Rec {
    pub fn json(&self) -> serde_json::Value {
        serde_json::from_slice(&self.msg).unwrap_or(serde_json::Value::Null)
    }
}

pub type QueryFn = Box<dyn Fn(&serde_json::Value) -> Result<Binary, String> + Send>;

#[derive(Default)]
pub struct Ctl {
    pub fail: bool,
    pub query: Option<QueryFn>,
    /// data returned by execute
    pub data: Option<Binary>,
}

pub type CtlRef = Arc<Mutex<Ctl>>;

pub struct Mock(pub CtlRef);

const LEN: &[u8] = b"len";

impl Contract<Empty, Empty> for Mock {
    fn execute(&self, deps: DepsMut, _env: Env, info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response> {
        let ctl = self.0.lock().unwrap();
        if ctl.fail {
            return Err(anyhow!("mock failure"));
        }
        let n: u64 = deps
            .storage
            .get(LEN)
            .map(|b| from_slice(&b).unwrap())
            .unwrap_or(0);
        let rec = Rec {
            seq: n,
            sender: info.sender,
            msg: msg.into(),
            funds: info.funds,
        };
        deps.storage.set(format!("r{n:08}").as_bytes(), &to_vec(&rec)?);
        deps.storage.set(LEN, &to_vec(&(n + 1))?);
        let mut r = Response::new();
        if let Some(d) = &ctl.data {
            r = r.set_data(d.clone());
        }
        Ok(r)
    }
    fn instantiate(&self, _d: DepsMut, _e: Env, _i: MessageInfo, _m: Vec<u8>) -> AnyResult<Response> {
        Ok(Response::new())
    }
    fn query(&self, deps: Deps, _env: Env, msg: Vec<u8>) -> AnyResult<Binary> {
        let v: serde_json::Value = serde_json::from_slice(&msg)?;
        if v.get("__log").is_some() {
            let n: u64 = deps
                .storage
                .get(LEN)
                .map(|b| from_slice(&b).unwrap())
                .unwrap_or(0);
            let recs: Vec<Rec> = (0..n)
                .map(|i| from_slice(&deps.storage.get(format!("r{i:08}").as_bytes()).unwrap()).unwrap())
                .collect();
            return Ok(to_binary(&recs)?);
        }
        let ctl = self.0.lock().unwrap();
        match &ctl.query {
            Some(q) => q(&v).map_err(|e| anyhow!(e)),
            None => Err(anyhow!("mock: unexpected query")),
        }
    }
    fn sudo(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> AnyResult<Response> {
        Err(anyhow!("no sudo"))
    }
    fn reply(&self, _d: DepsMut, _e: Env, _m: Reply) -> AnyResult<Response> {
        Err(anyhow!("no reply"))
    }
    fn migrate(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> AnyResult<Response> {
        Err(anyhow!("no migrate"))
    }
}

pub fn log_query() -> serde_json::Value {
    serde_json::json!({"__log": {}})
}

#[allow(dead_code)]
pub fn decode<T: serde::de::DeserializeOwned>(b: &Binary) -> T {
    from_binary(b).expect("decode")
}
