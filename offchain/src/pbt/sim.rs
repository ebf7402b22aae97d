//! A simulated source chain behind the JSON-RPC interface of the worker, and the worker's
//! connection to Axelar (recorded transactions).
use cosmwasm_std::Uint256;
use crate::engine::*;
use crate::queue::queued_broadcaster::{self, BroadcasterClient};
use async_trait::async_trait;
use cosmrs::cosmwasm::MsgExecuteContract;
use cosmrs::tx::Msg;
use error_stack::Report;
use ethers::providers::{JsonRpcClient, ProviderError};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use sha3::{Digest, Keccak256};
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::sync::{Arc, Mutex};

pub fn keccak(b: &[u8]) -> [u8; 32] {
    Keccak256::digest(b).into()
}
pub fn hx(b: &[u8]) -> String {
    format!("0x{}", hex::encode(b))
}
fn q(x: u64) -> String {
    format!("0x{x:x}")
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// an EVM chain that reports its finalized block
    Ethereum,
    /// an EVM chain where a number of confirmations is waited for
    OtherEvm,
    Sui,
}
impl Kind {
    pub fn addr_len(self) -> usize {
        if self == Kind::Sui {
            32
        } else {
            20
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct OpSet {
    /// on Sui, weights and the threshold have 128 bits
    pub ops: Vec<(Vec<u8>, Uint256)>,
    pub threshold: Uint256,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Call { sender: Vec<u8>, chain: String, dest: String, hash: [u8; 32], payload: Vec<u8> },
    Ops(OpSet),
    /// an event that is like a call but for its name
    Approved { sender: Vec<u8>, chain: String, dest: String, hash: [u8; 32] },
    Garbage(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Log {
    pub emitter: Vec<u8>,
    pub index: u64,
    pub ev: Ev,
    /// the node attributes the log to another transaction
    pub other_tx: bool,
    /// Sui only: emitted by another module of the package
    pub other_module: bool,
}

#[derive(Clone, Debug)]
pub struct Tx {
    pub hash: [u8; 32],
    /// block (EVM) or checkpoint (Sui) that includes the transaction
    pub block: Option<u64>,
    pub logs: Vec<Log>,
}

#[derive(Clone, Debug)]
pub struct SourceChain {
    pub kind: Kind,
    pub txs: Vec<Tx>,
    pub latest: u64,
    pub finalized: u64,
}

/// how the worker's node answers
#[derive(Clone, Debug, Default)]
pub struct Node {
    /// blocks the node is behind
    pub lag: u64,
    pub finality_fails: bool,
    pub receipts_fail: BTreeSet<[u8; 32]>,
    pub multi_fails: bool,
    /// requests for one transaction are answered with another one
    pub swap: Option<([u8; 32], [u8; 32])>,
    /// Sui: unknown transactions are left out of the answer
    pub omits_unknown: bool,
}
impl Node {
    pub fn faulty(&self) -> bool {
        self.finality_fails || self.multi_fails || !self.receipts_fail.is_empty() || self.swap.is_some()
    }
}

#[derive(Clone, Debug)]
pub struct Rpc {
    pub chain: Arc<Mutex<SourceChain>>,
    pub node: Arc<Mutex<Node>>,
}

fn pad(b: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8; (32 - b.len() % 32) % 32];
    v.extend_from_slice(b);
    v
}
fn word(x: u128) -> [u8; 32] {
    let mut w = [0u8; 32];
    w[16..].copy_from_slice(&x.to_be_bytes());
    w
}
fn tail(b: &[u8]) -> Vec<u8> {
    let mut v = word(b.len() as u128).to_vec();
    v.extend_from_slice(b);
    v.resize((v.len() + 31) / 32 * 32, 0);
    v
}
/// ABI encoding of dynamic byte strings
pub fn abi_dyn(parts: &[&[u8]]) -> Vec<u8> {
    let mut head = vec![];
    let mut body = vec![];
    for p in parts {
        head.extend_from_slice(&word((parts.len() * 32 + body.len()) as u128));
        body.extend(tail(p));
    }
    head.extend(body);
    head
}
impl OpSet {
    /// abi.encode(address[], uint256[], uint256)
    pub fn evm(&self) -> Vec<u8> {
        let n = self.ops.len();
        let mut v = vec![];
        v.extend_from_slice(&word(96));
        v.extend_from_slice(&word(96 + 32 + 32 * n as u128));
        v.extend_from_slice(&self.threshold.to_be_bytes());
        v.extend_from_slice(&word(n as u128));
        for (a, _) in &self.ops {
            v.extend(pad(a));
        }
        v.extend_from_slice(&word(n as u128));
        for (_, w) in &self.ops {
            v.extend_from_slice(&w.to_be_bytes());
        }
        v
    }
    /// BCS of (vector<vector<u8>>, vector<u128>, u128)
    pub fn sui(&self) -> Vec<u8> {
        let mut v = vec![];
        let uleb = |v: &mut Vec<u8>, mut n: usize| loop {
            let b = (n & 0x7f) as u8;
            n >>= 7;
            if n == 0 {
                v.push(b);
                break;
            }
            v.push(b | 0x80);
        };
        uleb(&mut v, self.ops.len());
        for (a, _) in &self.ops {
            uleb(&mut v, a.len());
            v.extend_from_slice(a);
        }
        uleb(&mut v, self.ops.len());
        for (_, w) in &self.ops {
            v.extend_from_slice(&w.to_le_bytes()[..16]);
        }
        v.extend_from_slice(&self.threshold.to_le_bytes()[..16]);
        v
    }
}

fn evm_log(tx: &Tx, l: &Log, i: usize) -> Value {
    let (topics, data) = match &l.ev {
        Ev::Call { sender, chain, dest, hash, payload } => (
            vec![
                hx(&keccak(b"ContractCall(address,string,string,bytes32,bytes)")),
                hx(&pad(sender)),
                hx(hash),
            ],
            abi_dyn(&[chain.as_bytes(), dest.as_bytes(), payload]),
        ),
        Ev::Approved { sender, chain, dest, hash } => (
            vec![
                hx(&keccak(b"ContractCallExecuted(address,string,string,bytes32,bytes)")),
                hx(&pad(sender)),
                hx(hash),
            ],
            abi_dyn(&[chain.as_bytes(), dest.as_bytes(), b""]),
        ),
        Ev::Ops(o) => (vec![hx(&keccak(b"OperatorshipTransferred(bytes)"))], abi_dyn(&[&o.evm()])),
        Ev::Garbage(b) => (vec![hx(&keccak(b))], b.clone()),
    };
    let mut h = tx.hash;
    if l.other_tx {
        h[31] ^= 1;
    }
    json!({
        "address": hx(&l.emitter), "topics": topics, "data": hx(&data),
        "blockHash": hx(&keccak(b"block")), "blockNumber": tx.block.map(q),
        "transactionHash": hx(&h), "transactionIndex": "0x0", "logIndex": q(l.index),
        "transactionLogIndex": q(i as u64), "removed": false,
    })
}
fn receipt(tx: &Tx) -> Value {
    json!({
        "transactionHash": hx(&tx.hash), "transactionIndex": "0x0",
        "blockHash": tx.block.map(|_| hx(&keccak(b"block"))), "blockNumber": tx.block.map(q),
        "from": hx(&[1; 20]), "to": hx(&[2; 20]), "cumulativeGasUsed": "0x1", "gasUsed": "0x1",
        "contractAddress": null, "status": "0x1", "logsBloom": hx(&[0; 256]), "type": "0x2",
        "logs": tx.logs.iter().enumerate().map(|(i, l)| evm_log(tx, l, i)).collect::<Vec<_>>(),
    })
}
pub fn b58(b: &[u8]) -> String {
    let d = sui_types::digests::TransactionDigest::new(b.try_into().unwrap());
    d.base58_encode()
}
fn sui_tx(tx: &Tx, events: bool) -> Value {
    let ev = |l: &Log| {
        let (module, name, parsed) = match &l.ev {
            Ev::Call { sender, chain, dest, hash, .. } => (
                "gateway",
                "ContractCall",
                json!({"source_id": hx(sender), "destination_chain": chain, "destination_address": dest, "payload_hash": hx(hash)}),
            ),
            Ev::Approved { sender, chain, dest, hash } => (
                "gateway",
                "ContractCallApproved",
                json!({"source_id": hx(sender), "destination_chain": chain, "destination_address": dest, "payload_hash": hx(hash)}),
            ),
            Ev::Ops(o) => ("validators", "OperatorshipTransferred", json!({"epoch": 3, "payload": o.sui()})),
            Ev::Garbage(b) => ("gateway", "ContractCall", json!({"bytes": b})),
        };
        let module = if l.other_module { "imitation" } else { module };
        json!({
            "id": {"txDigest": b58(&tx.hash), "eventSeq": l.index}, "packageId": hx(&l.emitter),
            "transactionModule": module, "sender": hx(&[7; 32]),
            "type": format!("{}::{module}::{name}", hx(&l.emitter)), "parsedJson": parsed,
            "bcs": [], "timestampMs": null,
        })
    };
    json!({
        "digest": b58(&tx.hash), "checkpoint": tx.block,
        "events": if events { Some(tx.logs.iter().map(ev).collect::<Vec<_>>()) } else { None },
    })
}

impl Rpc {
    pub fn answer(&self, method: &str, params: Value) -> Result<Value, String> {
        let c = self.chain.lock().unwrap();
        let node = self.node.lock().unwrap();
        let latest = c.latest.saturating_sub(node.lag);
        let visible = |h: &[u8; 32]| -> Option<Tx> {
            let h = match &node.swap {
                Some((a, b)) if a == h => b,
                _ => h,
            };
            let mut t = c.txs.iter().find(|t| t.hash == *h)?.clone();
            match t.block {
                // a transaction that the node has not seen in a block yet
                Some(b) if b > latest && b % 2 == 0 => return None,
                Some(b) if b > latest => t.block = None,
                _ => {}
            }
            Some(t)
        };
        match (method, c.kind) {
            ("eth_blockNumber", Kind::Ethereum | Kind::OtherEvm) => {
                if node.finality_fails {
                    return Err("no block".into());
                }
                Ok(json!(q(latest)))
            }
            ("eth_getBlockByNumber", Kind::Ethereum | Kind::OtherEvm) => {
                if node.finality_fails {
                    return Err("no block".into());
                }
                let n = match params[0].as_str() {
                    Some("finalized") | Some("safe") => c.finalized.min(latest),
                    Some("latest") | Some("pending") => latest,
                    Some(x) => u64::from_str_radix(x.trim_start_matches("0x"), 16).map_err(|e| e.to_string())?,
                    None => return Err("no block number".into()),
                };
                let b = ethers::types::Block::<ethers::types::H256> {
                    number: Some(n.into()),
                    ..Default::default()
                };
                serde_json::to_value(b).map_err(|e| e.to_string())
            }
            ("eth_getTransactionReceipt", Kind::Ethereum | Kind::OtherEvm) => {
                let h = hash_of(params[0].as_str().unwrap_or_default())?;
                if node.receipts_fail.contains(&h) {
                    return Err("no receipt".into());
                }
                Ok(visible(&h).map(|t| receipt(&t)).unwrap_or(Value::Null))
            }
            ("sui_getTransactionBlock", Kind::Sui) => {
                let h = digest_of(params[0].as_str().unwrap_or_default())?;
                if node.receipts_fail.contains(&h) || node.multi_fails {
                    return Err("no transaction".into());
                }
                match visible(&h) {
                    Some(t) => Ok(sui_tx(&t, params[1]["showEvents"] == json!(true))),
                    None => Err("Could not find the referenced transaction".into()),
                }
            }
            ("sui_multiGetTransactionBlocks", Kind::Sui) => {
                let hs: Vec<[u8; 32]> = params[0]
                    .as_array()
                    .ok_or("no digests")?
                    .iter()
                    .map(|d| digest_of(d.as_str().unwrap_or_default()))
                    .collect::<Result<_, _>>()?;
                if node.multi_fails || hs.iter().any(|h| node.receipts_fail.contains(h)) {
                    return Err("no transactions".into());
                }
                if hs.iter().collect::<BTreeSet<_>>().len() != hs.len() {
                    return Err("The list of digests in the input contains duplicates".into());
                }
                let mut out = vec![];
                for h in hs {
                    match visible(&h) {
                        Some(t) => out.push(sui_tx(&t, params[1]["showEvents"] == json!(true))),
                        None if node.omits_unknown => {}
                        None => out.push(json!({"digest": b58(&h), "checkpoint": null, "events": null})),
                    }
                }
                Ok(json!(out))
            }
            _ => Err(format!("unknown method {method}")),
        }
    }
}
fn hash_of(s: &str) -> Result<[u8; 32], String> {
    let v = hex::decode(s.trim_start_matches("0x")).map_err(|e| e.to_string())?;
    v.try_into().map_err(|_| "length".to_string())
}
fn digest_of(s: &str) -> Result<[u8; 32], String> {
    s.parse::<sui_types::digests::TransactionDigest>().map(|d| d.0)
}

#[async_trait]
impl JsonRpcClient for Rpc {
    type Error = ProviderError;
    async fn request<T, R>(&self, method: &str, params: T) -> Result<R, ProviderError>
    where
        T: Debug + Serialize + Send + Sync,
        R: DeserializeOwned + Send,
    {
        let p = serde_json::to_value(&params).map_err(ProviderError::SerdeJson)?;
        let a = self.answer(method, p).map_err(ProviderError::CustomError)?;
        serde_json::from_value(a).map_err(ProviderError::SerdeJson)
    }
}

/// records what the worker sends
#[derive(Clone, Default)]
pub struct Sender {
    pub sent: Arc<Mutex<Vec<MsgExecuteContract>>>,
    pub fails: Arc<Mutex<bool>>,
}
impl Sender {
    pub fn take(&self) -> Vec<MsgExecuteContract> {
        std::mem::take(&mut *self.sent.lock().unwrap())
    }
}
#[async_trait]
impl BroadcasterClient for Sender {
    async fn broadcast<T>(&self, tx: T) -> error_stack::Result<(), queued_broadcaster::Error>
    where
        T: Msg + Send + Sync + 'static,
    {
        if *self.fails.lock().unwrap() {
            return Err(Report::new(queued_broadcaster::Error::Broadcast));
        }
        let any = tx
            .into_any()
            .map_err(|e| Report::new(queued_broadcaster::Error::Proto(e.to_string())))?;
        let m: MsgExecuteContract = serde_json::from_slice(&any.value)
            .map_err(|e| Report::new(queued_broadcaster::Error::Proto(format!("{}: {e}", any.type_url))))?;
        self.sent.lock().unwrap().push(m);
        Ok(())
    }
}

/// the events of a transaction as a node reports them
pub fn abci(events: &[cosmwasm_std::Event]) -> Vec<tendermint::abci::Event> {
    use base64::{engine::general_purpose::STANDARD, Engine};
    events
        .iter()
        .map(|e| tendermint::abci::Event {
            kind: e.ty.clone(),
            attributes: e
                .attributes
                .iter()
                .map(|a| tendermint::abci::EventAttribute {
                    key: STANDARD.encode(if a.key == "_contract_addr" { "_contract_address" } else { &a.key }),
                    value: STANDARD.encode(&a.value),
                    index: true,
                })
                .collect(),
        })
        .collect()
}
pub fn decoded(events: &[cosmwasm_std::Event]) -> R<Vec<events::Event>> {
    let mut out = vec![];
    for e in abci(events) {
        match events::Event::try_from(e) {
            Ok(e) => out.push(e),
            Err(e) => return fail(format!("event of a contract cannot be decoded: {e}")),
        }
    }
    Ok(out)
}
pub fn tm(a: &str) -> crate::types::TMAddress {
    a.parse::<cosmrs::AccountId>().expect("account").into()
}
impl ethers::providers::Backend for Rpc {
    fn answer(&self, method: &str, params: Value) -> Result<Value, String> {
        Rpc::answer(self, method, params)
    }
}
