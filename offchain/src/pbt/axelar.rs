//! The services the worker depends on, simulated: the transaction and account services of an Axelar
//! node and the key store. They are honest; the faults they can have are scripted by the checks.
use cosmos_sdk_proto::cosmos::auth::v1beta1::{query_client, BaseAccount, QueryAccountRequest, QueryAccountResponse};
use cosmos_sdk_proto::cosmos::base::abci::v1beta1::{GasInfo, TxResponse};
use cosmos_sdk_proto::cosmos::tx::v1beta1::{
    service_client, BroadcastMode, BroadcastTxRequest, BroadcastTxResponse, GetTxRequest, GetTxResponse, SimulateRequest,
    SimulateResponse, TxRaw,
};
use cosmos_sdk_proto::traits::MessageExt;
use cosmrs::cosmwasm::MsgExecuteContract;
use cosmrs::tx::{AuthInfo, Body, SignDoc};
use cosmrs::Any;
use k256::ecdsa::signature::hazmat::PrehashSigner;
use k256::ecdsa::{Signature, SigningKey};
use k256::sha2::{Digest, Sha256};
use std::sync::{Arc, Mutex};
use tonic::{KeyStore, Status};

pub const GRPC: &str = "http://axelar:9090";
pub const TOFND: &str = "http://tofnd:50051";

/// a key is derived from the seed for every key id
pub fn derive(seed: u64, uid: &str) -> SigningKey {
    let d = super::sim::keccak(format!("{seed}/{uid}").as_bytes());
    SigningKey::from_bytes((&d).into()).expect("scalar")
}
pub fn public(k: &SigningKey) -> Vec<u8> {
    k.verifying_key().to_encoded_point(true).as_bytes().to_vec()
}
pub fn sha256(b: &[u8]) -> Vec<u8> {
    Sha256::digest(b).to_vec()
}

/// what a service does with a call
#[derive(Clone, Debug, PartialEq)]
pub enum Fate {
    Fine,
    /// no answer
    Fails,
    /// an answer without content
    Empty,
    /// an answer that reports an error
    Reports,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SignCall {
    pub party: String,
    pub uid: String,
    pub digest: Vec<u8>,
    pub key: Vec<u8>,
}
#[derive(Default)]
pub struct Tofnd {
    pub seed: u64,
    pub keygens: Vec<(String, String)>,
    pub signs: Vec<SignCall>,
    /// applied to the next calls
    pub keygen_fate: Option<Fate>,
    pub sign_fate: Option<Fate>,
    /// the call that fails, counted from one
    pub sign_fails_at: Option<usize>,
    pub failed: bool,
}
pub fn serve_tofnd(t: &Arc<Mutex<Tofnd>>) {
    let (a, b) = (t.clone(), t.clone());
    let fate = |f: &Option<Fate>| -> Option<tonic::Answer> {
        match f {
            None | Some(Fate::Fine) => None,
            Some(Fate::Fails) => Some(Err(Status::unavailable("key store"))),
            Some(Fate::Empty) => Some(Ok(None)),
            Some(Fate::Reports) => Some(Ok(Some(Err("refused".into())))),
        }
    };
    let store = KeyStore {
        keygen: Box::new(move |party, uid| {
            let mut t = a.lock().unwrap();
            t.keygens.push((party.into(), uid.into()));
            if let Some(x) = fate(&t.keygen_fate) {
                return x;
            }
            Ok(Some(Ok(public(&derive(t.seed, uid)))))
        }),
        sign: Box::new(move |party, uid, digest, key| {
            let mut t = b.lock().unwrap();
            t.signs.push(SignCall { party: party.into(), uid: uid.into(), digest: digest.into(), key: key.into() });
            if t.sign_fails_at == Some(t.signs.len()) {
                t.failed = true;
                return Err(Status::unavailable("key store"));
            }
            if let Some(x) = fate(&t.sign_fate) {
                return x;
            }
            let k = derive(t.seed, uid);
            if digest.len() != 32 {
                return Ok(Some(Err("not a digest".into())));
            }
            // the key has to be the one of this id
            if !key.is_empty() && key != public(&k) {
                return Ok(Some(Err("no seed matches the public key".into())));
            }
            let s: Signature = k.sign_prehash(digest).expect("signature");
            Ok(Some(Ok(s.to_der().as_bytes().to_vec())))
        }),
    };
    tonic::serve("tofnd", TOFND, Arc::new(store));
}

/// a transaction as the node sees it
#[derive(Clone, Debug)]
pub struct Seen {
    pub raw: TxRaw,
    pub body: Body,
    pub auth: AuthInfo,
}
pub fn decode(b: &[u8]) -> Result<Seen, String> {
    let raw: TxRaw = serde_json::from_slice(b).map_err(|e| format!("transaction: {e}"))?;
    Ok(Seen {
        body: serde_json::from_slice(&raw.body_bytes).map_err(|e| format!("body: {e}"))?,
        auth: serde_json::from_slice(&raw.auth_info_bytes).map_err(|e| format!("auth info: {e}"))?,
        raw,
    })
}
pub fn executed(a: &Any) -> Option<MsgExecuteContract> {
    if a.type_url != "/cosmwasm.wasm.v1.MsgExecuteContract" {
        return None;
    }
    serde_json::from_slice(&a.value).ok()
}

/// what becomes of a transaction that was sent, question by question
#[derive(Clone, Debug, PartialEq)]
pub enum Poll {
    Error,
    Unknown,
    Code(u32),
}
pub struct Chain {
    pub chain_id: String,
    pub address: String,
    pub number: u64,
    pub sequence: u64,
    pub key: Vec<u8>,
    /// None: gas by the number of messages
    pub gas: Option<u64>,
    pub simulate_fate: Fate,
    pub broadcast_fate: Fate,
    pub account_fate: Fate,
    /// the answers about the next transaction; the last one is repeated
    pub polls: Vec<Poll>,
    /// the broadcast (counted from one) after which the node does not answer
    pub dies_at: Option<usize>,
    pub failed: bool,

    pub simulated: Vec<Seen>,
    pub sent: Vec<(Seen, i32)>,
    pub asked: Vec<String>,
    pub accounts: Vec<String>,
    /// executed messages, with the height at that time
    pub done: Vec<(u64, Any)>,
    pub height: u64,
    /// transactions that are not acceptable
    pub wrong: Vec<String>,
    current: Vec<Poll>,
}
impl Chain {
    pub fn new(chain_id: &str, address: &str, number: u64, sequence: u64, key: Vec<u8>) -> Chain {
        Chain {
            chain_id: chain_id.into(),
            address: address.into(),
            number,
            sequence,
            key,
            gas: None,
            simulate_fate: Fate::Fine,
            broadcast_fate: Fate::Fine,
            account_fate: Fate::Fine,
            polls: vec![Poll::Code(0)],
            dies_at: None,
            failed: false,
            simulated: vec![],
            sent: vec![],
            asked: vec![],
            accounts: vec![],
            done: vec![],
            height: 1,
            wrong: vec![],
            current: vec![],
        }
    }
    pub fn hash(tx_bytes: &[u8]) -> String {
        hex::encode_upper(sha256(tx_bytes))
    }
    fn acceptable(&self, s: &Seen) -> Result<(), String> {
        let [info] = s.auth.signer_infos.as_slice() else { return Err("not one signer".into()) };
        if info.public_key.map(|k| k.to_bytes()).as_ref() != Some(&self.key) {
            return Err(format!("signer {:?} instead of {}", info.public_key, hex::encode(&self.key)));
        }
        if info.sequence != self.sequence {
            return Err(format!("sequence {} instead of {}", info.sequence, self.sequence));
        }
        let doc = SignDoc {
            body_bytes: s.raw.body_bytes.clone(),
            auth_info_bytes: s.raw.auth_info_bytes.clone(),
            chain_id: self.chain_id.clone(),
            account_number: self.number,
        };
        let d = sha256(&doc.into_bytes().map_err(|e| e.to_string())?);
        let [sig] = s.raw.signatures.as_slice() else { return Err("not one signature".into()) };
        if !crate::util::keys::verify(&self.key, &d, sig) {
            return Err("the signature is not valid for this account and chain".into());
        }
        Ok(())
    }
}
#[derive(Clone)]
struct Service(Arc<Mutex<Chain>>);
pub fn serve_chain(c: &Arc<Mutex<Chain>>) {
    tonic::serve::<Arc<dyn service_client::Service>>("tx", GRPC, Arc::new(Service(c.clone())));
    tonic::serve::<Arc<dyn query_client::Service>>("auth", GRPC, Arc::new(Service(c.clone())));
}
impl query_client::Service for Service {
    fn account(&self, r: QueryAccountRequest) -> Result<QueryAccountResponse, Status> {
        let mut c = self.0.lock().unwrap();
        c.accounts.push(r.address.clone());
        match c.account_fate {
            Fate::Fails => return Err(Status::unavailable("node")),
            Fate::Empty => return Ok(QueryAccountResponse { account: None }),
            Fate::Reports => {
                return Ok(QueryAccountResponse { account: Some(Any { type_url: "x".into(), value: vec![1, 2] }) })
            }
            Fate::Fine => {}
        }
        if r.address != c.address {
            return Err(Status::not_found("account"));
        }
        let a = BaseAccount { address: r.address, pub_key: None, account_number: c.number, sequence: c.sequence };
        Ok(QueryAccountResponse { account: Some(a.to_any().map_err(|e| Status::internal(e.to_string()))?) })
    }
}
#[async_trait::async_trait]
impl service_client::Service for Service {
    async fn simulate(&self, r: SimulateRequest) -> Result<SimulateResponse, Status> {
        let mut c = self.0.lock().unwrap();
        let s = match decode(&r.tx_bytes) {
            Ok(s) => s,
            Err(e) => {
                c.wrong.push(e.clone());
                return Err(Status::invalid_argument(e));
            }
        };
        let n = s.body.messages.len() as u64;
        c.simulated.push(s);
        if c.failed {
            return Err(Status::unavailable("node"));
        }
        match c.simulate_fate {
            Fate::Fails => Err(Status::unavailable("node")),
            Fate::Reports => Err(Status::invalid_argument("execution fails")),
            Fate::Empty => Ok(SimulateResponse { gas_info: None }),
            Fate::Fine => {
                let gas_used = c.gas.unwrap_or(1000 * n);
                Ok(SimulateResponse { gas_info: Some(GasInfo { gas_wanted: 0, gas_used }) })
            }
        }
    }
    async fn broadcast_tx(&self, r: BroadcastTxRequest) -> Result<BroadcastTxResponse, Status> {
        let mut c = self.0.lock().unwrap();
        let s = match decode(&r.tx_bytes) {
            Ok(s) => s,
            Err(e) => {
                c.wrong.push(e.clone());
                return Err(Status::invalid_argument(e));
            }
        };
        c.sent.push((s.clone(), r.mode));
        if c.dies_at == Some(c.sent.len()) {
            c.failed = true;
        }
        if c.failed {
            return Err(Status::unavailable("node"));
        }
        match c.broadcast_fate {
            Fate::Fails | Fate::Reports => return Err(Status::unavailable("node")),
            Fate::Empty => return Ok(BroadcastTxResponse { tx_response: None }),
            Fate::Fine => {}
        }
        let txhash = Chain::hash(&r.tx_bytes);
        c.current = c.polls.clone();
        if let Err(e) = c.acceptable(&s) {
            c.wrong.push(e.clone());
            c.current = vec![Poll::Unknown];
            return Ok(BroadcastTxResponse { tx_response: Some(TxResponse { txhash, code: 32, raw_log: e, ..Default::default() }) });
        }
        if c.current.iter().any(|p| matches!(p, Poll::Code(_))) {
            c.sequence += 1;
        }
        if c.current.contains(&Poll::Code(0)) {
            let h = c.height;
            c.done.extend(s.body.messages.iter().map(|m| (h, m.clone())));
        }
        let height = 0;
        Ok(BroadcastTxResponse { tx_response: Some(TxResponse { txhash, height, ..Default::default() }) })
    }
    async fn get_tx(&self, r: GetTxRequest) -> Result<GetTxResponse, Status> {
        let mut c = self.0.lock().unwrap();
        c.asked.push(r.hash.clone());
        let p = if c.current.len() > 1 { c.current.remove(0) } else { c.current.first().cloned().unwrap_or(Poll::Unknown) };
        match p {
            Poll::Error => Err(Status::unavailable("node")),
            Poll::Unknown => Ok(GetTxResponse { tx: None, tx_response: None }),
            Poll::Code(code) => {
                let height = c.height as i64;
                Ok(GetTxResponse {
                    tx: None,
                    tx_response: Some(TxResponse { txhash: r.hash, code, height, ..Default::default() }),
                })
            }
        }
    }
}
pub const SYNC: i32 = BroadcastMode::Sync as i32;
