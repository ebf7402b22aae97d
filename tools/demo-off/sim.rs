//! Simulated surroundings of the worker.
use base64::engine::general_purpose::STANDARD;
use base64::Engine;
use sha3::{Digest, Keccak256};
use std::sync::{Arc, Mutex};
use tendermint::abci;
use tendermint::block::Height;
use tendermint_rpc::endpoint;

pub fn keccak(b: &[u8]) -> [u8; 32] {
    Keccak256::digest(b).into()
}
pub mod keys {
    use k256::ecdsa::signature::hazmat::PrehashVerifier;
    pub fn verify(key: &[u8], digest: &[u8], sig: &[u8]) -> bool {
        let Ok(k) = k256::ecdsa::VerifyingKey::from_sec1_bytes(key) else { return false };
        let Ok(s) = k256::ecdsa::Signature::from_slice(sig) else { return false };
        k.verify_prehash(digest, &s).is_ok()
    }
}

pub fn event(kind: &str, attributes: &[(&str, String)]) -> abci::Event {
    abci::Event {
        kind: kind.into(),
        attributes: attributes
            .iter()
            .map(|(k, v)| abci::EventAttribute { key: STANDARD.encode(k), value: STANDARD.encode(v), index: true })
            .collect(),
    }
}
/// a session of the multisig contract in which one key is asked for
pub fn session(contract: &str, id: u64, worker: &str, key: &[u8], digest: &[u8]) -> abci::Event {
    event(
        "wasm-signing_started",
        &[
            ("_contract_address", contract.into()),
            ("session_id", id.to_string()),
            ("worker_set_id", "set".into()),
            ("pub_keys", format!("{{\"{worker}\":{{\"ecdsa\":\"{}\"}}}}", hex::encode(key))),
            ("msg", hex::encode(digest)),
            ("chain", "ethereum".into()),
        ],
    )
}

/// an Axelar node with blocks from a height on
#[derive(Clone)]
pub struct Node(pub Arc<Mutex<(u64, Vec<Vec<abci::Event>>)>>);
#[async_trait::async_trait]
impl tendermint_rpc::Client for Node {
    async fn latest_block(&self) -> Result<endpoint::block::Response, tendermint_rpc::Error> {
        let n = self.0.lock().unwrap();
        let height = (n.0 + n.1.len() as u64 - 1).try_into().expect("height");
        Ok(endpoint::block::Response { block: endpoint::block::Block { header: endpoint::block::Header { height } } })
    }
    async fn block_results(&self, h: Height) -> Result<endpoint::block_results::Response, tendermint_rpc::Error> {
        let n = self.0.lock().unwrap();
        let events = n.1.get((h.value() - n.0) as usize).cloned().ok_or_else(|| tendermint_rpc::Error("no block".into()))?;
        Ok(endpoint::block_results::Response {
            height: h,
            begin_block_events: None,
            txs_results: Some(vec![endpoint::block_results::TxResult { events }]),
            end_block_events: None,
        })
    }
}
