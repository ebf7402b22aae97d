//! Stand-in for the parts of sui-json-rpc-types used by the off-chain worker.
use move_core_types::language_storage::StructTag;
use serde::{Deserialize, Serialize};
use sui_types::{base_types::SuiAddress, digests::TransactionDigest, event::EventID};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SuiEvent {
    pub id: EventID,
    pub package_id: SuiAddress,
    pub transaction_module: String,
    pub sender: SuiAddress,
    #[serde(rename = "type")]
    pub type_: StructTag,
    pub parsed_json: serde_json::Value,
    pub bcs: Vec<u8>,
    pub timestamp_ms: Option<u64>,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(transparent)]
pub struct SuiTransactionBlockEvents {
    pub data: Vec<SuiEvent>,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SuiTransactionBlockResponse {
    pub digest: TransactionDigest,
    pub events: Option<SuiTransactionBlockEvents>,
    pub checkpoint: Option<u64>,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase", default)]
pub struct SuiTransactionBlockResponseOptions {
    pub show_events: bool,
}
impl SuiTransactionBlockResponseOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_events(mut self) -> Self {
        self.show_events = true;
        self
    }
}
