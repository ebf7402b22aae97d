//! Stand-in for the parts of tendermint-rpc used by the off-chain worker.
use tendermint::{abci, block::Height};
#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub mod endpoint {
    pub mod block {
        use super::super::*;
        #[derive(Clone, Debug)]
        pub struct Header {
            pub height: Height,
        }
        #[derive(Clone, Debug)]
        pub struct Block {
            pub header: Header,
        }
        impl Block {
            pub fn header(&self) -> &Header {
                &self.header
            }
        }
        #[derive(Clone, Debug)]
        pub struct Response {
            pub block: Block,
        }
    }
    pub mod block_results {
        use super::super::*;
        #[derive(Clone, Debug)]
        pub struct TxResult {
            pub events: Vec<abci::Event>,
        }
        #[derive(Clone, Debug)]
        pub struct Response {
            pub height: Height,
            pub txs_results: Option<Vec<TxResult>>,
            pub begin_block_events: Option<Vec<abci::Event>>,
            pub end_block_events: Option<Vec<abci::Event>>,
        }
    }
}
thread_local!(static NODES: std::cell::RefCell<std::collections::BTreeMap<String, std::sync::Arc<dyn Client + Send + Sync>>> = Default::default());
/// the node behind an address, for the clients made in this thread
pub fn serve(url: &str, c: std::sync::Arc<dyn Client + Send + Sync>) {
    NODES.with(|n| n.borrow_mut().insert(url.trim_end_matches('/').into(), c));
}
#[derive(Clone)]
pub struct HttpClient(std::sync::Arc<dyn Client + Send + Sync>);
impl HttpClient {
    pub fn new(url: &str) -> Result<Self, Error> {
        NODES.with(|n| n.borrow().get(url.trim_end_matches('/')).cloned().map(HttpClient).ok_or_else(|| Error(format!("no node at {url}"))))
    }
}
#[async_trait::async_trait]
pub trait Client {
    async fn latest_block(&self) -> Result<endpoint::block::Response, Error>;
    async fn block_results(&self, h: Height) -> Result<endpoint::block_results::Response, Error>;
}
#[async_trait::async_trait]
impl Client for HttpClient {
    async fn latest_block(&self) -> Result<endpoint::block::Response, Error> {
        self.0.latest_block().await
    }
    async fn block_results(&self, h: Height) -> Result<endpoint::block_results::Response, Error> {
        self.0.block_results(h).await
    }
}
