//! Stand-in for the parts of cosmos-sdk-proto used by the off-chain worker. Messages are encoded as JSON.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct Any {
    pub type_url: String,
    pub value: Vec<u8>,
}
#[derive(Debug)]
pub struct DecodeError(pub String);
impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for DecodeError {}
pub mod traits {
    use super::*;
    pub trait Message: Sized + Serialize + serde::de::DeserializeOwned {
        fn decode(b: &[u8]) -> Result<Self, DecodeError> {
            serde_json::from_slice(b).map_err(|e| DecodeError(e.to_string()))
        }
        fn encode_to_vec(&self) -> Vec<u8> {
            serde_json::to_vec(self).expect("encoding")
        }
    }
    pub trait MessageExt: Message {
        fn to_bytes(&self) -> Result<Vec<u8>, DecodeError> {
            Ok(self.encode_to_vec())
        }
        fn to_any(&self) -> Result<Any, DecodeError> {
            Ok(Any { type_url: std::any::type_name::<Self>().into(), value: self.to_bytes()? })
        }
    }
    impl<T: Sized + Serialize + serde::de::DeserializeOwned> Message for T {}
    impl<T: Message> MessageExt for T {}
}
pub mod cosmos {
    pub mod base {
        pub mod v1beta1 {
            #[derive(Clone, Debug, Default, PartialEq, serde::Serialize, serde::Deserialize)]
            pub struct DecCoin {
                pub denom: String,
                pub amount: String,
            }
        }
        pub mod abci {
            pub mod v1beta1 {
                #[derive(Clone, Debug, Default, PartialEq)]
                pub struct TxResponse {
                    pub height: i64,
                    pub txhash: String,
                    pub codespace: String,
                    pub code: u32,
                    pub data: String,
                    pub raw_log: String,
                    pub gas_wanted: i64,
                    pub gas_used: i64,
                    pub timestamp: String,
                }
                #[derive(Clone, Debug, Default, PartialEq)]
                pub struct GasInfo {
                    pub gas_wanted: u64,
                    pub gas_used: u64,
                }
            }
        }
    }
    pub mod auth {
        pub mod v1beta1 {
            use crate::Any;
            use serde::{Deserialize, Serialize};
            #[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
            pub struct BaseAccount {
                pub address: String,
                pub pub_key: Option<Any>,
                pub account_number: u64,
                pub sequence: u64,
            }
            #[derive(Clone, Debug, Default, PartialEq)]
            pub struct QueryAccountRequest {
                pub address: String,
            }
            #[derive(Clone, Debug, Default, PartialEq)]
            pub struct QueryAccountResponse {
                pub account: Option<Any>,
            }
            pub mod query_client {
                use super::*;
                use std::sync::Arc;
                use tonic::{Response, Status};
                pub trait Service: Send + Sync {
                    fn account(&self, r: QueryAccountRequest) -> Result<QueryAccountResponse, Status>;
                }
                pub struct QueryClient<C>(Arc<dyn Service>, std::marker::PhantomData<C>);
                impl QueryClient<tonic::transport::Channel> {
                    pub async fn connect(url: String) -> Result<Self, tonic::transport::Error> {
                        Ok(Self(tonic::find::<Arc<dyn Service>>("auth", &url)?, std::marker::PhantomData))
                    }
                }
                impl<C> QueryClient<C> {
                    pub async fn account(&mut self, r: QueryAccountRequest) -> Result<Response<QueryAccountResponse>, Status> {
                        self.0.account(r).map(Response)
                    }
                }
            }
        }
    }
    pub mod tx {
        pub mod v1beta1 {
            use crate::cosmos::base::abci::v1beta1::{GasInfo, TxResponse};
            use serde::{Deserialize, Serialize};
            #[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
            pub struct TxRaw {
                pub body_bytes: Vec<u8>,
                pub auth_info_bytes: Vec<u8>,
                pub signatures: Vec<Vec<u8>>,
            }
            #[derive(Clone, Debug, Default, PartialEq)]
            pub struct Tx {}
            #[derive(Clone, Copy, Debug, PartialEq)]
            #[repr(i32)]
            pub enum BroadcastMode {
                Unspecified = 0,
                Block = 1,
                Sync = 2,
                Async = 3,
            }
            #[derive(Clone, Debug, Default, PartialEq)]
            pub struct BroadcastTxRequest {
                pub tx_bytes: Vec<u8>,
                pub mode: i32,
            }
            #[derive(Clone, Debug, Default, PartialEq)]
            pub struct BroadcastTxResponse {
                pub tx_response: Option<TxResponse>,
            }
            #[derive(Clone, Debug, Default, PartialEq)]
            pub struct SimulateRequest {
                pub tx: Option<Tx>,
                pub tx_bytes: Vec<u8>,
            }
            #[derive(Clone, Debug, Default, PartialEq)]
            pub struct SimulateResponse {
                pub gas_info: Option<GasInfo>,
            }
            #[derive(Clone, Debug, Default, PartialEq)]
            pub struct GetTxRequest {
                pub hash: String,
            }
            #[derive(Clone, Debug, Default, PartialEq)]
            pub struct GetTxResponse {
                pub tx: Option<Tx>,
                pub tx_response: Option<TxResponse>,
            }
            pub mod service_client {
                use super::*;
                use std::sync::Arc;
                use tonic::{Response, Status};
                #[async_trait::async_trait]
                pub trait Service: Send + Sync {
                    async fn broadcast_tx(&self, r: BroadcastTxRequest) -> Result<BroadcastTxResponse, Status>;
                    async fn simulate(&self, r: SimulateRequest) -> Result<SimulateResponse, Status>;
                    async fn get_tx(&self, r: GetTxRequest) -> Result<GetTxResponse, Status>;
                }
                pub struct ServiceClient<C>(Arc<dyn Service>, std::marker::PhantomData<C>);
                impl<C> Clone for ServiceClient<C> {
                    fn clone(&self) -> Self {
                        Self(self.0.clone(), std::marker::PhantomData)
                    }
                }
                impl ServiceClient<tonic::transport::Channel> {
                    pub async fn connect(url: String) -> Result<Self, tonic::transport::Error> {
                        Ok(Self(tonic::find::<Arc<dyn Service>>("tx", &url)?, std::marker::PhantomData))
                    }
                }
                impl<C> ServiceClient<C> {
                    pub async fn broadcast_tx(&mut self, r: BroadcastTxRequest) -> Result<Response<BroadcastTxResponse>, Status> {
                        self.0.broadcast_tx(r).await.map(Response)
                    }
                    pub async fn simulate(&mut self, r: SimulateRequest) -> Result<Response<SimulateResponse>, Status> {
                        self.0.simulate(r).await.map(Response)
                    }
                    pub async fn get_tx(&mut self, r: GetTxRequest) -> Result<Response<GetTxResponse>, Status> {
                        self.0.get_tx(r).await.map(Response)
                    }
                }
            }
        }
    }
}
