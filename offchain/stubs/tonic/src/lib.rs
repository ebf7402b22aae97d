//! Stand-in for the parts of tonic used by the off-chain worker. A connection is made to whatever
//! service was placed under its address in this thread.
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Code {
    Cancelled,
    Unknown,
    InvalidArgument,
    DeadlineExceeded,
    NotFound,
    Aborted,
    Internal,
    Unavailable,
}
#[derive(Debug, Clone)]
pub struct Status(Code, String);
macro_rules! made {
    ($($f:ident $c:ident),*) => { $(pub fn $f(s: impl Into<String>) -> Status { Status(Code::$c, s.into()) })* };
}
impl Status {
    made!(cancelled Cancelled, unknown Unknown, invalid_argument InvalidArgument, deadline_exceeded DeadlineExceeded,
          not_found NotFound, aborted Aborted, internal Internal, unavailable Unavailable);
    pub fn new(c: Code, s: impl Into<String>) -> Status {
        Status(c, s.into())
    }
    pub fn code(&self) -> Code {
        self.0
    }
    pub fn message(&self) -> &str {
        &self.1
    }
}
impl fmt::Display for Status {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "status: {:?}, message: {:?}", self.0, self.1)
    }
}
impl std::error::Error for Status {}
pub mod transport {
    pub struct Channel;
    #[derive(Debug)]
    pub struct Error(pub String);
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for Error {}
}
pub struct Response<T>(pub T);
impl<T> Response<T> {
    pub fn new(t: T) -> Self {
        Response(t)
    }
    pub fn into_inner(self) -> T {
        self.0
    }
    pub fn get_ref(&self) -> &T {
        &self.0
    }
}

thread_local!(static SERVICES: RefCell<BTreeMap<(String, &'static str), Box<dyn Any>>> = RefCell::new(BTreeMap::new()));
/// the service of a kind behind an address, for the connections of this thread
pub fn serve<S: Clone + 'static>(kind: &'static str, address: &str, s: S) {
    SERVICES.with(|m| m.borrow_mut().insert((address.trim_end_matches('/').into(), kind), Box::new(s)));
}
pub fn clear() {
    SERVICES.with(|m| m.borrow_mut().clear());
}
pub fn find<S: Clone + 'static>(kind: &'static str, address: &str) -> Result<S, transport::Error> {
    SERVICES.with(|m| {
        m.borrow()
            .get(&(address.trim_end_matches('/').to_string(), kind))
            .and_then(|b| b.downcast_ref::<S>().cloned())
            .ok_or_else(|| transport::Error(format!("no {kind} at {address}")))
    })
}

/// the only protocol of its own that the worker compiles is that of the key store
#[macro_export]
macro_rules! include_proto {
    ($p:literal) => {
        #[derive(Clone, Debug)]
        pub struct KeygenRequest {
            pub key_uid: String,
            pub party_uid: String,
        }
        #[derive(Clone, Debug)]
        pub struct SignRequest {
            pub key_uid: String,
            pub msg_to_sign: Vec<u8>,
            pub party_uid: String,
            pub pub_key: Vec<u8>,
        }
        pub mod keygen_response {
            pub enum KeygenResponse {
                PubKey(Vec<u8>),
                Error(String),
            }
        }
        pub mod sign_response {
            pub enum SignResponse {
                Signature(Vec<u8>),
                Error(String),
            }
        }
        pub struct KeygenResponse {
            pub keygen_response: Option<keygen_response::KeygenResponse>,
        }
        pub struct SignResponse {
            pub sign_response: Option<sign_response::SignResponse>,
        }
        pub mod multisig_client {
            use super::*;
            use std::sync::Arc;
            pub struct MultisigClient<C>(Arc<tonic::KeyStore>, core::marker::PhantomData<C>);
            impl MultisigClient<tonic::transport::Channel> {
                pub async fn connect(url: String) -> Result<Self, tonic::transport::Error> {
                    Ok(Self(tonic::find::<Arc<tonic::KeyStore>>("tofnd", &url)?, core::marker::PhantomData))
                }
            }
            impl<C> MultisigClient<C> {
                pub async fn keygen(&mut self, r: KeygenRequest) -> Result<tonic::Response<KeygenResponse>, tonic::Status> {
                    let a = (self.0.keygen)(&r.party_uid, &r.key_uid)?;
                    Ok(tonic::Response(KeygenResponse {
                        keygen_response: a.map(|a| match a {
                            Ok(k) => keygen_response::KeygenResponse::PubKey(k),
                            Err(e) => keygen_response::KeygenResponse::Error(e),
                        }),
                    }))
                }
                pub async fn sign(&mut self, r: SignRequest) -> Result<tonic::Response<SignResponse>, tonic::Status> {
                    let a = (self.0.sign)(&r.party_uid, &r.key_uid, &r.msg_to_sign, &r.pub_key)?;
                    Ok(tonic::Response(SignResponse {
                        sign_response: a.map(|a| match a {
                            Ok(k) => sign_response::SignResponse::Signature(k),
                            Err(e) => sign_response::SignResponse::Error(e),
                        }),
                    }))
                }
            }
        }
    };
}
/// None: an empty response
pub type Answer = Result<Option<Result<Vec<u8>, String>>, Status>;
/// a key store: (party, key id) and (party, key id, digest, public key)
pub struct KeyStore {
    pub keygen: Box<dyn Fn(&str, &str) -> Answer + Send + Sync>,
    pub sign: Box<dyn Fn(&str, &str, &[u8], &[u8]) -> Answer + Send + Sync>,
}
