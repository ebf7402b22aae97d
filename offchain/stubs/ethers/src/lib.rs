//! The real ethers; only its HTTP provider is replaced by one that reaches the simulated nodes of this thread.
pub use real_ethers::*;
pub mod prelude {
    pub use super::providers::Http;
    pub use real_ethers::prelude::*;
}
pub mod providers {
    pub use real_ethers::providers::*;
    use serde::{de::DeserializeOwned, Serialize};
    use serde_json::Value;
    use std::cell::RefCell;
    use std::collections::BTreeMap;
    use std::fmt::Debug;
    use std::sync::Arc;

    pub trait Backend: Send + Sync {
        fn answer(&self, method: &str, params: Value) -> Result<Value, String>;
    }
    thread_local!(static NODES: RefCell<BTreeMap<String, Arc<dyn Backend>>> = RefCell::new(BTreeMap::new()));
    pub fn serve(url: &str, b: Arc<dyn Backend>) {
        NODES.with(|n| n.borrow_mut().insert(url.trim_end_matches('/').into(), b));
    }
    #[derive(Clone)]
    pub struct Http(String, Option<Arc<dyn Backend>>);
    impl Debug for Http {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "Http({})", self.0)
        }
    }
    impl Http {
        pub fn new(url: impl Into<url::Url>) -> Self {
            let url: url::Url = url.into();
            let u = url.as_str().trim_end_matches('/').to_string();
            let b = NODES.with(|n| n.borrow().get(&u).cloned());
            Http(u, b)
        }
    }
    #[async_trait::async_trait]
    impl JsonRpcClient for Http {
        type Error = ProviderError;
        async fn request<T, R>(&self, method: &str, params: T) -> Result<R, ProviderError>
        where
            T: Debug + Serialize + Send + Sync,
            R: DeserializeOwned + Send,
        {
            let p = serde_json::to_value(&params).map_err(ProviderError::SerdeJson)?;
            let a = match &self.1 {
                Some(b) => b.answer(method, p).map_err(ProviderError::CustomError)?,
                None => return Err(ProviderError::CustomError(format!("no node at {}", self.0))),
            };
            serde_json::from_value(a).map_err(ProviderError::SerdeJson)
        }
    }
}
