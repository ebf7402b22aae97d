//! Stand-in for the parts of the tendermint fork used by the off-chain worker.
pub mod block {
    use serde::{Deserialize, Serialize};
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize, Default)]
    #[serde(try_from = "String", into = "String")]
    pub struct Height(u64);
    impl Height {
        pub fn value(&self) -> u64 {
            self.0
        }
        pub fn increment(self) -> Self {
            Height(self.0 + 1)
        }
    }
    impl From<Height> for String {
        fn from(h: Height) -> String {
            h.0.to_string()
        }
    }
    impl TryFrom<String> for Height {
        type Error = std::num::ParseIntError;
        fn try_from(s: String) -> Result<Self, Self::Error> {
            s.parse().map(Height)
        }
    }
    impl From<u32> for Height {
        fn from(x: u32) -> Self {
            Height(x as u64)
        }
    }
    impl From<u8> for Height {
        fn from(x: u8) -> Self {
            Height(x as u64)
        }
    }
    impl From<Height> for u64 {
        fn from(h: Height) -> u64 {
            h.0
        }
    }
    impl TryFrom<u64> for Height {
        type Error = ();
        fn try_from(x: u64) -> Result<Self, ()> {
            Ok(Height(x))
        }
    }
    impl std::fmt::Display for Height {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.0.fmt(f)
        }
    }
}
pub mod abci {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct EventAttribute {
        pub key: String,
        pub value: String,
        pub index: bool,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Event {
        pub kind: String,
        pub attributes: Vec<EventAttribute>,
    }
}
pub mod chain {
    use serde::{Deserialize, Serialize};
    use std::fmt;
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
    #[serde(try_from = "String", into = "String")]
    pub struct Id(String);
    impl std::str::FromStr for Id {
        type Err = super::Error;
        fn from_str(s: &str) -> Result<Self, super::Error> {
            if s.is_empty() || s.len() > 50 || s.bytes().any(|b| !(b.is_ascii_alphanumeric() || b"-_.".contains(&b))) {
                return Err(super::Error(format!("invalid chain id {s}")));
            }
            Ok(Id(s.into()))
        }
    }
    impl TryFrom<String> for Id {
        type Error = super::Error;
        fn try_from(s: String) -> Result<Self, super::Error> {
            s.parse()
        }
    }
    impl From<Id> for String {
        fn from(i: Id) -> String {
            i.0
        }
    }
    impl Id {
        pub fn as_str(&self) -> &str {
            &self.0
        }
    }
    impl fmt::Display for Id {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.0)
        }
    }
}
#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
