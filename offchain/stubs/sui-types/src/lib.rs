//! Stand-in for the parts of sui-types used by the off-chain worker: addresses are 32 bytes written
//! as 0x-prefixed hex, digests 32 bytes in base58.
pub mod digests {
    use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
    #[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
    pub struct TransactionDigest(pub [u8; 32]);
    impl TransactionDigest {
        pub fn new(b: [u8; 32]) -> Self {
            TransactionDigest(b)
        }
        pub fn base58_encode(&self) -> String {
            bs58::encode(self.0).into_string()
        }
        pub fn into_inner(self) -> [u8; 32] {
            self.0
        }
        pub fn inner(&self) -> &[u8; 32] {
            &self.0
        }
    }
    impl std::str::FromStr for TransactionDigest {
        type Err = String;
        fn from_str(s: &str) -> Result<Self, String> {
            let v = bs58::decode(s).into_vec().map_err(|e| e.to_string())?;
            Ok(TransactionDigest(v.try_into().map_err(|_| "length".to_string())?))
        }
    }
    impl std::fmt::LowerHex for TransactionDigest {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&hex::encode(self.0))
        }
    }
    impl std::fmt::Debug for TransactionDigest {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.base58_encode())
        }
    }
    impl std::fmt::Display for TransactionDigest {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.base58_encode())
        }
    }
    impl Serialize for TransactionDigest {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_str(&self.base58_encode())
        }
    }
    impl<'de> Deserialize<'de> for TransactionDigest {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            String::deserialize(d)?.parse().map_err(D::Error::custom)
        }
    }
}
pub mod base_types {
    pub use crate::digests::TransactionDigest;
    use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
    #[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
    pub struct SuiAddress(pub [u8; 32]);
    impl SuiAddress {
        pub fn to_vec(&self) -> Vec<u8> {
            self.0.to_vec()
        }
        pub fn to_inner(self) -> [u8; 32] {
            self.0
        }
    }
    impl AsRef<[u8]> for SuiAddress {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
    impl std::fmt::Display for SuiAddress {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "0x{}", hex::encode(self.0))
        }
    }
    impl std::fmt::Debug for SuiAddress {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "0x{}", hex::encode(self.0))
        }
    }
    impl std::str::FromStr for SuiAddress {
        type Err = String;
        fn from_str(s: &str) -> Result<Self, String> {
            let v = hex::decode(s.strip_prefix("0x").unwrap_or(s)).map_err(|e| e.to_string())?;
            Ok(SuiAddress(v.try_into().map_err(|_| "length".to_string())?))
        }
    }
    impl Serialize for SuiAddress {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_str(&self.to_string())
        }
    }
    impl<'de> Deserialize<'de> for SuiAddress {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            String::deserialize(d)?.parse().map_err(D::Error::custom)
        }
    }
}
pub mod event {
    use serde::{Deserialize, Serialize};
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct EventID {
        pub tx_digest: crate::digests::TransactionDigest,
        pub event_seq: u64,
    }
}
