//! Stand-in for the parts of cosmrs used by the off-chain worker. Addresses are compared as the bytes
//! of their lower case text (the real ones are bech32).
use serde::{Deserialize, Serialize};
use std::fmt;
use std::str::FromStr;

pub type ErrorReport = eyre::Report;
pub type Result<T> = std::result::Result<T, ErrorReport>;
#[derive(Debug)]
pub struct Wrong(pub String);
impl fmt::Display for Wrong {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Wrong {}
pub use cosmos_sdk_proto as proto;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
#[serde(try_from = "String", into = "String")]
pub struct AccountId(String);
impl AccountId {
    pub fn new(prefix: &str, bytes: &[u8]) -> Result<Self> {
        format!("{prefix}1{}", hex::encode(bytes)).parse()
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        self.0.as_bytes().to_vec()
    }
}
impl FromStr for AccountId {
    type Err = ErrorReport;
    fn from_str(s: &str) -> Result<Self> {
        if s.is_empty() || s.chars().any(|c| !c.is_ascii_lowercase() && !c.is_ascii_digit()) {
            return Err(eyre::Report::new(Wrong(format!("invalid account id {s}"))));
        }
        Ok(AccountId(s.into()))
    }
}
impl TryFrom<String> for AccountId {
    type Error = String;
    fn try_from(s: String) -> std::result::Result<Self, String> {
        s.parse().map_err(|e: ErrorReport| e.to_string())
    }
}
impl From<AccountId> for String {
    fn from(a: AccountId) -> String {
        a.0
    }
}
impl AsRef<str> for AccountId {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for AccountId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

pub use proto::Any;
pub type Gas = u64;
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
#[serde(try_from = "String", into = "String")]
pub struct Denom(String);
impl FromStr for Denom {
    type Err = ErrorReport;
    /// as the real one: letters, digits and / : . _ -, also empty
    fn from_str(s: &str) -> Result<Self> {
        if s.bytes().any(|b| !(b.is_ascii_alphanumeric() || b"/:._-".contains(&b))) {
            return Err(eyre::Report::new(Wrong(format!("invalid denomination {s}"))));
        }
        Ok(Denom(s.into()))
    }
}
impl TryFrom<String> for Denom {
    type Error = String;
    fn try_from(s: String) -> std::result::Result<Self, String> {
        s.parse().map_err(|e: ErrorReport| e.to_string())
    }
}
impl From<Denom> for String {
    fn from(a: Denom) -> String {
        a.0
    }
}
impl AsRef<str> for Denom {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for Denom {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Coin {
    pub denom: Denom,
    #[serde(with = "text")]
    pub amount: u128,
}
impl Coin {
    pub fn new(amount: u128, denom: &str) -> Result<Self> {
        Ok(Coin { denom: denom.parse()?, amount })
    }
}
mod text {
    use serde::Deserialize;
    pub fn serialize<S: serde::Serializer>(x: &u128, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&x.to_string())
    }
    pub fn deserialize<'de, D: serde::Deserializer<'de>>(d: D) -> Result<u128, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
pub mod tx {
    use super::*;
    pub trait Msg: Clone + Sized {
        fn to_any(&self) -> Result<Any>;
        fn into_any(self) -> Result<Any> {
            self.to_any()
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Body {
        pub messages: Vec<Any>,
        pub memo: String,
        pub timeout_height: u64,
    }
    #[derive(Clone, Debug, Default)]
    pub struct BodyBuilder(Vec<Any>, String, u64);
    impl BodyBuilder {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn msg(&mut self, m: impl Into<Any>) -> &mut Self {
            self.0.push(m.into());
            self
        }
        pub fn msgs(&mut self, m: impl IntoIterator<Item = Any>) -> &mut Self {
            self.0.extend(m);
            self
        }
        pub fn memo(&mut self, m: impl Into<String>) -> &mut Self {
            self.1 = m.into();
            self
        }
        pub fn timeout_height(&mut self, h: impl Into<u64>) -> &mut Self {
            self.2 = h.into();
            self
        }
        pub fn finish(&self) -> Body {
            Body { messages: self.0.clone(), memo: self.1.clone(), timeout_height: self.2 }
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct SignerInfo {
        pub public_key: Option<crate::crypto::PublicKey>,
        pub sequence: u64,
    }
    impl SignerInfo {
        pub fn single_direct(k: Option<crate::crypto::PublicKey>, sequence: u64) -> Self {
            SignerInfo { public_key: k, sequence }
        }
        pub fn auth_info(self, fee: Fee) -> AuthInfo {
            AuthInfo { signer_infos: vec![self], fee }
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct AuthInfo {
        pub signer_infos: Vec<SignerInfo>,
        pub fee: Fee,
    }
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct SignDoc {
        pub body_bytes: Vec<u8>,
        pub auth_info_bytes: Vec<u8>,
        pub chain_id: String,
        pub account_number: u64,
    }
    impl SignDoc {
        pub fn new(b: &Body, a: &AuthInfo, chain: &crate::tendermint::chain::Id, account_number: u64) -> Result<SignDoc> {
            Ok(SignDoc {
                body_bytes: serde_json::to_vec(b)?,
                auth_info_bytes: serde_json::to_vec(a)?,
                chain_id: chain.to_string(),
                account_number,
            })
        }
        pub fn into_bytes(self) -> Result<Vec<u8>> {
            Ok(serde_json::to_vec(&self)?)
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Fee {
        pub amount: Vec<Coin>,
        pub gas_limit: Gas,
        pub payer: Option<AccountId>,
        pub granter: Option<AccountId>,
    }
    impl Fee {
        pub fn from_amount_and_gas(amount: Coin, gas_limit: impl Into<Gas>) -> Fee {
            Fee { amount: vec![amount], gas_limit: gas_limit.into(), payer: None, granter: None }
        }
    }
}
pub mod cosmwasm {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct MsgExecuteContract {
        pub sender: AccountId,
        pub contract: AccountId,
        pub msg: Vec<u8>,
        pub funds: Vec<Coin>,
    }
    impl tx::Msg for MsgExecuteContract {
        fn to_any(&self) -> Result<Any> {
            Ok(Any {
                type_url: "/cosmwasm.wasm.v1.MsgExecuteContract".into(),
                value: serde_json::to_vec(self)?,
            })
        }
    }
}
pub mod tendermint {
    pub use ::tendermint::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum PublicKey {
        Ed25519([u8; 32]),
    }
    impl From<crypto::ed25519::VerificationKey> for PublicKey {
        fn from(k: crypto::ed25519::VerificationKey) -> Self {
            PublicKey::Ed25519(k.0)
        }
    }
    pub mod crypto {
        pub mod ed25519 {
            #[derive(Clone, Copy, Debug, PartialEq, Eq)]
            pub struct VerificationKey(pub [u8; 32]);
            impl TryFrom<&[u8]> for VerificationKey {
                type Error = crate::Wrong;
                fn try_from(b: &[u8]) -> Result<Self, Self::Error> {
                    let k = ed25519_zebra::VerificationKey::try_from(b).map_err(|e| crate::Wrong(e.to_string()))?;
                    Ok(VerificationKey(k.into()))
                }
            }
        }
    }
}
pub mod crypto {
    use serde::{Deserialize, Serialize};
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum PublicKey {
        Secp256k1([u8; 33]),
        Ed25519([u8; 32]),
    }
    impl PublicKey {
        /// not the real derivation, but as one-to-one
        pub fn account_id(&self, prefix: &str) -> crate::Result<crate::AccountId> {
            use k256::sha2::{Digest, Sha256};
            crate::AccountId::new(prefix, &Sha256::digest(self.to_bytes())[..20])
        }
        pub fn to_bytes(&self) -> Vec<u8> {
            match self {
                PublicKey::Secp256k1(b) => b.to_vec(),
                PublicKey::Ed25519(b) => b.to_vec(),
            }
        }
    }
    impl Serialize for PublicKey {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_str(&hex::encode(self.to_bytes()))
        }
    }
    impl<'de> Deserialize<'de> for PublicKey {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            use serde::de::Error;
            let b = hex::decode(String::deserialize(d)?).map_err(D::Error::custom)?;
            if let Ok(x) = <[u8; 33]>::try_from(b.as_slice()) {
                Ok(PublicKey::Secp256k1(x))
            } else if let Ok(x) = <[u8; 32]>::try_from(b.as_slice()) {
                Ok(PublicKey::Ed25519(x))
            } else {
                Err(D::Error::custom("length"))
            }
        }
    }
    impl From<k256::ecdsa::VerifyingKey> for PublicKey {
        fn from(k: k256::ecdsa::VerifyingKey) -> Self {
            PublicKey::Secp256k1(k.to_encoded_point(true).as_bytes().try_into().unwrap())
        }
    }
    impl From<crate::tendermint::PublicKey> for PublicKey {
        fn from(k: crate::tendermint::PublicKey) -> Self {
            let crate::tendermint::PublicKey::Ed25519(b) = k;
            PublicKey::Ed25519(b)
        }
    }
}
