//! Stand-in for the parts of move-core-types used by the off-chain worker.
pub mod language_storage {
    use serde::{Deserialize, Serialize};
    #[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
    #[serde(try_from = "String", into = "String")]
    pub struct StructTag {
        pub address: [u8; 32],
        pub module: String,
        pub name: String,
    }
    impl std::fmt::Display for StructTag {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "0x{}::{}::{}", hex::encode(self.address), self.module, self.name)
        }
    }
    impl From<StructTag> for String {
        fn from(s: StructTag) -> String {
            s.to_string()
        }
    }
    impl TryFrom<String> for StructTag {
        type Error = String;
        fn try_from(s: String) -> Result<Self, String> {
            s.parse()
        }
    }
    impl std::str::FromStr for StructTag {
        type Err = String;
        fn from_str(s: &str) -> Result<Self, String> {
            let parts: Vec<&str> = s.split("::").collect();
            let [a, m, n] = parts[..] else { return Err(format!("not a struct tag: {s}")) };
            let a = a.strip_prefix("0x").ok_or("address without 0x")?;
            let a = hex::decode(format!("{a:0>64}")).map_err(|e| e.to_string())?;
            let ident = |x: &str| !x.is_empty() && x.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
            if !ident(m) || !ident(n) {
                return Err(format!("not a struct tag: {s}"));
            }
            Ok(StructTag { address: a.try_into().map_err(|_| "address length")?, module: m.into(), name: n.into() })
        }
    }
}
