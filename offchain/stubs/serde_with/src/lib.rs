//! Stand-in for the parts of serde_with used by the configuration of the off-chain worker.
pub use serde_with_macros::SerializeDisplay;
#[doc(hidden)]
pub mod support {
    use serde::de::{DeserializeOwned, Error as _};
    use serde::ser::{Error as _, SerializeMap};
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    use serde_json::{Map, Value};
    pub fn serialize<T: Serialize, S: Serializer>(prefix: &str, t: &T, s: S) -> Result<S::Ok, S::Error> {
        let Value::Object(m) = serde_json::to_value(t).map_err(S::Error::custom)? else {
            return Err(S::Error::custom("not a map"));
        };
        let mut out = s.serialize_map(Some(m.len()))?;
        for (k, v) in m {
            out.serialize_entry(&format!("{prefix}{k}"), &v)?;
        }
        out.end()
    }
    pub fn deserialize<'de, T: DeserializeOwned, D: Deserializer<'de>>(prefix: &str, d: D) -> Result<T, D::Error> {
        let m = Map::<String, Value>::deserialize(d)?;
        let m = m.into_iter().filter_map(|(k, v)| k.strip_prefix(prefix).map(|k| (k.to_string(), v))).collect();
        serde_json::from_value(Value::Object(m)).map_err(D::Error::custom)
    }
}
#[macro_export]
macro_rules! with_prefix {
    ($v:vis $m:ident $p:literal) => {
        $v mod $m {
            pub fn serialize<T: serde::Serialize, S: serde::Serializer>(t: &T, s: S) -> Result<S::Ok, S::Error> {
                $crate::support::serialize($p, t, s)
            }
            pub fn deserialize<'de, T: serde::de::DeserializeOwned, D: serde::Deserializer<'de>>(d: D) -> Result<T, D::Error> {
                $crate::support::deserialize($p, d)
            }
        }
    };
}
