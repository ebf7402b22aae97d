//! Stand-in: durations as one or several numbers with a unit
use serde::{de::Error, Deserialize, Deserializer, Serializer};
use std::time::Duration;
pub fn serialize<S: Serializer>(d: &Duration, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_str(&format!("{}s {}ns", d.as_secs(), d.subsec_nanos()))
}
pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Duration, D::Error> {
    let text = String::deserialize(d)?;
    let mut total = Duration::ZERO;
    for part in text.split_whitespace() {
        let i = part.find(|c: char| !c.is_ascii_digit()).ok_or_else(|| D::Error::custom("unit"))?;
        let n: u64 = part[..i].parse().map_err(D::Error::custom)?;
        total += match &part[i..] {
            "ns" => Duration::from_nanos(n),
            "us" => Duration::from_micros(n),
            "ms" => Duration::from_millis(n),
            "s" | "sec" | "second" | "seconds" => Duration::from_secs(n),
            "m" | "min" | "minute" | "minutes" => Duration::from_secs(60 * n),
            "h" | "hour" | "hours" => Duration::from_secs(3600 * n),
            u => return Err(D::Error::custom(format!("unknown unit {u}"))),
        };
    }
    Ok(total)
}
