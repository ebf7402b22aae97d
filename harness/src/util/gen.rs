//! Generators for the message types.
use crate::engine::Src;
use connection_router::state::{ChainName, CrossChainId, Message};

/// the given names and many more like the last one
pub fn crowd(few: &'static [&'static str], n: usize) -> &'static [&'static str] {
    use std::collections::BTreeMap;
    use std::sync::Mutex;
    static MADE: Mutex<BTreeMap<(&'static str, usize), &'static [&'static str]>> = Mutex::new(BTreeMap::new());
    if n <= few.len() {
        return few;
    }
    *MADE.lock().unwrap().entry((few[0], n)).or_insert_with(|| {
        let v: Vec<&'static str> =
            (0..n).map(|i| few.get(i).copied().unwrap_or_else(|| Box::leak(format!("{}x{i}", few[0]).into_boxed_str()))).collect();
        Box::leak(v.into_boxed_slice())
    })
}
pub const CHAINS: &[&str] = &["ethereum", "avalanche", "polygon-2", "a", "aa", "sui", "östlich", LONG];
pub const LONG: &str = "one-chain-with-a-name-that-is-longer-than-any-other-0123456789-0123456789";

pub fn chain(s: &str) -> ChainName {
    s.parse().expect("valid chain name")
}
/// the chain name in some other casing
pub fn recase(src: &mut Src, s: &str) -> String {
    match src.below(4) {
        0 | 1 => s.to_string(),
        2 => s.to_ascii_uppercase(),
        _ => {
            let mut out = String::new();
            for (i, c) in s.chars().enumerate() {
                if i % 2 == 0 {
                    out.push(c.to_ascii_uppercase())
                } else {
                    out.push(c)
                }
            }
            out
        }
    }
}

pub fn hexs(b: &[u8]) -> String {
    hex::encode(b)
}

/// arbitrary non-empty text, biased to the separators used by the code
pub fn text(src: &mut Src, max: usize) -> String {
    const ALPHA: &[char] = &[
        'a', 'b', 'A', '0', '1', ':', ',', '_', '-', '.', ' ', '/', '"', '\\', '\n', '\u{e9}', '\u{1F600}', '\u{0}', '{', 'x',
    ];
    let n = 1 + src.idx(max);
    let mut s: String = (0..n).map(|_| *src.pick(ALPHA)).collect();
    // blank attribute values are rejected by the chain itself
    if s.trim().is_empty() {
        s.push('z');
    }
    s
}

/// a transaction id in the usual form
pub fn tx_id(src: &mut Src) -> String {
    match src.below(4) {
        0 => format!("0x{:02x}", src.below(6)),
        1 => format!("0x{}", hexs(&src.bytes(32))),
        2 => format!("tx{}", src.below(5)),
        _ => format!("{}", hexs(&src.bytes(4))),
    }
}

/// message id in canonical form
pub fn msg_id(src: &mut Src) -> String {
    let idx = match src.below(4) {
        0 | 1 => src.below(4),
        2 => src.below(1000),
        _ => src.u64_any(),
    };
    format!("{}:{}", tx_id(src), idx)
}

pub fn address(src: &mut Src) -> String {
    match src.below(5) {
        0 => "0x00".to_string(),
        1 | 2 => format!("0x{}", hexs(&src.bytes(20))),
        3 => format!("addr{}", src.below(4)),
        _ if src.chance(1, 10) => text(src, 400),
        _ => text(src, 12),
    }
}

pub fn message(src: &mut Src, source: &str, dest: &str) -> Message {
    let id = match src.weighted(&[160, 39, 1]) {
        0 => msg_id(src),
        1 => text(src, 10),
        _ => text(src, 400),
    };
    let sa = address(src);
    let da = address(src);
    Message {
        cc_id: CrossChainId {
            chain: chain(source),
            id: id.try_into().unwrap(),
        },
        source_address: sa.parse().unwrap(),
        destination_chain: chain(dest),
        destination_address: da.parse().unwrap(),
        payload_hash: src.bytes32(),
    }
}

/// the same text but for a small change
pub fn near_text(src: &mut Src, s: &str) -> String {
    let out = near_any_text(src, s);
    // blank attribute values are rejected by the chain itself
    if out.trim().is_empty() {
        return format!("{out}z");
    }
    out
}

fn near_any_text(src: &mut Src, s: &str) -> String {
    let chars: Vec<char> = s.chars().collect();
    let n = chars.len();
    match src.below(8) {
        0 => format!("{s}0"),
        1 if n > 1 && chars[..n - 1].iter().any(|c| !c.is_whitespace()) => chars[..n - 1].iter().collect(),
        // one letter, or all of them, in the other case
        2 | 3 => {
            let at: Vec<usize> = (0..n).filter(|i| chars[*i].is_ascii_alphabetic()).collect();
            let all = src.bool();
            let one = if at.is_empty() { 0 } else { at[src.idx(at.len())] };
            chars
                .iter()
                .enumerate()
                .map(|(i, c)| match () {
                    _ if !all && i != one => *c,
                    _ if c.is_ascii_lowercase() => c.to_ascii_uppercase(),
                    _ => c.to_ascii_lowercase(),
                })
                .collect()
        }
        4 => {
            let mut c = chars;
            let i = src.idx(n.max(1));
            if let Some(x) = c.get_mut(i) {
                *x = if *x == '1' { '2' } else { '1' };
            }
            c.into_iter().collect()
        }
        5 => format!("0{s}"),
        6 => format!("{s} "),
        _ => match s.strip_prefix("0x") {
            Some(r) if !r.is_empty() => r.to_string(),
            _ => format!("0x{s}"),
        },
    }
}

/// a message with the same id that differs in its content, as little as possible
pub fn near(src: &mut Src, m: &Message) -> Message {
    let mut n = m.clone();
    match src.below(8) {
        0 | 1 => n.payload_hash[src.idx(32)] ^= 1 << src.below(8),
        2 | 3 => n.source_address = near_text(src, m.source_address.as_str()).parse().unwrap(),
        4 | 5 => n.destination_address = near_text(src, m.destination_address.as_str()).parse().unwrap(),
        6 => {
            n.source_address = m.destination_address.clone();
            n.destination_address = m.source_address.clone();
        }
        _ => {
            let cur = m.destination_chain.to_string();
            let others: Vec<&str> = CHAINS.iter().copied().filter(|c| !c.eq_ignore_ascii_case(&cur)).collect();
            n.destination_chain = chain(*src.pick::<&str>(&others));
        }
    }
    if n == *m {
        n.payload_hash[31] ^= 1;
    }
    n
}

/// canonical JSON of a message, written independently of the code's own Serialize impl
pub fn msg_json(m: &Message) -> serde_json::Value {
    serde_json::json!({
        "cc_id": {"chain": String::from(m.cc_id.chain.clone()), "id": m.cc_id.id.as_str()},
        "source_address": m.source_address.as_str(),
        "destination_chain": String::from(m.destination_chain.clone()),
        "destination_address": m.destination_address.as_str(),
        "payload_hash": hexs(&m.payload_hash),
    })
}

pub fn short(m: &Message) -> String {
    format!(
        "{}:{} {}->{}@{} {}",
        m.cc_id.chain,
        *m.cc_id.id,
        m.source_address.as_str(),
        m.destination_address.as_str(),
        m.destination_chain,
        &hexs(&m.payload_hash)[..8]
    )
}
