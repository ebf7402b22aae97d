//! C10 threshold and quorum arithmetic, C29 wire formats and validated types, C31 error chains,
//! C32 storage keys and counters.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

use axelar_wasm_std::counter::Counter;
use axelar_wasm_std::operators::Operators;
use axelar_wasm_std::voting::{Participation, PollId, PollState, PollStatus, Tallies, Vote, WeightedPoll};
use axelar_wasm_std::{nonempty, MajorityThreshold, Participant, Snapshot, Threshold};
use connection_router::state::{Address, ChainName, CrossChainId, Message};
use connection_router_api::primitives as api;
use cosmwasm_std::testing::MockStorage;
use cosmwasm_std::{from_slice, to_binary, Addr, Fraction, HexBinary, Order, Timestamp, Uint128, Uint256, Uint512, Uint64};
use cw_storage_plus::Map;
use multisig::key::{KeyType, PublicKey, Signature};
use multisig::msg::Signer;
use multisig::types::{MsgToSign, MultisigState};
use multisig::worker_set::WorkerSet;
use multisig_prover::types::{BatchId, Command, CommandType};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

use crate::engine::{fail, guard, Check, Src, Sub, R};
use crate::util::gen::{hexs, message, msg_json, recase, text};
use crate::util::keys;
use crate::{ensure, ensure_eq};

// ---------------------------------------------------------------- C10

/// a fraction, biased to boundaries and near one half and one
fn fraction(src: &mut Src) -> (u64, u64) {
    let d = src.u64_any();
    let n = match src.below(6) {
        0 => src.u64_any(),
        1 => d / 2 + src.below(3),
        2 => (d / 2).saturating_sub(src.below(2)),
        3 => d.saturating_sub(src.below(3)),
        4 => d.saturating_add(src.below(2)),
        _ => {
            if d == 0 {
                0
            } else {
                src.below(0) % d
            }
        }
    };
    (n, d)
}

fn text_pair(f: (u64, u64)) -> Vec<u8> {
    format!("[\"{}\",\"{}\"]", f.0, f.1).into_bytes()
}

fn c10_threshold(src: &mut Src) -> R {
    let f = fraction(src);
    src.note(|| format!("fraction {f:?}"));
    let valid = f.0 > 0 && f.1 > 0 && f.0 <= f.1;
    let majority = valid && 2 * f.0 as u128 > f.1 as u128;
    let mut ts: Vec<(&str, Option<Threshold>)> = vec![
        ("u64", Threshold::try_from(f).ok()),
        ("Uint64", Threshold::try_from((Uint64::from(f.0), Uint64::from(f.1))).ok()),
        ("JSON", from_slice::<Threshold>(&text_pair(f)).ok()),
        ("serde_json", serde_json::from_slice::<Threshold>(&text_pair(f)).ok()),
    ];
    if let (Ok(n), Ok(d)) = (nonempty::Uint64::try_from(f.0), nonempty::Uint64::try_from(f.1)) {
        ts.push(("non-empty", Threshold::try_from((n, d)).ok()));
    }
    for (how, t) in &ts {
        ensure!(t.is_some() == valid, "threshold {f:?} from {how}: accepted {}, valid {valid}", t.is_some());
        if let Some(t) = t {
            ensure!((t.numerator().u64(), t.denominator().u64()) == f, "threshold {f:?} from {how} is {t:?}");
            let back: (Uint64, Uint64) = (*t).into();
            ensure!((back.0.u64(), back.1.u64()) == f, "threshold {f:?} converts to {back:?}");
            ensure!(to_binary(t).ok().map(|b| b.0) == Some(text_pair(f)), "threshold {f:?} encodes as {:?}", to_binary(t));
            let m = MajorityThreshold::try_from(*t).ok();
            ensure!(m.is_some() == majority, "majority threshold {f:?}: accepted {}, majority {majority}", m.is_some());
        }
    }
    for (how, m) in [
        ("JSON", from_slice::<MajorityThreshold>(&text_pair(f)).ok()),
        ("serde_json", serde_json::from_slice::<MajorityThreshold>(&text_pair(f)).ok()),
    ] {
        ensure!(m.is_some() == majority, "majority threshold {f:?} from {how}: accepted {}, majority {majority}", m.is_some());
        if let Some(m) = m {
            ensure!((m.numerator().u64(), m.denominator().u64()) == f, "majority threshold {f:?} is {m:?}");
            ensure!(to_binary(&m).ok().map(|b| b.0) == Some(text_pair(f)), "majority {f:?} encodes as {:?}", to_binary(&m));
            let t: Threshold = m.into();
            ensure!((t.numerator().u64(), t.denominator().u64()) == f, "majority threshold {f:?} converts to {t:?}");
        }
    }
    // comparison
    let g = match src.below(3) {
        0 => {
            let k = 1 + src.below(5);
            match (f.0.checked_mul(k), f.1.checked_mul(k)) {
                (Some(a), Some(b)) => (a, b.saturating_add(src.below(2))),
                _ => fraction(src),
            }
        }
        1 => (f.0.wrapping_add(src.below(3)).wrapping_sub(1), f.1.wrapping_add(src.below(3)).wrapping_sub(1)),
        _ => fraction(src),
    };
    if let (Ok(a), Ok(b)) = (Threshold::try_from(f), Threshold::try_from(g)) {
        src.class("compared");
        let want = (f.0 as u128 * g.1 as u128).cmp(&(g.0 as u128 * f.1 as u128));
        ensure!(a.partial_cmp(&b) == Some(want), "comparing {f:?} with {g:?}: {:?}", a.partial_cmp(&b));
        ensure!(b.partial_cmp(&a) == Some(want.reverse()), "comparing {g:?} with {f:?}: {:?}", b.partial_cmp(&a));
        ensure!(((a < b), (a <= b), (a > b), (a >= b)) == (want.is_lt(), want.is_le(), want.is_gt(), want.is_ge()), "operators on {f:?} and {g:?}");
    }
    if valid {
        src.nontrivial();
    }
    Ok(())
}

fn big(src: &mut Src, bits: u64) -> Uint256 {
    let n = 1 + src.below(bits) as u32;
    let x = Uint256::from_be_bytes(src.bytes(32).try_into().unwrap()) >> (256 - n);
    match src.below(6) {
        0 => Uint256::from(src.below(4)),
        1 => Uint256::from(src.u64_any()) >> if bits < 64 { 64 - bits as u32 } else { 0 },
        2 => (Uint256::one() << (n - 1)) - Uint256::from(src.below(2)),
        _ => x,
    }
}

fn c10_snapshot(src: &mut Src) -> R {
    let f = loop {
        let f = fraction(src);
        if f.0 > 0 && f.0 <= f.1 && 2 * f.0 as u128 > f.1 as u128 {
            break f;
        }
        let d = 1 + src.below(20);
        let n = d / 2 + 1 + src.below(d - d / 2);
        if n <= d {
            break (n, d);
        }
    };
    let m = MajorityThreshold::try_from(match Threshold::try_from(f) {
        Ok(t) => t,
        Err(e) => return fail(format!("threshold {f:?} rejected: {e}")),
    });
    let Ok(m) = m else { return fail(format!("majority threshold {f:?} rejected")) };
    let bits = *src.pick(&[2u64, 8, 60, 128, 250]);
    let n = 1 + src.idx(12);
    let mut want: BTreeMap<String, Uint256> = BTreeMap::new();
    for i in 0..n {
        let w = big(src, bits);
        let w = if w.is_zero() { Uint256::one() } else { w };
        let name = if src.chance(1, 3) { format!("{}{i}", text(src, 4)) } else { format!("worker{i}") };
        want.insert(name, w);
    }
    let mut list: Vec<(String, Uint256)> = want.clone().into_iter().collect();
    src.shuffle(&mut list);
    src.note(|| format!("threshold {f:?} weights {list:?}"));
    let parts: Vec<Participant> = list
        .iter()
        .map(|(a, w)| Participant { address: Addr::unchecked(a), weight: (*w).try_into().expect("positive") })
        .collect();
    let Ok(parts) = nonempty::Vec::try_from(parts) else { return fail("participants rejected") };
    let s = match guard(|| Snapshot::new(m, parts)) {
        Ok(s) => s,
        Err(e) => return fail(format!("snapshot: {e}")),
    };
    let total: Uint256 = list.iter().fold(Uint256::zero(), |a, (_, w)| a + *w);
    let q: Uint256 = s.quorum.into();
    let full = total.full_mul(Uint256::from(f.0));
    let over = |q: Uint256| -> Uint512 { q.full_mul(Uint256::from(f.1)) };
    ensure!(over(q) >= full, "quorum {q} is below {f:?} of {total}");
    ensure!(!q.is_zero() && over(q - Uint256::one()) < full, "quorum {q} of {total} at {f:?} is not the smallest");
    ensure!(q <= total, "quorum {q} exceeds the total {total}");
    // two groups reaching the quorum overlap: the remainder of a quorum is no quorum
    ensure!(total - q < q, "quorum {q} of {total} allows two disjoint quorums");
    let mut got: Vec<String> = s.get_participants().into_iter().map(|a| a.to_string()).collect();
    got.sort();
    ensure_eq!(got, want.keys().cloned().collect::<Vec<_>>(), "participants");
    for (a, w) in &want {
        let addr = Addr::unchecked(a);
        ensure!(s.get_participant_weight(&addr) == Some(w), "weight of {a:?}: {:?}, expected {w}", s.get_participant_weight(&addr));
        let p = s.get_participant(&addr);
        ensure!(p.map(|p| p.address == addr && Uint256::from(p.weight) == *w) == Some(true), "participant {a:?}: {p:?}");
    }
    ensure!(s.get_participant(&Addr::unchecked("nobody")).is_none() && s.get_participant_weight(&Addr::unchecked("nobody")).is_none(), "unknown participant found");
    let b = to_binary(&s).map_err(|e| crate::engine::Fail { msg: e.to_string(), sig: None })?;
    ensure!(from_slice::<Snapshot>(&b).ok().as_ref() == Some(&s), "snapshot changes in storage");
    // the same total and threshold give the same quorum however the weight is distributed
    if n > 1 {
        src.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C29

fn rt<T: Serialize + DeserializeOwned + PartialEq + Debug>(src: &mut Src, v: &T) -> R {
    src.note(|| format!("{} {v:?}", std::any::type_name::<T>()));
    let b = match to_binary(v) {
        Ok(b) => b,
        Err(e) => return fail(format!("{v:?} cannot be encoded: {e}")),
    };
    match from_slice::<T>(&b) {
        Ok(x) => {
            ensure!(x == *v, "{v:?} is decoded as {x:?}");
            ensure!(to_binary(&x).ok() == Some(b.clone()), "{v:?} is encoded in two ways");
        }
        Err(e) => return fail(format!("{v:?} encoded as {} cannot be decoded: {e}", String::from_utf8_lossy(&b))),
    }
    // off-chain clients use serde_json
    match serde_json::from_slice::<T>(&b) {
        Ok(x) => ensure!(x == *v, "{v:?} is decoded by serde_json as {x:?}"),
        Err(e) => return fail(format!("{v:?} cannot be decoded by serde_json: {e}")),
    }
    let t = serde_json::to_vec(v).map_err(|e| crate::engine::Fail { msg: e.to_string(), sig: None })?;
    match from_slice::<T>(&t) {
        Ok(x) => ensure!(x == *v, "{v:?} encoded by serde_json is decoded as {x:?}"),
        Err(e) => return fail(format!("{v:?} encoded by serde_json cannot be decoded: {e}")),
    }
    Ok(())
}

fn name(src: &mut Src) -> String {
    let s = match src.below(3) {
        0 => src.pick(&["ethereum", "a", "B", "östlich", "ÖST", "polygon-2", "Σ"]).to_string(),
        _ => text(src, 8).replace(':', "-"),
    };
    recase(src, &s)
}
fn cname(src: &mut Src) -> ChainName {
    name(src).parse().expect("valid chain name")
}
fn ccid(src: &mut Src) -> CrossChainId {
    let chain = cname(src);
    CrossChainId { chain, id: text(src, 10).parse().expect("non-empty") }
}
fn vote(src: &mut Src) -> Vote {
    src.pick(&[Vote::SucceededOnChain, Vote::FailedOnChain, Vote::NotFound]).clone()
}
fn pk(src: &mut Src) -> PublicKey {
    let k = keys::key(src.idx(keys::N));
    let (t, b) = match src.below(3) {
        0 => (KeyType::Ecdsa, k.compressed.clone()),
        1 => (KeyType::Ecdsa, k.uncompressed.clone()),
        _ => (KeyType::Ed25519, k.ed_pk.to_vec()),
    };
    (t, HexBinary::from(b)).try_into().expect("valid key")
}
fn sig(src: &mut Src) -> Signature {
    let (t, n) = *src.pick(&[(KeyType::Ecdsa, 64usize), (KeyType::Ecdsa, 65), (KeyType::Ed25519, 64)]);
    (t, HexBinary::from(src.bytes(n))).try_into().expect("valid signature")
}
fn weight(src: &mut Src) -> nonempty::Uint256 {
    let w = big(src, 256);
    if w.is_zero() { Uint256::one() } else { w }.try_into().expect("positive")
}
fn worker_set(src: &mut Src) -> WorkerSet {
    let n = src.idx(5);
    let ps = (0..n)
        .map(|i| (Participant { address: Addr::unchecked(format!("{}{i}", text(src, 4))), weight: weight(src) }, pk(src)))
        .collect();
    WorkerSet::new(ps, big(src, 256), src.u64_any())
}
fn operators(src: &mut Src) -> Operators {
    let n = src.idx(5);
    let v = (0..n)
        .map(|_| {
            let l = src.idx(34);
            (HexBinary::from(src.bytes(l)), big(src, 256))
        })
        .collect();
    Operators::new(v, big(src, 256))
}
fn poll(src: &mut Src) -> WeightedPoll {
    let n = 1 + src.idx(4);
    let ps: Vec<Participant> =
        (0..n).map(|i| Participant { address: Addr::unchecked(format!("{}{i}", text(src, 3))), weight: Uint256::from(1 + src.below(9)).try_into().unwrap() }).collect();
    let snap = Snapshot::new(
        Threshold::try_from((2u64, 3u64)).unwrap().try_into().unwrap(),
        nonempty::Vec::try_from(ps.clone()).unwrap(),
    );
    let size = src.idx(4);
    let mut p = WeightedPoll::new(src.u64_any().into(), snap, 10, size);
    for x in &ps {
        if src.bool() {
            let votes = (0..size).map(|_| vote(src)).collect();
            p = p.cast_vote(1, &x.address, votes).expect("vote");
        }
    }
    if src.bool() {
        p = p.finish(10).expect("finish");
    }
    p
}

fn c29_roundtrip(src: &mut Src) -> R {
    src.nontrivial();
    match src.below(24) {
        0 => {
            let v = cname(src);
            rt(src, &v)
        }
        1 => {
            let v = ccid(src);
            rt(src, &v)
        }
        2 | 3 => {
            let (s, d) = (name(src), name(src));
            let m = message(src, &s, &d);
            rt(src, &m)?;
            ensure!(serde_json::to_value(&m).ok() == Some(msg_json(&m)), "message encoded as {:?}", serde_json::to_value(&m));
            let l = vec![m; src.idx(3)];
            rt(src, &l)?;
            rt(src, &gateway::msg::ExecuteMsg::RouteMessages(l.clone()))?;
            rt(src, &gateway::msg::ExecuteMsg::VerifyMessages(l.clone()))?;
            rt(src, &connection_router::msg::ExecuteMsg::RouteMessages(l.clone()))?;
            rt(src, &aggregate_verifier::msg::ExecuteMsg::VerifyMessages { messages: l.clone() })?;
            rt(src, &voting_verifier::msg::QueryMsg::IsVerified { messages: l.clone() })?;
            rt(src, &voting_verifier::msg::ExecuteMsg::VerifyMessages { messages: l })
        }
        4 => {
            let v: Address = text(src, 12).parse().expect("address");
            rt(src, &v)
        }
        5 => {
            let n = src.idx(5);
            let v: Vec<Vote> = (0..n).map(|_| vote(src)).collect();
            rt(src, &v)?;
            for x in &v {
                ensure!(x.to_string().parse().ok().as_ref() == Some(x), "{x:?} is not parsed back from its text");
            }
            let m = voting_verifier::msg::ExecuteMsg::Vote { poll_id: src.u64_any().into(), votes: v };
            rt(src, &m)
        }
        6 => {
            let v = poll(src);
            rt(src, &v)?;
            let s: PollState = v.state();
            rt(src, &s)?;
            let st: PollStatus = v.status.clone();
            rt(src, &st)?;
            let t: Vec<Tallies> = v.tallies.clone();
            rt(src, &t)?;
            let p: BTreeMap<String, Participation> = v.participation.clone();
            rt(src, &p)?;
            // a stored and loaded poll behaves alike
            let back: WeightedPoll = from_slice(&to_binary(&v).unwrap()).map_err(|e| crate::engine::Fail { msg: e.to_string(), sig: None })?;
            ensure!(back.state() == s, "loaded poll has state {:?}, not {s:?}", back.state());
            for i in 0..4 {
                ensure!(back.consensus(i) == v.consensus(i), "consensus on {i}");
            }
            Ok(())
        }
        7 => {
            let v: PollId = src.u64_any().into();
            rt(src, &v)?;
            let t: String = v.into();
            ensure!(t == v.to_string() && t.parse().ok() == Some(v), "{v:?} is not parsed back from {t:?}");
            Ok(())
        }
        8 => {
            let f = fraction(src);
            let Ok(t) = Threshold::try_from(f) else { return Ok(()) };
            rt(src, &t)?;
            match MajorityThreshold::try_from(t) {
                Ok(m) => rt(src, &m),
                Err(_) => Ok(()),
            }
        }
        9 => {
            let v = operators(src);
            rt(src, &v)?;
            let b: Operators = from_slice(&to_binary(&v).unwrap()).unwrap();
            ensure!(b.hash() == v.hash(), "hash changes");
            Ok(())
        }
        10 => {
            let v: nonempty::String = text(src, 12).parse().unwrap();
            rt(src, &v)
        }
        11 => {
            let n = 1 + src.idx(5);
            let v: nonempty::Vec<u64> = (0..n).map(|_| src.u64_any()).collect::<Vec<_>>().try_into().unwrap();
            rt(src, &v)
        }
        12 => {
            let x = src.u128_any().max(1);
            let a: nonempty::Uint128 = Uint128::from(x).try_into().unwrap();
            let b: nonempty::Uint256 = Uint128::from(x).try_into().unwrap();
            let c: nonempty::Uint64 = ((x as u64).max(1)).try_into().unwrap();
            let t: nonempty::Timestamp = Timestamp::from_nanos((x as u64).max(1)).try_into().unwrap();
            rt(src, &a)?;
            rt(src, &b)?;
            rt(src, &c)?;
            rt(src, &t)?;
            ensure!(Uint128::from(a).u128() == x && u64::from(c) == (x as u64).max(1), "{x} changed");
            let (x1, x2): (&Uint256, Uint256) = (b.as_ref(), b.into());
            ensure!(*x1 == x2 && x2 == Uint256::from(x), "{x} changed");
            let t0: &Timestamp = (&t).into();
            ensure!(t0.nanos() == (x as u64).max(1), "timestamp changed");
            let w = weight(src);
            rt(src, &w)
        }
        13 => {
            let v = *src.pick(&[KeyType::Ecdsa, KeyType::Ed25519]);
            rt(src, &v)
        }
        14 => {
            let v = pk(src);
            rt(src, &v)
        }
        15 => {
            let v = sig(src);
            rt(src, &v)
        }
        16 => {
            let v = worker_set(src);
            rt(src, &v)?;
            let b: WorkerSet = from_slice(&to_binary(&v).unwrap()).unwrap();
            ensure!(b.hash() == v.hash() && b.id() == v.id(), "identity changes");
            rt(src, &multisig::msg::ExecuteMsg::RegisterWorkerSet { worker_set: v })
        }
        17 => {
            let s = Signer { address: Addr::unchecked(text(src, 6)), weight: big(src, 256), pub_key: pk(src) };
            rt(src, &s)?;
            let g = if src.bool() { Some(sig(src)) } else { None };
            let st = if src.bool() { MultisigState::Pending } else { MultisigState::Completed { completed_at: src.u64_any() } };
            rt(src, &st)?;
            let m = multisig::msg::Multisig { state: st, quorum: big(src, 256), signers: vec![(s, g)] };
            rt(src, &m)
        }
        18 => {
            let v = MsgToSign::try_from(HexBinary::from(src.bytes(32))).expect("hash");
            rt(src, &v)
        }
        19 => {
            let ids: Vec<CrossChainId> = (0..src.idx(3)).map(|_| ccid(src)).collect();
            rt(src, &gateway::msg::QueryMsg::GetMessages { message_ids: ids.clone() })?;
            rt(src, &multisig_prover::msg::ExecuteMsg::ConstructProof { message_ids: ids.clone() })?;
            let ns = src.idx(3);
            let commands = (0..ns)
                .map(|i| {
                    let n = src.idx(70);
                    Command {
                        id: HexBinary::from(src.bytes(32)),
                        ty: if i == 0 { CommandType::TransferOperatorship } else { CommandType::ApproveContractCall },
                        params: HexBinary::from(src.bytes(n)),
                    }
                })
                .collect();
            let n = src.idx(70);
            let status = if src.bool() {
                multisig_prover::msg::ProofStatus::Pending
            } else {
                multisig_prover::msg::ProofStatus::Completed { execute_data: HexBinary::from(src.bytes(n)) }
            };
            let r = multisig_prover::msg::GetProofResponse {
                multisig_session_id: src.u64_any().into(),
                message_ids: ids.clone(),
                data: multisig_prover::encoding::Data { destination_chain_id: big(src, 256), commands },
                status,
            };
            rt(src, &r)?;
            let v: Vec<(CrossChainId, bool)> = ids.into_iter().map(|i| (i, src.bool())).collect();
            rt(src, &voting_verifier::msg::VerifyMessagesResponse { verification_statuses: v })
        }
        20 => {
            let p = rewards::msg::Params {
                epoch_duration: src.u64_any().max(1).try_into().unwrap(),
                rewards_per_epoch: Uint128::from(src.u128_any().max(1)).try_into().unwrap(),
                participation_threshold: Threshold::try_from((1u64, src.u64_any().max(1))).unwrap(),
            };
            rt(src, &p)?;
            rt(src, &rewards::msg::ExecuteMsg::UpdateParams { params: p })
        }
        21 => {
            let w = json!({
                "address": text(src, 5), "service_name": text(src, 5), "authorization_state": src.pick(&["Authorized", "NotAuthorized"]),
                "bonding_state": match src.below(4) {
                    0 => json!({"Bonded": {"amount": src.u128_any().to_string()}}),
                    1 => json!({"RequestedUnbonding": {"amount": src.u128_any().to_string()}}),
                    2 => json!({"Unbonding": {"amount": src.u128_any().to_string(), "unbonded_at": src.u64_any().to_string()}}),
                    _ => json!("Unbonded"),
                }
            });
            let v: service_registry::state::Worker = match serde_json::from_value(w.clone()) {
                Ok(v) => v,
                Err(e) => return fail(format!("worker {w} not decoded: {e}")),
            };
            ensure!(serde_json::to_value(&v).ok() == Some(w.clone()), "worker {w} becomes {:?}", serde_json::to_value(&v));
            rt(src, &v)
        }
        22 => {
            let n = *src.pick(&["Ethereum", "avalanche", "Sui-3", "x9"]);
            let v: api::ChainName = n.parse().expect("valid");
            rt(src, &v)?;
            ensure!(v.to_string() == n, "{n} is shown as {v}");
            let a: api::Address = text(src, 9).parse().expect("address");
            rt(src, &a)?;
            let m = api::Message {
                id: text(src, 9),
                source_chain: v.clone(),
                source_address: a.clone(),
                destination_chain: v,
                destination_address: a,
                payload_hash: src.bytes32(),
            };
            rt(src, &m)?;
            rt(src, &gateway_api::msg::ExecuteMsg::RouteMessages(vec![m]))
        }
        _ => {
            let v: BatchId = HexBinary::from(src.bytes(32)).into();
            rt(src, &v)
        }
    }
}

fn dec<T: DeserializeOwned>(v: &Value) -> Option<T> {
    let text = serde_json::to_vec(v).unwrap();
    let a = from_slice::<T>(&text).ok();
    let b = serde_json::from_slice::<T>(&text).ok();
    if a.is_some() == b.is_some() {
        a
    } else {
        a.or(b)
    }
}

/// a string, often valid, sometimes empty or with a separator
fn maybe_name(src: &mut Src) -> String {
    match src.below(5) {
        0 => String::new(),
        1 => text(src, 8),
        2 => {
            let t = name(src);
            let at = src.idx(t.chars().count() + 1);
            let mut s: Vec<char> = t.chars().collect();
            s.insert(at, ':');
            s.into_iter().collect()
        }
        _ => name(src),
    }
}

/// independent matcher of `^[A-Z]?[a-z]+(-?[0-9]+)?$`
fn api_name_valid(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && b[i].is_ascii_uppercase() {
        i += 1;
    }
    let from = i;
    while i < b.len() && b[i].is_ascii_lowercase() {
        i += 1;
    }
    if i == from {
        return false;
    }
    if i == b.len() {
        return true;
    }
    if b[i] == b'-' {
        i += 1;
    }
    let from = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    i > from && i == b.len()
}

fn c29_validated(src: &mut Src) -> R {
    macro_rules! agree {
        ($what:expr, $ok:expr, $got:expr) => {
            ensure!($got == $ok, "{}: accepted {}, valid {}", $what, $got, $ok);
        };
    }
    match src.below(14) {
        0 | 1 => {
            let s = maybe_name(src);
            src.note(|| format!("chain name {s:?}"));
            let ok = !s.is_empty() && !s.contains(':');
            if !ok {
                src.nontrivial();
            }
            let all = [s.parse::<ChainName>().ok(), ChainName::try_from(s.clone()).ok(), dec::<ChainName>(&json!(s))];
            for c in &all {
                agree!(format!("chain name {s:?}"), ok, c.is_some());
                if let Some(c) = c {
                    ensure!(c.to_string() == s.to_lowercase() && c.as_ref() == s.to_lowercase(), "chain name {s:?} is {c}");
                    ensure!(String::from(c.clone()) == s.to_lowercase(), "chain name {s:?} converts to {}", String::from(c.clone()));
                    ensure!(*c == s && *c == s.to_ascii_uppercase(), "chain name {c} is not equal to its text {s:?}");
                }
            }
            let j = json!({"chain": s, "id": "x"});
            agree!(format!("cross chain id {j}"), ok, dec::<CrossChainId>(&j).is_some());
            Ok(())
        }
        2 => {
            let s = match src.below(4) {
                0 => String::new(),
                1 => " ".repeat(1 + src.idx(3)),
                _ => text(src, 6),
            };
            src.note(|| format!("text {s:?}"));
            let ok = !s.is_empty();
            if !ok {
                src.nontrivial();
            }
            agree!("non-empty string", ok, nonempty::String::try_from(s.clone()).is_ok());
            agree!("non-empty string", ok, nonempty::String::try_from(s.as_str()).is_ok());
            agree!("non-empty string", ok, s.parse::<nonempty::String>().is_ok());
            agree!("non-empty string from JSON", ok, dec::<nonempty::String>(&json!(s)).is_some());
            agree!("address", ok, s.parse::<Address>().is_ok());
            agree!("address", ok, Address::try_from(s.clone()).is_ok());
            agree!("address from JSON", ok, dec::<Address>(&json!(s)).is_some());
            agree!("api address", ok, s.parse::<api::Address>().is_ok());
            agree!("api address", ok, api::Address::try_from(s.clone()).is_ok());
            agree!("api address from JSON", ok, dec::<api::Address>(&json!(s)).is_some());
            agree!("cross chain id from JSON", ok, dec::<CrossChainId>(&json!({"chain": "a", "id": s})).is_some());
            if let Some(x) = dec::<nonempty::String>(&json!(s)) {
                ensure!(*x == s && String::from(x.clone()) == s, "{s:?} became {x:?}");
                let b: nonempty::Vec<u8> = x.into();
                ensure!(b.as_ref() == s.as_bytes(), "{s:?} became {b:?}");
            }
            Ok(())
        }
        3 | 4 => {
            let x = src.u128_any();
            let x = if src.chance(1, 3) { 0 } else { x };
            let ok = x != 0;
            if !ok {
                src.nontrivial();
            }
            src.note(|| format!("number {x}"));
            let s = json!(x.to_string());
            agree!("non-zero Uint128", ok, nonempty::Uint128::try_from(Uint128::from(x)).is_ok());
            agree!(format!("non-zero Uint128 {x} from JSON"), ok, dec::<nonempty::Uint128>(&s).is_some());
            agree!("non-zero Uint256", ok, nonempty::Uint256::try_from(Uint128::from(x)).is_ok());
            agree!("non-zero Uint256", ok, nonempty::Uint256::try_from(Uint256::from(x)).is_ok());
            agree!(format!("non-zero Uint256 {x} from JSON"), ok, dec::<nonempty::Uint256>(&s).is_some());
            let p = json!({"address": "a", "weight": s});
            agree!(format!("participant {p}"), ok, dec::<Participant>(&p).is_some());
            let y = x as u64;
            let (oky, sy) = (y != 0, json!(y.to_string()));
            agree!("non-zero Uint64", oky, nonempty::Uint64::try_from(y).is_ok());
            agree!("non-zero Uint64", oky, nonempty::Uint64::try_from(Uint64::from(y)).is_ok());
            agree!(format!("non-zero Uint64 {y} from JSON"), oky, dec::<nonempty::Uint64>(&sy).is_some());
            agree!("non-zero timestamp", oky, nonempty::Timestamp::try_from(Timestamp::from_nanos(y)).is_ok());
            agree!(format!("non-zero timestamp {y} from JSON"), oky, dec::<nonempty::Timestamp>(&sy).is_some());
            let p = json!({"epoch_duration": sy, "rewards_per_epoch": s, "participation_threshold": ["1", "2"]});
            agree!(format!("rewards parameters {p}"), ok && oky, dec::<rewards::msg::Params>(&p).is_some());
            Ok(())
        }
        5 => {
            let n = src.idx(3);
            let v = src.bytes(n);
            src.note(|| format!("list {v:?}"));
            let ok = !v.is_empty();
            if !ok {
                src.nontrivial();
            }
            agree!("non-empty list", ok, nonempty::Vec::try_from(v.clone()).is_ok());
            agree!("non-empty list", ok, nonempty::Vec::<u8>::try_from(&HexBinary::from(v.clone())).is_ok());
            agree!("non-empty list from JSON", ok, dec::<nonempty::Vec<u8>>(&json!(v)).is_some());
            Ok(())
        }
        6 => {
            let f = fraction(src);
            src.note(|| format!("fraction {f:?}"));
            let ok = f.0 > 0 && f.1 > 0 && f.0 <= f.1;
            let maj = ok && 2 * f.0 as u128 > f.1 as u128;
            if !ok {
                src.nontrivial();
            }
            let j = json!([f.0.to_string(), f.1.to_string()]);
            agree!(format!("threshold {j}"), ok, dec::<Threshold>(&j).is_some());
            agree!(format!("majority threshold {j}"), maj, dec::<MajorityThreshold>(&j).is_some());
            let p = json!({"epoch_duration": "1", "rewards_per_epoch": "1", "participation_threshold": j});
            agree!(format!("rewards parameters {p}"), ok, dec::<rewards::msg::Params>(&p).is_some());
            Ok(())
        }
        7 | 8 => {
            let n = *src.pick(&[0usize, 1, 31, 32, 33, 34, 63, 64, 65, 66, 128]);
            let b = src.bytes(n);
            src.note(|| format!("{n} bytes"));
            let h = HexBinary::from(b.clone());
            let (ec, ed) = (n == 33 || n == 65, n == 32);
            if !ec && !ed {
                src.nontrivial();
            }
            agree!(format!("ECDSA key of {n} bytes"), ec, PublicKey::try_from((KeyType::Ecdsa, h.clone())).is_ok());
            agree!(format!("Ed25519 key of {n} bytes"), ed, PublicKey::try_from((KeyType::Ed25519, h.clone())).is_ok());
            agree!(format!("ECDSA key of {n} bytes from JSON"), ec, dec::<PublicKey>(&json!({"ecdsa": hexs(&b)})).is_some());
            agree!(format!("Ed25519 key of {n} bytes from JSON"), ed, dec::<PublicKey>(&json!({"ed25519": hexs(&b)})).is_some());
            agree!(format!("ECDSA signature of {n} bytes"), n == 64 || n == 65, Signature::try_from((KeyType::Ecdsa, h.clone())).is_ok());
            agree!(format!("Ed25519 signature of {n} bytes"), n == 64, Signature::try_from((KeyType::Ed25519, h.clone())).is_ok());
            agree!(format!("hash to sign of {n} bytes"), n == 32, MsgToSign::try_from(h.clone()).is_ok());
            for k in [PublicKey::try_from((KeyType::Ecdsa, h.clone())), PublicKey::try_from((KeyType::Ed25519, h.clone()))].into_iter().flatten() {
                ensure!(k.as_ref() == &b[..] && HexBinary::from(k.clone()) == h, "key changed");
            }
            for s in [Signature::try_from((KeyType::Ecdsa, h.clone())), Signature::try_from((KeyType::Ed25519, h))].into_iter().flatten() {
                ensure!(s.as_ref() == &b[..], "signature changed");
            }
            Ok(())
        }
        9 | 10 => {
            let (s, d) = (name(src), name(src));
            let m = message(src, &s, &d);
            let mut j = msg_json(&m);
            let (what, ok) = match src.below(8) {
                0 => ("unchanged", true),
                1 => {
                    let n = *src.pick(&[0usize, 1, 31, 33, 64]);
                    j["payload_hash"] = json!(hexs(&src.bytes(n)));
                    ("payload hash of another length", false)
                }
                2 => {
                    let mut h = hexs(&m.payload_hash);
                    h.replace_range(0..1, "g");
                    j["payload_hash"] = json!(h);
                    ("payload hash that is not hex", false)
                }
                3 => {
                    j["payload_hash"] = json!(hexs(&m.payload_hash)[1..]);
                    ("payload hash with an odd number of digits", false)
                }
                4 => {
                    j["source_address"] = json!("");
                    ("empty source address", false)
                }
                5 => {
                    j["destination_chain"] = json!(maybe_name(src));
                    let x = j["destination_chain"].as_str().unwrap();
                    ("destination chain", !x.is_empty() && !x.contains(':'))
                }
                6 => {
                    j["cc_id"]["id"] = json!("");
                    ("empty id", false)
                }
                _ => {
                    j["payload_hash"] = json!(hexs(&m.payload_hash).to_uppercase());
                    ("upper case payload hash", true)
                }
            };
            src.note(|| format!("message ({what}) {j}"));
            if !ok {
                src.nontrivial();
            }
            let got = dec::<Message>(&j);
            agree!(format!("message with {what}"), ok, got.is_some());
            if let Some(g) = got {
                ensure!(g.payload_hash == m.payload_hash, "payload hash changed");
            }
            Ok(())
        }
        11 => {
            let s = match src.below(4) {
                0 => maybe_name(src),
                1 => src.pick(&["Ethereum\n", "ethereum-", "eth-01", "ETH", "eTh", "E", "é", "eth1a", "e-1-2", "Eth 1", "-1", "1"]).to_string(),
                _ => {
                    const A: &[char] = &['a', 'b', 'A', '-', '1', '0', 'z', 'Z', 'é', '\n'];
                    let n = src.idx(6);
                    (0..n).map(|_| *src.pick(A)).collect()
                }
            };
            src.note(|| format!("api chain name {s:?}"));
            let ok = api_name_valid(&s);
            if !ok {
                src.nontrivial();
            }
            for c in [s.parse::<api::ChainName>().ok(), api::ChainName::try_from(s.clone()).ok(), dec::<api::ChainName>(&json!(s))] {
                agree!(format!("api chain name {s:?}"), ok, c.is_some());
                if let Some(c) = c {
                    ensure!(c.to_string() == s, "api chain name {s:?} is {c}");
                }
            }
            Ok(())
        }
        12 => {
            // freeze directions are sets of incoming (1) and outgoing (2)
            let x = src.below(4);
            src.note(|| format!("direction {x}"));
            let ok = true;
            let j = json!({"name": "a", "gateway": {"address": "g"}, "frozen_status": x});
            let e = dec::<connection_router::state::ChainEndpoint>(&j);
            agree!(format!("frozen status {x}"), ok, e.is_some());
            if let Some(e) = e {
                ensure!(e.incoming_frozen() == (x & 1 != 0) && e.outgoing_frozen() == (x & 2 != 0), "frozen status {x} is {e:?}");
                ensure!(serde_json::to_value(&e).ok() == Some(j), "frozen status {x} is stored as {:?}", serde_json::to_value(&e));
            }
            Ok(())
        }
        _ => {
            let s = match src.below(4) {
                0 => src.u64_any().to_string(),
                1 => (src.u64_any() as u128 + u64::MAX as u128).to_string(),
                2 => text(src, 4),
                _ => format!("-{}", src.below(5)),
            };
            src.note(|| format!("poll id {s:?}"));
            let canonical = s.parse::<u64>().ok();
            let got = s.parse::<PollId>().ok();
            if let Some(x) = canonical {
                ensure!(got == Some(PollId::from(x)), "poll id {s:?} is {got:?}");
            } else {
                src.nontrivial();
                ensure!(got.is_none(), "poll id {s:?} is {got:?}");
            }
            Ok(())
        }
    }
}

fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// identity of chain names and text form of ids
fn c29_names(src: &mut Src) -> R {
    if src.chance(1, 2) {
        let a = name(src);
        let b = match src.below(3) {
            0 => recase(src, &a),
            1 => {
                // one change that is no change of case
                let mut c: Vec<char> = a.chars().collect();
                let i = src.idx(c.len());
                match src.below(3) {
                    0 => c[i] = *src.pick(&['q', '_', 'é', '\u{0}']),
                    1 => c.push(' '),
                    _ => {
                        c.remove(i);
                    }
                }
                c.into_iter().collect()
            }
            _ => name(src),
        };
        let (Ok(x), Ok(y)) = (a.parse::<ChainName>(), b.parse::<ChainName>()) else { return Ok(()) };
        src.note(|| format!("{a:?} {b:?}"));
        let same = if a.is_ascii() && b.is_ascii() { a.eq_ignore_ascii_case(&b) } else { a.to_lowercase() == b.to_lowercase() };
        if a != b {
            src.nontrivial();
        }
        ensure!((x == y) == same, "chain names {a:?} and {b:?}: equal {}, expected {same}", x == y);
        ensure!((x == b) == same, "chain name {a:?} and text {b:?}: equal {}, expected {same}", x == b);
        if same {
            ensure!(hash_of(&x) == hash_of(&y), "equal chain names with different hashes");
            ensure!(to_binary(&x).ok() == to_binary(&y).ok(), "equal chain names are stored differently");
        }
        if let (Ok(x), Ok(y)) = (a.parse::<api::ChainName>(), b.parse::<api::ChainName>()) {
            ensure!((x == y) == same, "api chain names {a:?} and {b:?}");
            if same {
                ensure!(hash_of(&x) == hash_of(&y), "equal api chain names with different hashes");
            }
        }
        let (p, q) = (*src.pick(&["Ethereum", "ethereum", "Sui-3", "sui-3", "sui3"]), *src.pick(&["Ethereum", "ethereum", "Sui-3", "sui-3", "sui3"]));
        let (x, y): (api::ChainName, api::ChainName) = (p.parse().expect("valid"), q.parse().expect("valid"));
        ensure!((x == y) == p.eq_ignore_ascii_case(q), "api chain names {p} and {q}");
        ensure!(x != y || hash_of(&x) == hash_of(&y), "equal api chain names with different hashes");
        Ok(())
    } else {
        let i = ccid(src);
        src.note(|| format!("{i}"));
        if i.id.contains(':') {
            src.nontrivial();
        }
        let t = i.to_string();
        match t.parse::<CrossChainId>() {
            Ok(b) => ensure!(b == i, "{t:?} is parsed as {b:?}, not as {i:?}"),
            Err(e) => return fail(format!("{t:?} is not parsed: {e}")),
        }
        let s = match src.below(3) {
            0 => maybe_name(src),
            1 => format!("{}:{}", maybe_name(src), maybe_name(src)),
            _ => format!("{}:", maybe_name(src)),
        };
        let want = s.split_once(':').filter(|(a, b)| !a.is_empty() && !b.is_empty());
        match (s.parse::<CrossChainId>(), want) {
            (Ok(x), Some((a, b))) => {
                ensure!(x.chain.as_ref() == a.to_lowercase() && *x.id == b, "{s:?} is parsed as {x:?}")
            }
            (Err(_), None) => {}
            (r, _) => return fail(format!("{s:?} is parsed as {r:?}")),
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C31

mod derived {
    use axelar_wasm_std_derive::IntoContractError;
    #[derive(thiserror::Error, Debug, PartialEq, IntoContractError)]
    #[error("{0}")]
    pub struct Plain(pub String);
}

#[derive(Debug)]
struct Ctx(String);
impl std::fmt::Display for Ctx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl error_stack::Context for Ctx {}

#[derive(Debug, Clone)]
enum Att {
    Printable(String),
    Opaque,
    Trace,
}

fn msg_text(src: &mut Src, n: usize) -> String {
    match src.below(3) {
        0 => format!("error {n}"),
        1 => String::new(),
        _ => text(src, 12),
    }
}

fn attach<C>(mut r: error_stack::Report<C>, atts: &[Att]) -> error_stack::Report<C> {
    for a in atts {
        r = match a {
            Att::Printable(s) => r.attach_printable(s.clone()),
            Att::Opaque => r.attach(5u8),
            Att::Trace => r.attach(std::backtrace::Backtrace::disabled()),
        };
    }
    r
}

fn atts(src: &mut Src, n: usize) -> Vec<Att> {
    (0..src.idx(4))
        .map(|i| {
            if src.chance(1, 5) {
                Att::Opaque
            } else if src.chance(1, 8) {
                Att::Trace
            } else if src.chance(1, 6) {
                // the same text more than once, or that of an error
                Att::Printable(format!("error {n}"))
            } else {
                Att::Printable(format!("{}{i}", text(src, 8)))
            }
        })
        .collect()
}

/// the expected chain, outermost first: message and attachments in the order in which they were attached
type Chain = Vec<(String, Vec<String>)>;

fn compare(e: &report::LoggableError, want: &Chain) -> R {
    let mut cur = Some(e);
    for (i, (m, a)) in want.iter().enumerate() {
        let Some(x) = cur else { return fail(format!("the chain ends after {i} of {} errors", want.len())) };
        ensure!(x.msg == *m, "error {i} is {:?}, expected {m:?}", x.msg);
        ensure!(x.attachments == *a, "attachments of error {i} are {:?}, expected {a:?}", x.attachments);
        cur = x.cause.as_deref();
    }
    ensure!(cur.is_none(), "the chain has additional errors: {cur:?}");
    Ok(())
}

/// all messages and attachments appear in the text, outermost first
fn shown(text: &str, want: &Chain) -> R {
    let mut at = 0;
    for (m, a) in want {
        match text[at..].find(m.as_str()) {
            Some(p) => at += p + m.len(),
            None => return fail(format!("{m:?} is not shown (in order) in {text:?}")),
        }
        for x in a {
            let q = format!("{x:?}");
            match text[at..].find(&q) {
                Some(p) => at += p + q.len(),
                None => return fail(format!("attachment {q} is not shown (in order) in {text:?}")),
            }
        }
    }
    Ok(())
}

fn c31_report(src: &mut Src) -> R {
    let depth = 1 + src.idx(8);
    let mut want: Chain = vec![];
    let texts = |a: &[Att]| -> Vec<String> {
        a.iter()
            .filter_map(|x| match x {
                Att::Printable(s) => Some(s.clone()),
                Att::Opaque => Some("opaque attachment".to_string()),
                Att::Trace => None,
            })
            .collect()
    };
    let eyre = src.chance(1, 3);
    // the levels with a backtrace, innermost first
    let mut traces: Vec<bool> = vec![];
    let traced = |a: &[Att]| a.iter().any(|x| matches!(x, Att::Trace));
    let mut rep: error_stack::Report<Ctx> = if eyre {
        // an eyre error with its own chain of causes
        let n = 1 + src.idx(4);
        let ms: Vec<String> = (0..n).map(|i| msg_text(src, 100 + i)).collect();
        let mut e = eyre::eyre!(ms[0].clone());
        for m in &ms[1..] {
            e = e.wrap_err(m.clone());
        }
        let c = msg_text(src, 0);
        let r: Result<(), eyre::Report> = Err(e);
        let res = guard(|| report::ResultCompatExt::change_context(r, Ctx(c.clone())));
        let r = match res {
            Ok(Err(r)) => r,
            Ok(Ok(())) => return fail("an error became a success"),
            Err(e) => return fail(format!("conversion of an eyre error: {e}")),
        };
        src.class("eyre");
        // outermost first; the causes come with the eyre error, in their order
        let mut causes = ms.clone();
        causes.reverse();
        let l = report::LoggableError::from(&r);
        let mut flat: Vec<String> = vec![];
        let mut cur = Some(&l);
        while let Some(x) = cur {
            flat.push(x.msg.clone());
            flat.extend(x.attachments.iter().cloned());
            cur = x.cause.as_deref();
        }
        let mut all = vec![c.clone()];
        all.extend(causes.iter().cloned());
        ensure!(flat == all, "eyre chain {all:?} is reported as {flat:?}");
        want.push((causes[0].clone(), causes[1..].to_vec()));
        want.insert(0, (c, vec![]));
        let a = atts(src, 0);
        want[0].1 = texts(&a);
        traces.extend([false, traced(&a)]);
        attach(r, &a)
    } else {
        let m = msg_text(src, 0);
        let a = atts(src, 0);
        want.push((m.clone(), texts(&a)));
        traces.push(traced(&a));
        attach(error_stack::Report::new(Ctx(m)), &a)
    };
    for i in 1..depth {
        let m = msg_text(src, i);
        let a = atts(src, i);
        rep = attach(rep.change_context(Ctx(m.clone())), &a);
        want.insert(0, (m, texts(&a)));
        traces.push(traced(&a));
    }
    src.note(|| format!("{want:?}"));
    if want.len() > 2 && want.iter().any(|w| w.1.len() > 1) {
        src.nontrivial();
    }
    let l = match guard(|| report::LoggableError::from(&rep)) {
        Ok(l) => l,
        Err(e) => return fail(format!("flattening: {e}")),
    };
    compare(&l, &want)?;
    let mut cur = Some(&l);
    for t in traces.iter().rev() {
        let Some(x) = cur else { break };
        ensure!(x.backtrace.is_some() || !t, "the backtrace of {:?} is lost", x.msg);
        ensure!(eyre || x.location.contains(".rs:"), "{:?} has the location {:?}", x.msg, x.location);
        cur = x.cause.as_deref();
    }
    let t = match guard(|| l.to_string()) {
        Ok(t) => t,
        Err(e) => return fail(format!("display: {e}")),
    };
    shown(&t, &want)?;
    if want.iter().all(|w| w.1.is_empty()) {
        let plain = want.iter().map(|w| w.0.clone()).collect::<Vec<_>>().join(": ");
        ensure!(t == plain, "{plain:?} is shown as {t:?}");
    }
    // the contracts' common error shows the same
    let c: axelar_wasm_std::ContractError = rep.into();
    shown(&c.to_string(), &want)?;
    let axelar_wasm_std::ContractError::Structured(l2) = &c else { return fail(format!("a report became {c:?}")) };
    compare(l2, &want)?;
    let c2: axelar_wasm_std::ContractError = l.into();
    ensure!(c2.to_string() == c.to_string(), "two conversions of one report differ: {c} / {c2}");
    Ok(())
}

fn c31_convert(src: &mut Src) -> R {
    let t = msg_text(src, 1);
    src.note(|| format!("{t:?}"));
    if !t.is_empty() {
        src.nontrivial();
    }
    let has = |c: &axelar_wasm_std::ContractError, want: &str| -> R {
        ensure!(c.to_string().contains(want), "{c} does not show {want:?}");
        Ok(())
    };
    let conv = |f: &dyn Fn() -> axelar_wasm_std::ContractError| -> R<axelar_wasm_std::ContractError> {
        match guard(f) {
            Ok(c) => Ok(c),
            Err(e) => fail(format!("conversion: {e}")),
        }
    };
    use cosmwasm_std::StdError;
    let std_err = || match t.len() % 4 {
        0 => StdError::generic_err(t.clone()),
        1 => StdError::not_found(t.clone()),
        2 => StdError::parse_err("T", t.clone()),
        _ => StdError::invalid_utf8(t.clone()),
    };
    let c = conv(&|| derived::Plain(t.clone()).into())?;
    has(&c, &t)?;
    let axelar_wasm_std::ContractError::Structured(l) = &c else { return fail(format!("{c:?}")) };
    compare(l, &vec![(t.clone(), vec![])])?;
    let c = conv(&|| std_err().into())?;
    ensure!(c.to_string() == std_err().to_string(), "{} became {c}", std_err());
    // the contracts' own errors, with the standard error as their cause
    let n = std_err().to_string();
    let c = conv(&|| connection_router::ContractError::Std(std_err()).into())?;
    has(&c, &n)?;
    let c = conv(&|| multisig::ContractError::Std(std_err()).into())?;
    has(&c, &n)?;
    let c = conv(&|| voting_verifier::error::ContractError::RouterError(connection_router::ContractError::Std(std_err())).into())?;
    has(&c, &n)?;
    let c = conv(&|| multisig_prover::error::ContractError::Std(std_err()).into())?;
    has(&c, &n)?;
    let c = conv(&|| aggregate_verifier::error::ContractError::Std(std_err()).into())?;
    has(&c, &n)?;
    let mk = || multisig_prover::error::ContractError::InvalidMessage { reason: t.clone() };
    let c = conv(&|| mk().into())?;
    has(&c, &mk().to_string())?;
    let mk = || multisig::ContractError::InvalidPublicKeyFormat { reason: t.clone() };
    let c = conv(&|| mk().into())?;
    has(&c, &mk().to_string())
}

// ---------------------------------------------------------------- C32

fn near_ids(src: &mut Src) -> Vec<CrossChainId> {
    // few letters, so that concatenations of chain and id often agree
    let part = |src: &mut Src, sep: bool| -> String {
        let a: &[char] = if sep { &['a', 'b', '\u{0}', ':', '\u{1}', 'A', '\u{ff}'] } else { &['a', 'b', '\u{0}', '\u{1}', 'A', '\u{ff}'] };
        (0..1 + src.idx(4)).map(|_| *src.pick(a)).collect()
    };
    (0..2 + src.idx(8))
        .map(|_| {
            let chain = part(src, false).parse().expect("chain name");
            CrossChainId { chain, id: part(src, true).parse().expect("id") }
        })
        .collect()
}

fn e(e: cosmwasm_std::StdError) -> crate::engine::Fail {
    crate::engine::Fail { msg: e.to_string(), sig: None }
}

fn c32_keys(src: &mut Src) -> R {
    let mut st = MockStorage::new();
    match src.below(5) {
        0 | 1 => {
            let map: Map<CrossChainId, u64> = Map::new("m");
            let other: Map<ChainName, u64> = Map::new("n");
            let mut want: BTreeMap<(String, String), u64> = BTreeMap::new();
            for (i, id) in near_ids(src).into_iter().enumerate() {
                map.save(&mut st, id.clone(), &(i as u64)).map_err(e)?;
                other.save(&mut st, id.chain.clone(), &(i as u64)).map_err(e)?;
                want.insert((id.chain.to_string(), id.id.to_string()), i as u64);
            }
            src.note(|| format!("{want:?}"));
            for (k, v) in &want {
                let id = CrossChainId { chain: k.0.parse().unwrap(), id: k.1.parse().unwrap() };
                let got = map.may_load(&st, id).map_err(e)?;
                ensure!(got == Some(*v), "{k:?} holds {got:?} instead of {v}");
            }
            for o in [Order::Ascending, Order::Descending] {
                let mut all = BTreeMap::new();
                for r in map.range(&st, None, None, o) {
                    let (k, v) = match r {
                        Ok(x) => x,
                        Err(x) => return fail(format!("iteration: {x}")),
                    };
                    ensure!(all.insert((k.chain.to_string(), k.id.to_string()), v).is_none(), "{k:?} listed twice");
                }
                ensure_eq!(all, want, "iterating over ids");
            }
            let chains: BTreeSet<String> = want.keys().map(|k| k.0.clone()).collect();
            for c in &chains {
                let cn: ChainName = c.parse().unwrap();
                let mut got = BTreeMap::new();
                for r in map.prefix(cn).range(&st, None, None, Order::Ascending) {
                    match r {
                        Ok((k, v)) => {
                            got.insert(k, v);
                        }
                        Err(x) => return fail(format!("iteration over a chain: {x}")),
                    }
                }
                let w: BTreeMap<String, u64> = want.iter().filter(|(k, _)| k.0 == *c).map(|(k, v)| (k.1.clone(), *v)).collect();
                ensure_eq!(got, w, "ids of chain {c:?}");
            }
            let got: Result<Vec<ChainName>, _> = other.keys(&st, None, None, Order::Ascending).collect();
            let got = match got {
                Ok(g) => g,
                Err(x) => return fail(format!("iterating over chains: {x}")),
            };
            ensure_eq!(got.iter().map(|c| c.to_string()).collect::<Vec<_>>(), chains.iter().cloned().collect::<Vec<_>>(), "chain names");
            if want.len() > 1 {
                src.nontrivial();
            }
            // removing one leaves the others
            if let Some(k) = want.keys().next().cloned() {
                let id = CrossChainId { chain: k.0.parse().unwrap(), id: k.1.parse().unwrap() };
                map.remove(&mut st, id);
                want.remove(&k);
                let n = map.keys(&st, None, None, Order::Ascending).count();
                ensure!(n == want.len(), "{n} of {} entries left", want.len());
            }
            Ok(())
        }
        2 => {
            let map: Map<PollId, u64> = Map::new("p");
            let mut want = BTreeMap::new();
            for i in 0..1 + src.idx(10) as u64 {
                let x = src.u64_any();
                map.save(&mut st, x.into(), &i).map_err(e)?;
                want.insert(x, i);
            }
            src.note(|| format!("{want:?}"));
            if want.len() > 1 {
                src.nontrivial();
            }
            let mut got = vec![];
            for r in map.range(&st, None, None, Order::Ascending) {
                match r {
                    Ok((k, v)) => got.push((k.to_string(), v)),
                    Err(x) => return fail(format!("iterating over poll ids: {x}")),
                }
            }
            ensure_eq!(got, want.iter().map(|(k, v)| (k.to_string(), *v)).collect::<Vec<_>>(), "poll ids in order");
            Ok(())
        }
        3 => {
            // as the multisig contract stores public keys
            let map: Map<(Addr, KeyType), u64> = Map::new("k");
            let mut want: BTreeMap<(String, u8), u64> = BTreeMap::new();
            for i in 0..1 + src.idx(8) as u64 {
                let a = format!("{}{}", src.pick(&["a", "b", "a\u{0}", "a\u{1}", "ab"]), src.pick(&["", "\u{0}", "\u{1}", "b"]));
                let (t, n) = *src.pick(&[(KeyType::Ecdsa, 0u8), (KeyType::Ed25519, 1)]);
                map.save(&mut st, (Addr::unchecked(&a), t), &i).map_err(e)?;
                want.insert((a, n), i);
            }
            src.note(|| format!("{want:?}"));
            if want.len() > 1 {
                src.nontrivial();
            }
            for ((a, t), v) in &want {
                let kt = if *t == 0 { KeyType::Ecdsa } else { KeyType::Ed25519 };
                let got = map.may_load(&st, (Addr::unchecked(a), kt)).map_err(e)?;
                ensure!(got == Some(*v), "{a:?}/{t} holds {got:?}, not {v}");
            }
            let mut all = BTreeMap::new();
            for r in map.range(&st, None, None, Order::Ascending) {
                match r {
                    Ok(((a, t), v)) => {
                        all.insert((a.to_string(), if t == KeyType::Ecdsa { 0u8 } else { 1 }), v);
                    }
                    Err(x) => return fail(format!("iterating over worker keys: {x}")),
                }
            }
            ensure_eq!(all, want, "worker keys");
            Ok(())
        }
        _ => {
            let map: Map<&BatchId, u64> = Map::new("b");
            let mut want: BTreeMap<Vec<u8>, u64> = BTreeMap::new();
            for i in 0..1 + src.idx(6) as u64 {
                let b = src.bytes32();
                let id: BatchId = HexBinary::from(b.to_vec()).into();
                map.save(&mut st, &id, &i).map_err(e)?;
                want.insert(b.to_vec(), i);
            }
            src.note(|| format!("{want:?}"));
            if want.len() > 1 {
                src.nontrivial();
            }
            let mut all: BTreeMap<Vec<u8>, u64> = BTreeMap::new();
            let map: Map<BatchId, u64> = Map::new("b");
            let res = guard(|| map.range(&st, None, None, Order::Ascending).collect::<Result<Vec<_>, _>>());
            match res {
                Ok(Ok(l)) => {
                    for (k, v) in l {
                        let h: HexBinary = serde_json::from_value(serde_json::to_value(&k).unwrap()).unwrap();
                        all.insert(h.to_vec(), v);
                    }
                }
                Ok(Err(x)) => return fail(format!("iterating over batches: {x}")),
                Err(x) => return fail(format!("iterating over batches: {x}")),
            }
            ensure_eq!(all, want, "batch ids");
            Ok(())
        }
    }
}

fn c32_counter(src: &mut Src) -> R {
    let mut st = MockStorage::new();
    let (a, b): (Counter<u64>, Counter<u64>) = (Counter::new("ids"), Counter::new("ids2"));
    let p: Counter<PollId> = Counter::new("polls");
    let mut seen: [Vec<u64>; 3] = Default::default();
    let num = |p: PollId| p.to_string().parse::<u64>().unwrap();
    src.repeat(1, 40, 15, |src, _| {
        let i = src.idx(3);
        let inc = src.chance(2, 3);
        let (cur, next) = match i {
            0 => (a.cur(&st), if inc { Some(a.incr(&mut st).map_err(e)?) } else { None }),
            1 => (b.cur(&st), if inc { Some(b.incr(&mut st).map_err(e)?) } else { None }),
            _ => (num(p.cur(&st)), if inc { Some(num(p.incr(&mut st).map_err(e)?)) } else { None }),
        };
        let last = seen[i].last().copied();
        src.note(|| format!("counter {i}: {cur} -> {next:?}"));
        if let Some(l) = last {
            ensure!(cur == l, "counter {i} is {cur} after {l}");
        }
        if let Some(n) = next {
            ensure!(last.map(|l| n > l).unwrap_or(true) && n > cur, "counter {i} gives {n} after {last:?}");
            ensure!(!seen[i].contains(&n), "counter {i} gives {n} twice");
            seen[i].push(n);
            let now = match i {
                0 => a.cur(&st),
                1 => b.cur(&st),
                _ => num(p.cur(&st)),
            };
            ensure!(now == n, "counter {i} is {now} after it gave {n}");
        }
        Ok(())
    })?;
    if seen.iter().filter(|s| s.len() > 1).count() > 1 {
        src.nontrivial();
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C10",
            rule: "fractions biased to zero, one half, one and the limits of u64, built in every way; snapshots of 1 to 12 participants with weights up to 250 bits; the quorum is checked by multiplication in 512 bits. Non-trivial: the fraction is a valid threshold / more than one participant",
            assumptions: &["total weight below 2^256", "each participant is listed once"],
            subs: vec![
                Sub { name: "threshold", f: c10_threshold, quick: 2_400_000, thorough: 30_000_000 },
                Sub { name: "snapshot", f: c10_snapshot, quick: 360_000, thorough: 4_320_000 },
            ],
            known: vec![],
        },
        Check {
            id: "C29",
            rule: "values of every exchanged type are encoded and decoded with cosmwasm's and serde_json's codec; valid, damaged and empty contents are offered to every constructor and decoder and compared with an independent predicate; pairs of chain names and id texts. Non-trivial: any value (roundtrip), an invalid one (validated), different texts or an id with a separator (names)",
            assumptions: &["equality ignoring case of non-ASCII names means equality of their Unicode lower case forms"],
            subs: vec![
                Sub { name: "roundtrip", f: c29_roundtrip, quick: 400_000, thorough: 6_000_000 },
                Sub { name: "validated", f: c29_validated, quick: 600_000, thorough: 8_000_000 },
                Sub { name: "names", f: c29_names, quick: 600_000, thorough: 8_000_000 },
            ],
            known: vec![],
        },
        Check {
            id: "C31",
            rule: "error reports of depth 1 to 8 with printable and opaque attachments, optionally started from an eyre chain, are flattened and compared level by level; conversions of the contracts' errors. Non-trivial: more than two levels and a level with several attachments / a non-empty message",
            assumptions: &["an eyre error's causes may be listed as its attachments, in order"],
            subs: vec![
                Sub { name: "report", f: c31_report, quick: 360_000, thorough: 4_320_000 },
                Sub { name: "convert", f: c31_convert, quick: 240_000, thorough: 2_880_000 },
            ],
            known: vec![],
        },
        Check {
            id: "C32",
            rule: "maps keyed by ids over a tiny alphabet with separators and NUL, by poll ids, worker keys and batch ids are filled, read, iterated and compared with a model; counters side by side. Non-trivial: more than one entry / two counters incremented repeatedly",
            assumptions: &["chain names shorter than 2^16 bytes"],
            subs: vec![
                Sub { name: "keys", f: c32_keys, quick: 480_000, thorough: 5_760_000 },
                Sub { name: "counter", f: c32_counter, quick: 160_000, thorough: 1_920_000 },
            ],
            known: vec![],
        },
    ]
}
