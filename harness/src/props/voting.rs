//! C06, C07, C08, C09 (and the verifier part of C19): the voting verifier against a reference
//! model of polls, with a programmable service registry and a recording rewards contract.
use crate::engine::*;
use crate::util::app::*;
use crate::util::gen::*;
use axelar_wasm_std::operators::Operators;
use axelar_wasm_std::voting::Vote;
use connection_router::state::Message;
use cosmwasm_std::{Addr, HexBinary, Uint128, Uint256, Uint512};
use serde_json::{json, Value};
use service_registry::state::{AuthorizationState, BondingState, Worker};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use voting_verifier::msg::{EndPollResponse, InstantiateMsg, VerifyMessagesResponse};

pub const C06: u8 = 1;
pub const C07: u8 = 2;
pub const C08: u8 = 4;
pub const C09: u8 = 8;
pub const C19: u8 = 16;
pub const C38: u8 = 32;

#[derive(Clone)]
enum Content {
    /// (canonical JSON, message)
    Msgs(Vec<String>),
    Ops(String),
}
#[derive(Clone)]
struct PollM {
    id: String,
    content: Content,
    participants: BTreeSet<String>,
    quorum: u128,
    expires_at: u64,
    ended: bool,
    votes: BTreeMap<String, Vec<Vote>>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Not,
    Pending,
    Verified,
    Failed,
}
impl PollM {
    fn size(&self) -> usize {
        match &self.content {
            Content::Msgs(m) => m.len(),
            Content::Ops(_) => 1,
        }
    }
    fn tally(&self, pos: usize, v: &Vote) -> u128 {
        self.votes.values().filter(|vs| &vs[pos] == v).count() as u128
    }
    fn result(&self, pos: usize) -> Option<Vote> {
        [Vote::SucceededOnChain, Vote::FailedOnChain, Vote::NotFound]
            .into_iter()
            .find(|v| self.tally(pos, v) >= self.quorum)
    }
    fn status(&self, pos: usize) -> Status {
        if self.result(pos) == Some(Vote::SucceededOnChain) {
            Status::Verified
        } else if self.ended {
            Status::Failed
        } else {
            Status::Pending
        }
    }
    fn consensus_participants(&self) -> BTreeSet<String> {
        self.votes
            .iter()
            .filter(|(_, vs)| {
                (0..vs.len()).all(|i| match self.result(i) {
                    Some(r) => vs[i] == r,
                    None => true,
                })
            })
            .map(|(a, _)| a.clone())
            .collect()
    }
}

pub fn worker_record(a: &str, service: &str) -> Worker {
    Worker {
        address: Addr::unchecked(a),
        bonding_state: BondingState::Bonded {
            amount: Uint128::new(100),
        },
        authorization_state: AuthorizationState::Authorized,
        service_name: service.into(),
    }
}

struct Sys {
    focus: u8,
    /// how many of the latest polls are voted in
    recent: usize,
    w: World,
    vv: Addr,
    rewards: Addr,
    names: Vec<String>,
    active: Arc<Mutex<Vec<String>>>,
    num: u64,
    den: u64,
    expiry: u64,
    conf_height: u64,
    chain: String,
    gw_addr: String,
    polls: Vec<PollM>,
    /// latest poll (index) and position of each message, by canonical JSON
    latest: BTreeMap<String, (usize, usize)>,
    /// the same for operator sets
    latest_ops: BTreeMap<String, usize>,
    seen_rewards: usize,
    msgs: Vec<Message>,
    ops: Vec<Operators>,
    /// every message that was ever verified
    was_verified: BTreeSet<String>,
}

fn ceil_mul(total: u128, num: u64, den: u64) -> u128 {
    let p = Uint512::from(total) * Uint512::from(num);
    let d = Uint512::from(den);
    let q = p / d;
    let q = if q * d == p { q } else { q + Uint512::one() };
    q.to_string().parse().unwrap()
}

/// a majority fraction
pub fn majority(src: &mut Src) -> (u64, u64) {
    match src.below(5) {
        0 => (2, 3),
        1 => (1, 1),
        2 => (51, 100),
        3 => {
            let den = 1 + src.below(12);
            let num = den / 2 + 1 + src.below(den - den / 2);
            (num.min(den), den)
        }
        _ => {
            let den = src.range(3, u64::MAX);
            let half = den / 2;
            (half + 1 + src.below((den - half - 1).max(1)), den)
        }
    }
}

const WORKERS: &[&str] = &["w0", "w1", "w2", "w3", "w4", "w5", "w6", "w7"];

impl Sys {
    fn new(src: &mut Src, focus: u8) -> Sys {
        let mut w = World::new();
        let (registry, ctl) = w.mock();
        let (rewards, _) = w.mock();
        let n = src.size(WORKERS.len(), 70);
        let names: Vec<String> = (0..n.max(WORKERS.len())).map(|i| format!("w{i}")).collect();
        let active: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(names[..n].to_vec()));
        let (num, den) = majority(src);
        let expiry = match src.below(6) {
            0 => src.below(2),
            _ => 2 + src.below(12),
        };
        let conf_height = src.below(100);
        let chain_name = src.pick(CHAINS).to_string();
        let service = "service".to_string();
        let gw_addr = address(src);
        let a2 = active.clone();
        let (c2, s2) = (chain_name.clone(), service.clone());
        ctl.lock().unwrap().query = Some(Box::new(move |q| {
            let g = &q["get_active_workers"];
            if g["service_name"] != json!(s2) || g["chain_name"] != json!(c2) {
                return Err(format!("unexpected query {q}"));
            }
            let v: Vec<Worker> = a2.lock().unwrap().iter().map(|a| worker_record(a, "service")).collect();
            serde_json::to_vec(&v).map(|v| v.into()).map_err(|e| e.to_string())
        }));
        let msg: InstantiateMsg = serde_json::from_value(json!({
            "service_registry_address": registry, "service_name": service,
            "source_gateway_address": gw_addr, "voting_threshold": [num.to_string(), den.to_string()],
            "block_expiry": expiry, "confirmation_height": conf_height,
            "source_chain": chain_name, "rewards_address": rewards,
        }))
        .expect("valid instantiate message");
        let vv = w.instantiate(w_voting_verifier(), &msg, "verifier").expect("verifier instantiates");
        src.note(|| {
            format!("verifier: threshold {num}/{den}, block expiry {expiry}, {n} active workers, chain {chain_name}")
        });
        Sys {
            focus,
            recent: 4,
            w,
            vv,
            rewards,
            names,
            active,
            num,
            den,
            expiry,
            conf_height,
            chain: chain_name,
            gw_addr,
            polls: vec![],
            latest: BTreeMap::new(),
            latest_ops: BTreeMap::new(),
            seen_rewards: 0,
            msgs: vec![],
            ops: vec![],
            was_verified: BTreeSet::new(),
        }
    }
    fn status(&self, k: &str) -> Status {
        match self.latest.get(k) {
            None => Status::Not,
            Some((p, i)) => self.polls[*p].status(*i),
        }
    }
    fn ops_status(&self, k: &str) -> Status {
        match self.latest_ops.get(k) {
            None => Status::Not,
            Some(p) => self.polls[*p].status(0),
        }
    }
    fn quorum_now(&self) -> u128 {
        ceil_mul(self.active.lock().unwrap().len() as u128, self.num, self.den)
    }

    /// compares all statuses with the model
    fn check_statuses(&mut self) -> R {
        let msgs = self.msgs.clone();
        if !msgs.is_empty() {
            let r: Result<Vec<(Value, bool)>, _> =
                self.w.query(&self.vv, &json!({"is_verified": {"messages": msgs.iter().map(msg_json).collect::<Vec<_>>()}}));
            let r = match r {
                Ok(r) => r,
                Err(e) => {
                    own!(self, C06 | C08, false, "status query failed: {e}");
                    unreachable!()
                }
            };
            own!(self, C06 | C08, r.len() == msgs.len(), "status query returned {} of {} statuses", r.len(), msgs.len());
            for (m, (id, st)) in msgs.iter().zip(r) {
                let j = msg_json(m);
                let k = j.to_string();
                own!(self, C06 | C08, id == j["cc_id"], "status query returned id {id} for {}", short(m));
                let exp = self.status(&k) == Status::Verified;
                if self.was_verified.contains(&k) {
                    own!(self, C08 | C06, st, "message {} was verified and is not any more", short(m));
                }
                own!(
                    self,
                    C06 | C08,
                    st == exp,
                    "message {} reported verified={st}, expected {exp} ({})",
                    short(m),
                    self.explain(&k)
                );
                if exp {
                    self.was_verified.insert(k);
                }
            }
        }
        for o in &self.ops.clone() {
            let r: Result<bool, _> = self.w.query(&self.vv, &json!({"is_worker_set_verified": {"new_operators": o}}));
            let k = serde_json::to_string(o).unwrap();
            let exp = self.ops_status(&k) == Status::Verified;
            own!(self, C19, r == Ok(exp), "operators {k} reported verified={r:?}, expected {exp}");
        }
        Ok(())
    }
    fn explain(&self, k: &str) -> String {
        match self.latest.get(k) {
            None => "never polled".into(),
            Some((p, i)) => {
                let p = &self.polls[*p];
                format!(
                    "latest poll {} has {} of {} success votes, quorum {}, ended {}",
                    p.id,
                    p.tally(*i, &Vote::SucceededOnChain),
                    p.participants.len(),
                    p.quorum,
                    p.ended
                )
            }
        }
    }
    fn no_rewards(&mut self, bits: u8) -> R {
        let n = self.w.mock_log(&self.rewards).len();
        own!(self, bits, n == self.seen_rewards, "rewards contract called unexpectedly");
        Ok(())
    }

    fn poll_meta(&self, e: &cosmwasm_std::Event) -> R<(String, BTreeSet<String>)> {
        let get = |k: &str| attr(e, k).map(|s| s.to_string());
        let Some(id) = get("poll_id").and_then(|s| serde_json::from_str::<String>(&s).ok()) else {
            return abandon();
        };
        let Some(parts) = get("participants").and_then(|s| serde_json::from_str::<Vec<String>>(&s).ok()) else {
            own!(self, C07, false, "poll event without participants: {e:?}");
            unreachable!()
        };
        let set: BTreeSet<String> = parts.iter().cloned().collect();
        own!(self, C07, set.len() == parts.len(), "duplicate participants in {e:?}");
        let act: BTreeSet<String> = self.active.lock().unwrap().iter().cloned().collect();
        own!(self, C07 | C06, set == act, "poll participants {set:?}, active workers {act:?}");
        own!(self, C07, get("source_chain") == Some(self.chain.clone()), "source chain in {e:?}");
        own!(self, C07, get("source_gateway_address") == Some(self.gw_addr.clone()), "gateway in {e:?}");
        own!(self, C07, get("confirmation_height") == Some(self.conf_height.to_string()), "confirmation height in {e:?}");
        own!(
            self,
            C07,
            get("expires_at") == Some((self.w.height() + self.expiry).to_string()),
            "expiry in {e:?}, expected {}",
            self.w.height() + self.expiry
        );
        own!(self, C07, self.polls.iter().all(|p| p.id != id), "poll id {id} reused");
        Ok((id, set))
    }

    fn verify(&mut self, src: &mut Src, batch: Vec<Message>) -> R {
        let before = self.w.dump(&self.vv);
        let msg = json!({"verify_messages": {"messages": batch.iter().map(msg_json).collect::<Vec<_>>()}});
        let r = self.w.exec(&addr("anyone"), &self.vv.clone(), &msg, &[]);
        src.note(|| {
            format!(
                "verify [{}] -> {}",
                batch.iter().map(short).collect::<Vec<_>>().join("; "),
                if r.is_ok() { "ok" } else { "rejected" }
            )
        });
        let keys: Vec<String> = batch.iter().map(|m| msg_json(m).to_string()).collect();
        let sts: Vec<Status> = keys.iter().map(|k| self.status(k)).collect();
        let todo: Vec<usize> = (0..batch.len())
            .filter(|i| matches!(sts[*i], Status::Not | Status::Failed))
            .collect();
        let form_ok = !batch.is_empty()
            && batch.iter().all(|m| m.cc_id.chain.to_string() == self.chain)
            && todo.iter().all(|i| split_id(&batch[*i].cc_id.id).is_some());
        let workers_ok = todo.is_empty() || !self.active.lock().unwrap().is_empty();
        match r {
            Err(e) => {
                own!(self, C08 | C09, !(form_ok && workers_ok), "valid request rejected: {e}");
                own!(self, C08 | C09, self.w.dump(&self.vv) == before, "a rejected request changed the state");
                src.class("request_rejected");
            }
            Ok(r) => {
                own!(self, C09, form_ok, "malformed request accepted: {msg}");
                own!(self, C06 | C08, workers_ok, "poll started without active workers");
                let data: Option<VerifyMessagesResponse> =
                    r.data.as_ref().and_then(|d| cosmwasm_std::from_binary(d).ok());
                match data {
                    None => own!(self, C08, false, "no verification statuses in the response"),
                    Some(d) => {
                        let got: Vec<(String, String, bool)> = d
                            .verification_statuses
                            .iter()
                            .map(|(id, b)| (id.chain.to_string(), id.id.to_string(), *b))
                            .collect();
                        let exp: Vec<(String, String, bool)> = batch
                            .iter()
                            .zip(&sts)
                            .map(|(m, s)| (m.cc_id.chain.to_string(), m.cc_id.id.to_string(), *s == Status::Verified))
                            .collect();
                        own!(self, C08, got == exp, "response reports {got:?}, the statuses were {exp:?}");
                    }
                }
                let evs = events(&r, &self.vv, "messages_poll_started");
                if todo.is_empty() {
                    own!(self, C08, evs.is_empty(), "a poll was started although nothing is to be verified");
                    own!(self, C08, self.w.dump(&self.vv) == before, "a request with nothing to verify changed the state");
                    src.class("nothing_to_poll");
                } else {
                    own!(self, C07 | C08, evs.len() == 1, "{} poll events for one request", evs.len());
                    let (id, participants) = self.poll_meta(evs[0])?;
                    let got: Option<Vec<Value>> = attr(evs[0], "messages").and_then(|s| serde_json::from_str(s).ok());
                    let Some(got) = got else {
                        own!(self, C07, false, "poll event without messages");
                        unreachable!()
                    };
                    let exp: Vec<Value> = todo
                        .iter()
                        .map(|i| {
                            let m = &batch[*i];
                            let (tx, ix) = split_id(&m.cc_id.id).unwrap();
                            json!({"tx_id": tx, "event_index": ix,
                                "destination_address": m.destination_address.as_str(),
                                "destination_chain": m.destination_chain.to_string(),
                                "source_address": m.source_address.as_str(),
                                "payload_hash": hexs(&m.payload_hash)})
                        })
                        .collect();
                    own!(self, C07 | C08 | C09, got == exp, "poll event lists {got:?}, expected {exp:?}");
                    let quorum = self.quorum_now();
                    for (pos, i) in todo.iter().enumerate() {
                        if sts[*i] == Status::Failed {
                            src.class("repolled_after_failure");
                        }
                        self.latest.insert(keys[*i].clone(), (self.polls.len(), pos));
                    }
                    if todo.len() < batch.len() {
                        src.class("mixed_status_request");
                    }
                    self.polls.push(PollM {
                        id,
                        content: Content::Msgs(todo.iter().map(|i| keys[*i].clone()).collect()),
                        participants,
                        quorum,
                        expires_at: self.w.height() + self.expiry,
                        ended: false,
                        votes: BTreeMap::new(),
                    });
                    src.class("poll_started");
                }
            }
        }
        self.no_rewards(C07)
    }

    fn verify_ops(&mut self, src: &mut Src, o: Operators, msg_id: String) -> R {
        let k = serde_json::to_string(&o).unwrap();
        let before = self.w.dump(&self.vv);
        let st = self.ops_status(&k);
        let r = self.w.exec(
            &addr("anyone"),
            &self.vv.clone(),
            &json!({"verify_worker_set": {"message_id": msg_id, "new_operators": o}}),
            &[],
        );
        src.note(|| format!("verify operators {k} at {msg_id} ({st:?}) -> {}", if r.is_ok() { "ok" } else { "rejected" }));
        let ok_form = split_id(&msg_id).is_some() && !self.active.lock().unwrap().is_empty();
        match r {
            Err(e) => {
                own!(
                    self,
                    C19,
                    st == Status::Verified || st == Status::Pending || !ok_form,
                    "valid worker set request rejected: {e}"
                );
                own!(self, C19, self.w.dump(&self.vv) == before, "a rejected request changed the state");
            }
            Ok(r) => {
                own!(self, C09, split_id(&msg_id).is_some(), "malformed message id {msg_id:?} accepted");
                own!(self, C19, ok_form, "worker set request without active workers accepted");
                let evs = events(&r, &self.vv, "worker_set_poll_started");
                if st == Status::Verified || evs.is_empty() {
                    own!(self, C19, evs.is_empty(), "a verified worker set was polled again");
                    own!(self, C19, st == Status::Verified || st == Status::Pending, "worker set request without a poll");
                    return Ok(());
                }
                own!(self, C07, evs.len() == 1, "{} poll events", evs.len());
                let (id, participants) = self.poll_meta(evs[0])?;
                let ws: Value = attr(evs[0], "worker_set")
                    .and_then(|s| serde_json::from_str(s).ok())
                    .unwrap_or(Value::Null);
                let (tx, ix) = split_id(&msg_id).unwrap();
                let exp = json!({"tx_id": tx, "event_index": ix, "operators": o});
                own!(self, C07 | C19 | C09, ws == exp, "poll event describes {ws}, expected {exp}");
                if st == Status::Pending {
                    src.class("ops_repolled_while_pending");
                }
                self.latest_ops.insert(k.clone(), self.polls.len());
                let quorum = self.quorum_now();
                self.polls.push(PollM {
                    id,
                    content: Content::Ops(k),
                    participants,
                    quorum,
                    expires_at: self.w.height() + self.expiry,
                    ended: false,
                    votes: BTreeMap::new(),
                });
                src.class("ops_poll_started");
            }
        }
        Ok(())
    }

    fn vote(&mut self, src: &mut Src, p: Option<usize>, voter: &str, votes: Vec<Vote>) -> R {
        let id = match p {
            Some(p) => self.polls[p].id.clone(),
            None => (1000 + src.below(5)).to_string(),
        };
        let before = self.w.dump(&self.vv);
        let r = self.w.exec(
            &addr(voter),
            &self.vv.clone(),
            &json!({"vote": {"poll_id": id, "votes": votes}}),
            &[],
        );
        src.note(|| {
            format!(
                "h{} {voter} votes {} in poll {id} -> {}",
                self.w.height(),
                votes.iter().map(|v| v.to_string().chars().next().unwrap()).collect::<String>(),
                if r.is_ok() { "ok" } else { "rejected" }
            )
        });
        let (mut in_time, mut allowed) = (true, false);
        if let Some(p) = p {
            let p = &self.polls[p];
            in_time = self.w.height() < p.expires_at;
            allowed = in_time
                && p.participants.contains(voter)
                && !p.votes.contains_key(voter)
                && votes.len() == p.size();
        }
        match r {
            Err(e) => {
                own!(self, C06 | C07, !allowed, "valid vote rejected: {e}");
                own!(self, C06, self.w.dump(&self.vv) == before, "a rejected vote changed the state");
                src.class(if in_time { "vote_rejected" } else { "vote_late" });
            }
            Ok(_) => {
                if !in_time {
                    own!(self, C06 | C07, false, "vote accepted at height {} after expiry", self.w.height());
                }
                own!(self, C06, allowed, "invalid vote accepted: {voter} {votes:?} in poll {id}");
                let Some(p) = p else { return abandon() };
                let p = &mut self.polls[p];
                let before: Vec<_> = (0..p.size()).map(|i| p.result(i)).collect();
                p.votes.insert(voter.to_string(), votes);
                let after: Vec<_> = (0..p.size()).map(|i| p.result(i)).collect();
                src.class("vote");
                if before != after {
                    src.class("vote_reached_quorum");
                    src.nontrivial();
                }
            }
        }
        self.no_rewards(C07)
    }

    fn end(&mut self, src: &mut Src, p: Option<usize>) -> R {
        let id = match p {
            Some(p) => self.polls[p].id.clone(),
            None => (1000 + src.below(5)).to_string(),
        };
        let before = self.w.dump(&self.vv);
        let r = self.w.exec(&addr("anyone"), &self.vv.clone(), &json!({"end_poll": {"poll_id": id}}), &[]);
        src.note(|| format!("h{} end poll {id} -> {}", self.w.height(), if r.is_ok() { "ok" } else { "rejected" }));
        let allowed = match p {
            Some(p) => !self.polls[p].ended && self.w.height() >= self.polls[p].expires_at,
            None => false,
        };
        match r {
            Err(e) => {
                own!(self, C07, !allowed, "ending poll {id} failed: {e}");
                own!(self, C07, self.w.dump(&self.vv) == before, "a rejected end of poll changed the state");
                self.no_rewards(C07)?;
                src.class("end_rejected");
            }
            Ok(r) => {
                own!(self, C07, allowed, "poll {id} ended at height {} (again or too early)", self.w.height());
                let p = p.unwrap();
                self.polls[p].ended = true;
                let p = self.polls[p].clone();
                let results: Vec<Option<Vote>> = (0..p.size()).map(|i| p.result(i)).collect();
                let parts = p.consensus_participants();
                let data: Option<EndPollResponse> = r.data.as_ref().and_then(|d| cosmwasm_std::from_binary(d).ok());
                let Some(d) = data else {
                    own!(self, C07, false, "no poll result in the response");
                    unreachable!()
                };
                let d = d.poll_result;
                own!(self, C07, d.poll_id.to_string() == p.id, "poll id in the result");
                own!(self, C07, d.results == results, "poll results {:?}, expected {results:?}", d.results);
                let got: BTreeSet<String> = d.consensus_participants.iter().cloned().collect();
                own!(
                    self,
                    C07,
                    got == parts && got.len() == d.consensus_participants.len(),
                    "consensus participants {:?}, expected {parts:?}",
                    d.consensus_participants
                );
                let evs = events(&r, &self.vv, "poll_ended");
                own!(self, C07, evs.len() == 1, "{} poll_ended events", evs.len());
                let er: Option<Vec<Option<Vote>>> =
                    attr(evs[0], "results").and_then(|s| serde_json::from_str(s).ok());
                own!(self, C07, er == Some(results.clone()), "poll_ended reports {er:?}, expected {results:?}");
                let log = self.w.mock_log(&self.rewards);
                let mut got: Vec<String> = vec![];
                for rec in &log[self.seen_rewards..] {
                    let j = rec.json();
                    own!(self, C07, rec.sender == self.vv, "rewards called by {}", rec.sender);
                    own!(
                        self,
                        C07,
                        j["record_participation"]["event_id"] == json!(p.id) && j.as_object().unwrap().len() == 1,
                        "unexpected call to the rewards contract {j}"
                    );
                    got.push(j["record_participation"]["worker_address"].as_str().unwrap_or("").to_string());
                }
                self.seen_rewards = log.len();
                got.sort();
                let exp: Vec<String> = parts.iter().cloned().collect();
                own!(self, C07, got == exp, "participation recorded for {got:?}, expected {exp:?}");
                src.class("poll_ended");
                if parts.len() < p.votes.len() {
                    src.class("dissenters_not_rewarded");
                }
                src.nontrivial();
            }
        }
        Ok(())
    }
}

/// canonical `<tx id>:<u64>`
fn split_id(id: &str) -> Option<(String, u64)> {
    let parts: Vec<&str> = id.split(':').collect();
    if parts.len() != 2 || parts[0].is_empty() {
        return None;
    }
    let n: u64 = parts[1].parse().ok()?;
    if n.to_string() != parts[1] {
        return None;
    }
    Some((parts[0].to_string(), n))
}

/// the concatenation that identifies a message inside the code under test; two different messages
/// with the same one are a known finding and only generated on purpose
pub fn concat(m: &Message) -> Vec<u8> {
    let mut v = format!(
        "{}:{}{}{}{}",
        m.cc_id.chain,
        m.cc_id.id.as_str(),
        m.source_address.as_str(),
        m.destination_chain,
        m.destination_address.as_str()
    )
    .into_bytes();
    v.extend(m.payload_hash);
    v
}

fn gen_msgs(src: &mut Src, chain_name: &str) -> Vec<Message> {
    let mut out: Vec<Message> = vec![];
    let n = 1 + src.size(6, 70);
    while out.len() < n {
        let m = src.span(|src| {
            if !out.is_empty() && src.chance(1, 2) {
                // differs from an earlier one in one field
                let mut m = out[src.idx(out.len())].clone();
                match src.below(9) {
                    0..=5 => m = near(src, &m),
                    6 => m.cc_id.id = format!("{}1", m.cc_id.id.as_str()).try_into().unwrap(),
                    7 => m.cc_id.id = format!("f{}", m.cc_id.id.as_str()).try_into().unwrap(),
                    _ => {
                        let (t, i) = split_id(&m.cc_id.id).unwrap();
                        m.cc_id.id = format!("{}:{i}", near_text(src, &t).replace(':', "")).try_into().unwrap()
                    }
                }
                m
            } else {
                let d = *src.pick(CHAINS);
                let mut m = message(src, chain_name, d);
                m.cc_id.id = format!("{}:{}", tx_id(src), src.below(4)).try_into().unwrap();
                m
            }
        });
        let bad = split_id(&m.cc_id.id).is_none() || out.iter().any(|o| concat(o) == concat(&m));
        if bad {
            if src.tape.len() > 5000 {
                break;
            }
            // make it unique
            let mut m = m;
            m.cc_id.id = format!("u{}:{}", out.len(), 0).try_into().unwrap();
            out.push(m);
        } else {
            out.push(m);
        }
    }
    out
}

fn gen_ops(src: &mut Src) -> Vec<Operators> {
    let mut out: Vec<(Vec<(HexBinary, Uint256)>, Uint256)> = vec![];
    let n = 1 + src.idx(4);
    for i in 0..n {
        let o = if i > 0 && src.chance(2, 3) {
            let mut o = out[src.idx(i)].clone();
            match src.below(4) {
                0 => o.1 += Uint256::one(),
                1 if !o.0.is_empty() => {
                    let j = src.idx(o.0.len());
                    o.0[j].1 += Uint256::one();
                }
                2 if !o.0.is_empty() => {
                    let j = src.idx(o.0.len());
                    let mut a: Vec<u8> = o.0[j].0.clone().into();
                    *a.last_mut().unwrap() ^= 1;
                    o.0[j].0 = a.into();
                }
                _ => {
                    o.0.push((HexBinary::from(src.bytes(20)), Uint256::one()));
                }
            }
            o
        } else {
            let k = src.size(4, 60);
            let v = (0..k)
                .map(|_| (HexBinary::from(src.bytes(20)), Uint256::from(1 + src.below(5))))
                .collect();
            (v, Uint256::from(1 + src.below(10)))
        };
        out.push(o);
    }
    let mut res: Vec<Operators> = vec![];
    for (v, t) in out {
        let o = Operators::new(v, t);
        if !res.contains(&o) {
            res.push(o);
        }
    }
    res
}

fn any_vote(src: &mut Src) -> Vote {
    match src.weighted(&[5, 2, 1]) {
        0 => Vote::SucceededOnChain,
        1 => Vote::FailedOnChain,
        _ => Vote::NotFound,
    }
}

fn op(s: &mut Sys, src: &mut Src, ops_weight: u64) -> R {
    match src.weighted(&[12, 4, 4, 4, 2, ops_weight]) {
        0 => {
            // votes in a poll, possibly by several workers in a row
            let p = if s.polls.is_empty() || src.chance(1, 20) {
                None
            } else {
                let h = s.w.height();
                let open: Vec<usize> = (0..s.polls.len()).filter(|p| s.polls[*p].expires_at > h).collect();
                if !open.is_empty() && src.chance(9, 10) {
                    Some(open[open.len() - 1 - src.idx(open.len().min(s.recent))])
                } else {
                    let n = s.polls.len();
                    Some(n - 1 - src.idx(n.min(s.recent)))
                }
            };
            let size = p.map(|p| s.polls[p].size()).unwrap_or(1);
            let mut common: Vec<Vote> = (0..size).map(|_| any_vote(src)).collect();
            if src.chance(1, 30) {
                if src.bool() {
                    common.push(any_vote(src));
                } else {
                    common.pop();
                }
            }
            let n = s.names.len();
            let k = 1 + src.idx(n);
            let start = src.idx(n + 1);
            for i in 0..k {
                let v = (start + i) % (n + 1);
                let voter = if v == n { "outsider".to_string() } else { s.names[v].clone() };
                let mut votes = common.clone();
                if !votes.is_empty() && src.chance(1, 4) {
                    let j = src.idx(votes.len());
                    votes[j] = any_vote(src);
                }
                s.vote(src, p, &voter, votes)?;
            }
            Ok(())
        }
        1 => {
            // verification request over a subset of the pool
            let mut b: Vec<Message> = src.subset(&s.msgs.clone(), 1, 2);
            src.shuffle(&mut b);
            if src.chance(1, 25) {
                let mut m = s.msgs[0].clone();
                m.cc_id.chain = chain("otherchain");
                let i = src.idx(b.len() + 1);
                b.insert(i, m);
            }
            if src.chance(1, 25) {
                let mut m = s.msgs[0].clone();
                m.cc_id.id = bad_id(src).try_into().unwrap();
                let i = src.idx(b.len() + 1);
                b.insert(i, m);
            }
            s.verify(src, b)
        }
        2 => {
            let p = if s.polls.is_empty() || src.chance(1, 20) {
                None
            } else {
                Some(src.idx(s.polls.len()))
            };
            s.end(src, p)
        }
        3 => {
            let n = if src.chance(1, 3) { 1 + s.expiry } else { 1 + src.below(s.expiry + 1) / 2 };
            s.w.advance(n, n * 5);
            Ok(())
        }
        4 => {
            let v = src.subset(&s.names.clone(), 3, 5);
            src.note(|| format!("active workers {v:?}"));
            *s.active.lock().unwrap() = v;
            src.class("workers_changed");
            Ok(())
        }
        _ => {
            if s.ops.is_empty() {
                return Ok(());
            }
            let o = s.ops[src.idx(s.ops.len())].clone();
            let id = if src.chance(1, 12) { bad_id(src) } else { msg_id(src) };
            s.verify_ops(src, o, id)
        }
    }
}

fn history(src: &mut Src, focus: u8, ops_weight: u64) -> R {
    let mut s = Sys::new(src, focus);
    history_on(src, &mut s, ops_weight)
}
fn history_on(src: &mut Src, s: &mut Sys, ops_weight: u64) -> R {
    s.msgs = gen_msgs(src, &s.chain.clone());
    if ops_weight > 0 {
        s.ops = gen_ops(src);
    }
    if ops_weight < 10 {
        let all = s.msgs.clone();
        s.verify(src, all)?;
        if src.chance(1, 60) {
            // many polls
            let n = if src.chance(1, 6) { 250 + src.idx(20) } else { 8 + src.idx(20) };
            for i in 0..n {
                let mut m = message(src, &s.chain.clone(), CHAINS[i % CHAINS.len()]);
                m.cc_id.id = format!("many{i}:{i}").try_into().unwrap();
                s.msgs.push(m.clone());
                s.verify(src, vec![m])?;
            }
            s.recent = n;
            src.class("many_polls");
        }
    }
    src.repeat(1, 40, 14, |src, _| {
        op(s, src, ops_weight)?;
        s.check_statuses()
    })
}
/// C38: polls, votes and outcomes follow from the events alone
pub fn c38_voting(src: &mut Src) -> R {
    let mut s = Sys::new(src, C38);
    s.w.record = true;
    {
        let born: Vec<_> = s.w.born.iter().filter(|(a, _)| *a == s.vv).collect();
        let e = events(&born[0].1, &s.vv, "instantiated");
        ensure_eq!(e.len(), 1, "instantiated events");
        let at = |k: &str| super::events::plain(e[0], k);
        ensure_eq!(at("service_name"), "service", "announced service");
        ensure_eq!(attr(e[0], "source_gateway_address"), Some(s.gw_addr.as_str()), "announced source gateway");
        ensure_eq!(at("block_expiry"), s.expiry.to_string(), "announced block expiry");
        ensure_eq!(at("confirmation_height"), s.conf_height.to_string(), "announced confirmation height");
        let reg = s.w.born[0].0.clone();
        ensure_eq!(at("service_registry_contract"), reg.as_str(), "announced service registry");
        let th: Value = serde_json::from_str(&at("voting_threshold")).unwrap_or(Value::Null);
        let nums: Vec<Uint256> = th
            .as_array()
            .map(|a| a.iter().map(|x| x.to_string().trim_matches('"').parse::<u128>().unwrap_or(0).into()).collect())
            .unwrap_or_default();
        ensure!(nums.len() == 2 && nums[0] * Uint256::from(s.den) == nums[1] * Uint256::from(s.num),
            "announced threshold {th}, set up with {}/{}", s.num, s.den);
    }
    let r = history_on(src, &mut s, 3);
    struct P {
        msgs: Vec<Value>,
        ops: Option<Value>,
        voters: BTreeSet<String>,
        results: Option<Vec<Option<Vote>>>,
    }
    use super::events::{parsed, plain};
    let mut polls: BTreeMap<String, P> = BTreeMap::new();
    let mut last: BTreeMap<String, (String, usize)> = BTreeMap::new();
    let mut last_ops: BTreeMap<String, String> = BTreeMap::new();
    let mut all: Vec<Value> = vec![];
    for tx in s.w.log.iter().filter(|t| t.contract == s.vv) {
        let mut told = 0;
        for e in events(&tx.res, &s.vv, "messages_poll_started") {
            told += 1;
            let id = plain(e, "poll_id");
            let msgs: Vec<Value> = parsed(e, "messages")
                .as_array()
                .cloned()
                .unwrap_or_default()
                .iter()
                .map(|m| {
                    json!({"cc_id": {"chain": plain(e, "source_chain"), "id": format!("{}:{}", m["tx_id"].as_str().unwrap_or(""), m["event_index"])},
                        "source_address": m["source_address"], "destination_chain": m["destination_chain"],
                        "destination_address": m["destination_address"], "payload_hash": m["payload_hash"]})
                })
                .collect();
            for (i, m) in msgs.iter().enumerate() {
                last.insert(m.to_string(), (id.clone(), i));
                if !all.contains(m) {
                    all.push(m.clone());
                }
            }
            let old = polls.insert(id.clone(), P { msgs, ops: None, voters: BTreeSet::new(), results: None });
            ensure!(old.is_none(), "poll {id} announced twice");
        }
        for e in events(&tx.res, &s.vv, "worker_set_poll_started") {
            told += 1;
            let id = plain(e, "poll_id");
            let o = parsed(e, "worker_set")["operators"].clone();
            last_ops.insert(o.to_string(), id.clone());
            let old = polls.insert(id.clone(), P { msgs: vec![], ops: Some(o), voters: BTreeSet::new(), results: None });
            ensure!(old.is_none(), "poll {id} announced twice");
        }
        let votes = events(&tx.res, &s.vv, "voted");
        if tx.msg.get("vote").is_some() {
            ensure_eq!(votes.len(), 1, "voted events of an accepted vote");
            ensure!(json!(plain(votes[0], "poll_id")) == tx.msg["vote"]["poll_id"] && plain(votes[0], "voter") == tx.sender.as_str(),
                "vote of {} announced as {:?}", tx.sender, votes[0]);
            match polls.get_mut(&plain(votes[0], "poll_id")) {
                Some(p) => {
                    ensure!(p.results.is_none() || !p.voters.contains(tx.sender.as_str()), "second vote announced");
                    p.voters.insert(tx.sender.to_string());
                }
                None => return fail("vote in a poll that was never announced".to_string()),
            }
            src.class("vote_announced");
        } else {
            ensure!(votes.is_empty(), "vote announced by another call: {votes:?}");
        }
        let ended = events(&tx.res, &s.vv, "poll_ended");
        if tx.msg.get("end_poll").is_some() {
            ensure_eq!(ended.len(), 1, "poll_ended events of an accepted end of poll");
            let id = plain(ended[0], "poll_id");
            ensure!(tx.msg["end_poll"]["poll_id"] == json!(id), "end of poll {} announced as {id}", tx.msg["end_poll"]["poll_id"]);
            let res: Option<Vec<Option<Vote>>> = attr(ended[0], "results").and_then(|t| serde_json::from_str(t).ok());
            let Some(res) = res else { return fail(format!("poll_ended without results: {:?}", ended[0])) };
            match polls.get_mut(&id) {
                Some(p) => {
                    ensure!(p.results.is_none(), "end of poll {id} announced twice");
                    ensure_eq!(res.len(), if p.ops.is_some() { 1 } else { p.msgs.len() }, "number of results of poll {id}");
                    p.results = Some(res);
                }
                None => return fail(format!("end of poll {id} that was never announced")),
            }
            src.class("end_announced");
        } else {
            ensure!(ended.is_empty(), "end of poll announced by another call: {ended:?}");
        }
        if tx.msg.get("vote").is_some() || tx.msg.get("end_poll").is_some() {
            ensure_eq!(told, 0, "polls announced by a vote or an end of poll");
        }
    }
    // statuses of everything that was announced
    if !all.is_empty() {
        let got: Result<Vec<(Value, bool)>, _> = s.w.query(&s.vv, &json!({"is_verified": {"messages": all}}));
        let Ok(got) = got else { return fail(format!("status query of the announced messages fails: {got:?}")) };
        for (m, (id, st)) in all.iter().zip(&got) {
            ensure_eq!(*id, m["cc_id"], "id in the answer");
            let (p, i) = &last[&m.to_string()];
            match &polls[p].results {
                Some(res) => {
                    ensure_eq!(*st, res[*i] == Some(Vote::SucceededOnChain), "status of {m} and the announced result of poll {p}");
                    src.nontrivial();
                }
                None => ensure!(!*st || !polls[p].voters.is_empty(), "{m} is verified, but no vote in poll {p} was announced"),
            }
        }
    }
    for (o, p) in &last_ops {
        let o: Value = serde_json::from_str(o).unwrap();
        let got: Result<bool, _> = s.w.query(&s.vv, &json!({"is_worker_set_verified": {"new_operators": o}}));
        let Ok(st) = got else { return fail(format!("status query of announced operators fails: {got:?}")) };
        match &polls[p].results {
            Some(res) => ensure_eq!(st, res[0] == Some(Vote::SucceededOnChain), "status of {o} and the announced result of poll {p}"),
            None => ensure!(!st || !polls[p].voters.is_empty(), "{o} is verified, but no vote in poll {p} was announced"),
        }
    }
    r.or_else(|_| abandon())
}

fn c06(src: &mut Src) -> R {
    history(src, C06, 1)
}
fn c07(src: &mut Src) -> R {
    history(src, C07, 1)
}
fn c08(src: &mut Src) -> R {
    history(src, C08, 0)
}
pub fn c19_verifier(src: &mut Src) -> R {
    history(src, C19, 12)
}

// ---------------------------------------------------------------- weighted polls (library level)

/// the poll primitive with arbitrary weights and thresholds
fn weighted(src: &mut Src, focus: u8) -> R {
    use axelar_wasm_std::voting::{PollId, WeightedPoll};
    use axelar_wasm_std::{nonempty, Participant, Snapshot, Threshold};
    let (num, den) = majority(src);
    let n = src.size(6, 80);
    let big = src.bool();
    let ws: Vec<u128> = (0..n)
        .map(|_| if big { (src.u128_any() >> if n > 6 { 8 } else { 4 }).max(1) } else { 1 + src.below(6) as u128 })
        .collect();
    let total: u128 = ws.iter().sum();
    let quorum = ceil_mul(total, num, den);
    let parts: Vec<Participant> = ws
        .iter()
        .enumerate()
        .map(|(i, w)| Participant {
            address: Addr::unchecked(format!("w{i}")),
            weight: nonempty::Uint256::try_from(Uint256::from(*w)).unwrap(),
        })
        .collect();
    let th: axelar_wasm_std::MajorityThreshold =
        Threshold::try_from((num, den)).unwrap().try_into().unwrap();
    let size = src.size(4, 80);
    let h0 = src.below(100);
    let expires = h0 + src.below(8);
    let mut poll = WeightedPoll::new(PollId::from(7), Snapshot::new(th, parts.try_into().unwrap()), expires, size);
    src.note(|| format!("weights {ws:?}, threshold {num}/{den}, quorum {quorum}, {size} items, expires {expires}"));
    let mut votes: BTreeMap<usize, Vec<Vote>> = BTreeMap::new();
    let mut ended = false;
    let mut h = h0;
    let variants = [Vote::SucceededOnChain, Vote::FailedOnChain, Vote::NotFound];
    let base: Vec<Vote> = (0..size).map(|_| any_vote(src)).collect();
    src.repeat(1, 20.max(2 * n), 10.max(n as u64), |src, _| {
        match src.weighted(&[8, 1, 2]) {
            0 => {
                let v = src.idx(n + 1);
                let len = if src.chance(1, 12) { size + 1 - 2 * src.idx(2) } else { size };
                let mut vs: Vec<Vote> = (0..len)
                    .map(|i| {
                        if src.chance(1, 4) {
                            any_vote(src)
                        } else {
                            base.get(i).cloned().unwrap_or(Vote::NotFound)
                        }
                    })
                    .collect();
                vs.truncate(len);
                let allowed = v < n && h < expires && len == size && !votes.contains_key(&v) && !ended;
                let r = poll.clone().cast_vote(h, &Addr::unchecked(format!("w{v}")), vs.clone());
                src.note(|| format!("h{h} w{v} votes {vs:?} -> {}", r.is_ok()));
                if r.is_ok() != allowed {
                    return fail(format!("vote of w{v} accepted={} expected {allowed}", r.is_ok()));
                }
                if let Ok(p) = r {
                    poll = p;
                    votes.insert(v, vs);
                }
            }
            1 => {
                let r = poll.clone().finish(h);
                let allowed = !ended && h >= expires;
                src.note(|| format!("h{h} finish -> {}", r.is_ok()));
                if focus & C07 != 0 {
                    ensure!(r.is_ok() == allowed, "finish at {h}: {}, expected {allowed}", r.is_ok());
                }
                if let Ok(p) = r {
                    poll = p;
                    ended = true;
                }
            }
            _ => h += src.below(3),
        }
        // invariants
        let tally = |i: usize, v: &Vote| -> u128 {
            votes.iter().filter(|(_, vs)| &vs[i] == v).map(|(k, _)| ws[*k]).sum()
        };
        let res: Vec<Option<Vote>> = (0..size)
            .map(|i| variants.iter().find(|v| tally(i, v) >= quorum).cloned())
            .collect();
        for i in 0..size {
            let got = poll.consensus(i as u32).ok().flatten();
            ensure_eq!(got, res[i], "consensus of item {i} (success weight {})", tally(i, &Vote::SucceededOnChain));
        }
        ensure!(poll.consensus(size as u32).is_err(), "consensus of an item that does not exist");
        let st = poll.state();
        ensure_eq!(st.results, res, "poll results");
        let exp: BTreeSet<String> = votes
            .iter()
            .filter(|(_, vs)| (0..size).all(|i| res[i].is_none() || res[i].as_ref() == Some(&vs[i])))
            .map(|(k, _)| format!("w{k}"))
            .collect();
        let got: BTreeSet<String> = st.consensus_participants.iter().cloned().collect();
        ensure_eq!(got, exp, "consensus participants");
        if res.iter().any(|r| r.is_some()) {
            src.nontrivial();
            src.class("quorum_reached");
        }
        Ok(())
    })
}
fn c06_weighted(src: &mut Src) -> R {
    weighted(src, C06)
}
fn c07_weighted(src: &mut Src) -> R {
    weighted(src, C07)
}

// ---------------------------------------------------------------- C08: colliding encodings

pub const COLLISION: &str = "message-hash-concat-collision";

/// moves characters across the border between two neighbouring text fields
fn collide(m: &Message, which: u64, k: usize) -> Option<Message> {
    let mut o = m.clone();
    let id = m.cc_id.id.as_str();
    let sa = m.source_address.as_str();
    let dc = m.destination_chain.to_string();
    let da = m.destination_address.as_str();
    let cut = |s: &str, k: usize| -> Option<(String, String)> {
        if k == 0 || k >= s.len() || !s.is_char_boundary(k) {
            return None;
        }
        Some((s[..k].to_string(), s[k..].to_string()))
    };
    match which {
        0 => {
            let (a, b) = cut(sa, k)?;
            o.cc_id.id = format!("{id}{a}").try_into().ok()?;
            o.source_address = b.parse().ok()?;
        }
        1 => {
            let (a, b) = cut(&dc, k)?;
            o.source_address = format!("{sa}{a}").parse().ok()?;
            o.destination_chain = b.parse().ok()?;
        }
        _ => {
            let (a, b) = cut(da, k)?;
            o.destination_chain = format!("{dc}{a}").parse().ok()?;
            o.destination_address = b.parse().ok()?;
        }
    }
    if concat(&o) == concat(m) && &o != m && split_id(&o.cc_id.id).is_some() {
        Some(o)
    } else {
        None
    }
}

/// different messages whose fields, written one after the other, give the same text
fn c08_collide(src: &mut Src) -> R {
    // the verifier's source chain is drawn first inside Sys::new; take the message's chain from it
    let mut s = Sys::new(src, C06 | C07 | C08);
    *s.active.lock().unwrap() = s.names.clone();
    let c = s.chain.clone();
    let mut m = message(src, &c, "ethereum");
    m.cc_id.id = format!("{}:{}", tx_id(src), src.below(4)).try_into().unwrap();
    m.source_address = format!("{}{}", src.below(1000), address(src)).parse().unwrap();
    let (w, k) = (src.below(3), 1 + src.idx(3));
    let Some(m2) = collide(&m, w, k) else { return Ok(()) };
    src.nontrivial();
    s.msgs = vec![m.clone(), m2.clone()];
    let r = (|| {
        s.verify(src, vec![m])?;
        s.check_statuses()?;
        s.verify(src, vec![m2])?;
        s.check_statuses()
    })();
    r.map_err(|e| if e.sig.is_none() { Fail { sig: Some(COLLISION.into()), msg: e.msg } } else { e })
}

fn known_collision() -> R {
    let mut src = Src::replay(vec![], false);
    let mut s = Sys::new(&mut src, C06 | C07 | C08);
    let c = s.chain.clone();
    let mk = |id: &str, sa: &str| Message {
        cc_id: connection_router::state::CrossChainId {
            chain: chain(&c),
            id: id.to_string().try_into().unwrap(),
        },
        source_address: sa.parse().unwrap(),
        destination_chain: chain("avalanche"),
        destination_address: "0x01".parse().unwrap(),
        payload_hash: [1; 32],
    };
    let (fake, real) = (mk("0xaa:1", "20xsender"), mk("0xaa:12", "0xsender"));
    s.msgs = vec![fake.clone(), real.clone()];
    let r = (|| {
        s.verify(&mut src, vec![fake])?;
        s.check_statuses()?;
        s.verify(&mut src, vec![real])?;
        s.check_statuses()
    })();
    r.map_err(|e| Fail { sig: Some(COLLISION.into()), msg: e.msg })
}

// ---------------------------------------------------------------- C09

fn bad_id(src: &mut Src) -> String {
    let tx = tx_id(src);
    let i = src.below(5);
    match src.below(16) {
        0 => tx,
        1 => format!("{tx}:"),
        2 => format!(":{i}"),
        3 => format!("{tx}:{i}:{i}"),
        4 => format!("{tx}:+{i}"),
        5 => format!("{tx}:0{i}"),
        6 => format!("{tx}:-{i}"),
        7 => format!("{tx}: {i}"),
        8 => format!("{tx}:{i} "),
        9 => format!("{tx}:18446744073709551616"),
        10 => format!("{tx}:0x{i}"),
        11 => format!("{tx}::{i}"),
        12 => format!("{tx}-{i}"),
        13 => format!("{tx}:{i}:"),
        14 => format!("{tx}:{i}.0"),
        _ => format!("{tx}:\u{0661}"),
    }
}

/// single requests with ids, chains and sizes of every form
fn c09(src: &mut Src) -> R {
    let mut s = Sys::new(src, C09);
    let chain_name = s.chain.clone();
    src.repeat(1, 6, 3, |src, round| {
        let n = src.below(4) as usize;
        let mut batch: Vec<Message> = vec![];
        for k in 0..n {
            let d = *src.pick(CHAINS);
            let mut m = message(src, &chain_name, d);
            let id = match src.weighted(&[6, 2, 1, 1]) {
                0 => msg_id(src),
                1 => {
                    src.class("bad_id");
                    bad_id(src)
                }
                2 => text(src, 8),
                _ => format!("{}:{}", text(src, 4).replace(':', ""), src.u64_any()),
            };
            m.cc_id.id = id.try_into().unwrap();
            // distinct from everything requested before
            m.payload_hash[0] = round as u8;
            m.payload_hash[1] = k as u8;
            if src.chance(1, 12) {
                src.class("other_chain");
                m.cc_id.chain = chain(&format!("{chain_name}x"));
            }
            batch.push(m);
        }
        src.nontrivial();
        if batch.is_empty() {
            src.class("empty_request");
        }
        s.verify(src, batch)
    })?;
    // the same id form is required for worker set confirmations
    let o = gen_ops(src);
    let id = match src.below(3) {
        0 => msg_id(src),
        1 => bad_id(src),
        _ => text(src, 8),
    };
    s.verify_ops(src, o[0].clone(), id)
}

/// aliases: two different ids of the same transaction and event are never both accepted
fn c09_alias(src: &mut Src) -> R {
    let mut s = Sys::new(src, C09);
    let chain_name = s.chain.clone();
    let base = message(src, &chain_name, "ethereum");
    let tx = tx_id(src);
    let i = match src.below(3) {
        0 => src.below(3),
        1 => src.below(100),
        _ => src.u64_any(),
    };
    let forms = [
        format!("{tx}:{i}"),
        format!("{tx}:+{i}"),
        format!("{tx}:0{i}"),
        format!("{tx}:00{i}"),
        format!("{tx}:{i}_"),
        format!("{tx}: {i}"),
    ];
    let mut seen: BTreeMap<(String, u64), String> = BTreeMap::new();
    for _ in 0..4 {
        let f = src.pick(&forms).clone();
        let mut m = base.clone();
        m.cc_id.id = f.clone().try_into().unwrap();
        let r = s.w.exec(
            &addr("anyone"),
            &s.vv.clone(),
            &json!({"verify_messages": {"messages": [msg_json(&m)]}}),
            &[],
        );
        let Ok(r) = r else { continue };
        src.note(|| format!("accepted {f:?}"));
        for e in events(&r, &s.vv, "messages_poll_started") {
            let l: Vec<Value> = attr(e, "messages").and_then(|s| serde_json::from_str(s).ok()).unwrap_or_default();
            for x in l {
                let k = (x["tx_id"].as_str().unwrap_or("").to_string(), x["event_index"].as_u64().unwrap_or(0));
                src.nontrivial();
                if let Some(old) = seen.insert(k.clone(), f.clone()) {
                    ensure!(old == f, "ids {old:?} and {f:?} both denote event {k:?}");
                }
            }
        }
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    const A: &[&str] = &[
        "the service registry is a stand-in whose list of active workers is part of the generated history; the rewards contract is a recorder",
        "cw-multi-test 0.15.1 stands for the chain: a call that errors or panics has no effect",
        "requests never contain the same message twice (the outcome is then unspecified)",
    ];
    vec![
        Check {
            id: "C06",
            rule: "histories of verification requests, votes (right and wrong sizes, voters, times), poll ends, block advances and worker-set changes over a pool of near-identical messages; every status is compared with a reference model after each step. Non-trivial: some vote completes a quorum or some poll ends (weighted: a quorum is reached)",
            assumptions: A,
            subs: vec![
                Sub { name: "history", f: c06, quick: 24_000, thorough: 1_500_000 },
                Sub { name: "weighted", f: c06_weighted, quick: 200_000, thorough: 10_000_000 },
            ],
            known: vec![],
        },
        Check {
            id: "C07",
            rule: "the same histories, checking poll events, expiry, results, rewarded participants and poll ids; non-trivial as in C06",
            assumptions: A,
            subs: vec![
                Sub { name: "history", f: c07, quick: 24_000, thorough: 1_500_000 },
                Sub { name: "weighted", f: c07_weighted, quick: 200_000, thorough: 10_000_000 },
            ],
            known: vec![],
        },
        Check {
            id: "C08",
            rule: "the same histories, checking finality, re-polling and independence of near-identical messages; 'collide' makes pairs of different messages whose concatenated fields are equal. Non-trivial as in C06; collide: a pair could be made",
            assumptions: A,
            subs: vec![
                Sub { name: "history", f: c08, quick: 30_000, thorough: 2_000_000 },
                Sub { name: "collide", f: c08_collide, quick: 3_000, thorough: 50_000 },
            ],
            known: vec![(COLLISION, known_collision)],
        },
        Check {
            id: "C09",
            rule: "requests with canonical and malformed message ids, wrong chains and empty lists, compared with an independent parser; 'alias' offers several spellings of one event. Non-trivial: a request was made (alias: an id was accepted)",
            assumptions: A,
            subs: vec![
                Sub { name: "forms", f: c09, quick: 180_000, thorough: 2_160_000 },
                Sub { name: "alias", f: c09_alias, quick: 90_000, thorough: 1_080_000 },
            ],
            known: vec![],
        },
    ]
}
