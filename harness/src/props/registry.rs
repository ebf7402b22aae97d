//! C23-C25: the service registry against a reference model.
use crate::engine::*;
use crate::own;
use crate::util::app::*;
use crate::util::gen::{crowd, recase};
use cosmwasm_std::{coin, Addr, Coin};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const STAKE: u8 = 1;
const ACTIVE: u8 = 2;
const RECORDS: u8 = 4;

const DENOMS: &[&str] = &["uaxl", "ubtc"];
const SERVICES: &[&str] = &["a", "aa", "validators", "Validators", "a-b"];
const CHAINS: &[&str] = &["a", "aa", "ethereum", "b-a"];
const WORKERS: &[&str] = &["worker", "worker1", "worker2", "aworker"];
const FUNDS: u128 = 1 << 100;
const DAY: u128 = 86_400_000_000_000;

#[derive(Clone, Debug, PartialEq)]
enum Bond {
    Bonded(u128),
    /// amount, start of the unbonding (ns)
    Unbonding(u128, u64),
    Unbonded,
}
impl Bond {
    fn amount(&self) -> u128 {
        match self {
            Bond::Bonded(a) | Bond::Unbonding(a, _) => *a,
            Bond::Unbonded => 0,
        }
    }
    fn json(&self) -> Value {
        match self {
            Bond::Bonded(a) => json!({"Bonded": {"amount": a.to_string()}}),
            Bond::Unbonding(a, t) => json!({"Unbonding": {"amount": a.to_string(), "unbonded_at": t.to_string()}}),
            Bond::Unbonded => json!("Unbonded"),
        }
    }
}
#[derive(Clone, Debug)]
struct Wk {
    bond: Bond,
    auth: bool,
    chains: BTreeSet<String>,
}
impl Wk {
    fn new() -> Wk {
        Wk {
            bond: Bond::Unbonded,
            auth: false,
            chains: BTreeSet::new(),
        }
    }
}
#[derive(Clone, Debug)]
struct Svc {
    /// exactly what the service was registered with
    params: Value,
    min_bond: u128,
    denom: String,
    days: u16,
    workers: BTreeMap<String, Wk>,
}

struct Sys {
    w: World,
    reg: Addr,
    names: &'static [&'static str],
    chains: &'static [&'static str],
    services: BTreeMap<String, Svc>,
    focus: u8,
    claimed: u64,
    was_active: BTreeSet<(String, String, String)>,
}

impl Sys {
    fn new(focus: u8, names: &'static [&'static str], chains: &'static [&'static str]) -> Sys {
        let mut w = World::new();
        for x in names.iter().chain(&["governance", "stranger"]) {
            w.mint(
                &addr(x),
                vec![coin(FUNDS, "aother"), coin(FUNDS, "uaxl"), coin(FUNDS, "ubtc"), coin(FUNDS, "zother")],
            );
        }
        let reg = w
            .instantiate(w_registry(), &json!({"governance_account": "governance"}), "registry")
            .expect("service registry instantiates");
        Sys {
            w,
            reg,
            names,
            chains,
            services: BTreeMap::new(),
            focus,
            claimed: 0,
            was_active: BTreeSet::new(),
        }
    }
    fn now(&self) -> u64 {
        self.w.app.block_info().time.nanos()
    }
    /// `bits` own the outcome of the call
    fn call(&mut self, src: &mut Src, bits: u8, sender: &str, msg: Value, funds: &[Coin], ok: bool) -> R<bool> {
        let before = self.w.dump(&self.reg);
        let reg = self.reg.clone();
        let r = self.w.exec(&addr(sender), &reg, &msg, funds);
        src.note(|| format!("{sender} {msg} {funds:?} -> {}", r.is_ok()));
        own!(self, bits, r.is_ok() == ok, "{sender} {msg} with {funds:?}: {:?}, expected success: {ok}", r.map(|_| ()));
        if !ok {
            own!(self, bits, self.w.dump(&self.reg) == before, "a rejected call changed the state: {sender} {msg}");
            src.class("rejected");
        }
        Ok(r.is_ok())
    }

    fn register(&mut self, src: &mut Src, name: &str) -> R {
        let sender = if self.services.is_empty() || src.chance(7, 8) { "governance" } else { *src.pick(&["stranger", "worker"]) };
        let min_bond = match src.below(5) {
            0 => 0,
            1 | 2 => 1 + src.below(5) as u128,
            3 => 100,
            _ => 1 + src.u128_any() % (1 << 99),
        };
        let denom = src.pick(DENOMS).to_string();
        let days = *src.pick(&[0u16, 1, 1, 2, 21, u16::MAX]);
        let mut params = json!({
            "service_contract": src.pick(&["nowhere", "contract9"]),
            "min_num_workers": if src.bool() { src.below(5) } else { src.below(65536) },
            "max_num_workers": match src.below(4) {
                0 | 1 => Value::Null,
                2 => json!(src.below(5)),
                _ => json!(src.below(65536)),
            },
            "min_worker_bond": min_bond.to_string(),
            "bond_denom": denom,
            "unbonding_period_days": days,
            "description": src.pick(&["", "some service", "\"x\\\n"]),
        });
        params["service_name"] = json!(name);
        let ok = sender == "governance" && !self.services.contains_key(name);
        if self.call(src, RECORDS, sender, json!({ "register_service": params }), &[], ok)? && ok {
            params.as_object_mut().unwrap().remove("service_name");
            params["name"] = json!(name);
            self.services.insert(
                name.into(),
                Svc {
                    params,
                    min_bond,
                    denom,
                    days,
                    workers: BTreeMap::new(),
                },
            );
        }
        Ok(())
    }

    fn authorize(&mut self, src: &mut Src, svc: &str) -> R {
        let sender = if src.chance(9, 10) { "governance" } else { *src.pick(self.names) };
        let auth = src.chance(2, 3);
        let mut workers = src.subset(self.names, 1, 2);
        src.shuffle(&mut workers);
        if !workers.is_empty() && src.chance(1, 8) {
            workers.push(workers[0]);
        }
        let ok = sender == "governance" && self.services.contains_key(svc);
        let key = if auth { "authorize_workers" } else { "unauthorize_workers" };
        let msg = json!({ key: {"workers": workers, "service_name": svc} });
        if self.call(src, RECORDS, sender, msg, &[], ok)? && ok {
            src.class(if auth { "authorized" } else { "unauthorized" });
            let s = self.services.get_mut(svc).unwrap();
            for w in workers {
                s.workers.entry(w.into()).or_insert_with(Wk::new).auth = auth;
            }
        }
        Ok(())
    }

    fn declare(&mut self, src: &mut Src, svc: &str) -> R {
        let who = *src.pick(self.names);
        let chains = src.subset(self.chains, 1, 2);
        let shown: Vec<String> = chains.iter().map(|c| recase(src, c)).collect();
        let ok = self.services.get(svc).map(|s| s.workers.contains_key(who)).unwrap_or(false);
        let msg = json!({"declare_chain_support": {"service_name": svc, "chains": shown}});
        if self.call(src, RECORDS, who, msg, &[], ok)? && ok {
            src.class("declared");
            let s = self.services.get_mut(svc).unwrap();
            s.workers.get_mut(who).unwrap().chains.extend(chains.iter().map(|c| c.to_string()));
        }
        Ok(())
    }

    fn bond(&mut self, src: &mut Src, svc: &str) -> R {
        let who = *src.pick(self.names);
        let (denom, min, cur) = match self.services.get(svc) {
            Some(s) => (
                s.denom.clone(),
                s.min_bond,
                s.workers.get(who).map(|w| w.bond.clone()).unwrap_or(Bond::Unbonded),
            ),
            None => ("uaxl".into(), 1, Bond::Unbonded),
        };
        let other = if denom == "uaxl" { "ubtc" } else { "uaxl" };
        let missing = min.saturating_sub(cur.amount());
        let amount = match src.below(5) {
            0 => missing.max(1),
            1 => missing.saturating_sub(1).max(1),
            2 => 1,
            3 => 1 + src.below(1000) as u128,
            _ => min.max(1) + 1,
        };
        let funds = match src.weighted(&[14, 4, 1, 1, 1, 1]) {
            0 => vec![coin(amount, denom.clone())],
            1 => vec![],
            2 => vec![coin(amount, other)],
            3 => vec![coin(3, "aother"), coin(amount, denom.clone())],
            4 => vec![coin(amount, denom.clone()), coin(3, "zother")],
            _ => vec![coin(1, "zother")],
        };
        let good = match &funds[..] {
            [] => cur.amount() > 0,
            [c] => c.denom == denom,
            _ => false,
        };
        if funds.is_empty() && matches!(cur, Bond::Bonded(_)) {
            // nothing to re-bond: not specified
            return Ok(());
        }
        let enough = funds.iter().all(|c| self.w.balance(&addr(who), &c.denom) >= c.amount.u128());
        let known = self.services.contains_key(svc);
        let ok = known && good && enough;
        let bits = if known { STAKE } else { RECORDS };
        if self.call(src, bits, who, json!({"bond_worker": {"service_name": svc}}), &funds, ok)? && ok {
            src.class(match cur {
                Bond::Bonded(_) => "bond_added",
                Bond::Unbonding(..) => "rebond",
                Bond::Unbonded => "bond",
            });
            let add: u128 = funds.iter().map(|c| c.amount.u128()).sum();
            let s = self.services.get_mut(svc).unwrap();
            s.workers.entry(who.into()).or_insert_with(Wk::new).bond = Bond::Bonded(cur.amount() + add);
        }
        Ok(())
    }

    fn unbond(&mut self, src: &mut Src, svc: &str) -> R {
        let bonded: Vec<&str> = match self.services.get(svc) {
            Some(s) => self.names
                .iter()
                .filter(|w| matches!(s.workers.get(**w).map(|w| &w.bond), Some(Bond::Bonded(_))))
                .copied()
                .collect(),
            None => vec![],
        };
        let who = if !bonded.is_empty() && src.chance(3, 4) { *src.pick(&bonded) } else { *src.pick(self.names) };
        let now = self.now();
        let cur = self.services.get(svc).and_then(|s| s.workers.get(who)).map(|w| w.bond.clone());
        let ok = matches!(cur, Some(Bond::Bonded(_)));
        let bits = if self.services.contains_key(svc) { STAKE } else { RECORDS };
        if self.call(src, bits, who, json!({"unbond_worker": {"service_name": svc}}), &[], ok)? && ok {
            src.class("unbonding");
            let w = self.services.get_mut(svc).unwrap().workers.get_mut(who).unwrap();
            w.bond = Bond::Unbonding(w.bond.amount(), now);
        }
        Ok(())
    }

    fn claim(&mut self, src: &mut Src, svc: &str) -> R {
        // mostly a worker that is unbonding
        let waiting: Vec<String> = self
            .services
            .get(svc)
            .map(|s| {
                s.workers
                    .iter()
                    .filter(|(_, w)| matches!(w.bond, Bond::Unbonding(..)))
                    .map(|(a, _)| a.clone())
                    .collect()
            })
            .unwrap_or_default();
        let who = if !waiting.is_empty() && src.chance(3, 4) {
            src.pick(&waiting).clone()
        } else {
            src.pick(self.names).to_string()
        };
        let now = self.now();
        let ok = match self.services.get(svc) {
            Some(s) => match s.workers.get(&who).map(|w| &w.bond) {
                Some(Bond::Unbonding(_, at)) => *at as u128 + s.days as u128 * DAY <= now as u128,
                _ => false,
            },
            None => false,
        };
        let bits = if self.services.contains_key(svc) { STAKE } else { RECORDS };
        if self.call(src, bits, &who, json!({"claim_stake": {"service_name": svc}}), &[], ok)? && ok {
            src.class("claimed");
            self.claimed += 1;
            self.services.get_mut(svc).unwrap().workers.get_mut(&who).unwrap().bond = Bond::Unbonded;
        }
        if !ok && !waiting.is_empty() {
            src.class("claim_too_early_or_foreign");
        }
        Ok(())
    }

    fn advance(&mut self, src: &mut Src) {
        // often to the boundary of some unbonding period
        let now = self.now();
        let mut ends: Vec<u64> = vec![];
        for s in self.services.values() {
            for w in s.workers.values() {
                if let Bond::Unbonding(_, at) = w.bond {
                    let end = (at as u128 + s.days as u128 * DAY) as u64;
                    if end >= now {
                        ends.push(end);
                    }
                }
            }
        }
        let t = if !ends.is_empty() && src.chance(2, 3) {
            let e = *src.pick(&ends);
            match src.below(3) {
                0 => e.saturating_sub(1).max(now),
                1 => e,
                _ => e + 1 + src.below(DAY as u64),
            }
        } else {
            now + src.below(2 * DAY as u64)
        };
        if t > now + 400 * DAY as u64 {
            return; // keep the clock in a sane range
        }
        self.w.app.update_block(|b| {
            b.height += 1;
            b.time = cosmwasm_std::Timestamp::from_nanos(t);
        });
        src.note(|| format!("time {now} -> {t}"));
    }

    fn check(&mut self, src: &mut Src) -> R {
        if self.focus & STAKE != 0 {
            for d in DENOMS {
                let held: u128 = self
                    .services
                    .values()
                    .filter(|s| s.denom == **d)
                    .flat_map(|s| s.workers.values())
                    .map(|w| w.bond.amount())
                    .sum();
                ensure_eq!(self.w.balance(&self.reg, d), held, "{d} held by the registry against the sum of all stakes");
                for w in self.names {
                    let mine: u128 = self
                        .services
                        .values()
                        .filter(|s| s.denom == **d)
                        .filter_map(|s| s.workers.get(*w))
                        .map(|w| w.bond.amount())
                        .sum();
                    ensure_eq!(self.w.balance(&addr(w), d), FUNDS - mine, "{d} owned by {w}, with {mine} at stake");
                }
            }
            for d in ["aother", "zother"] {
                ensure_eq!(self.w.balance(&self.reg, d), 0, "{d} held by the registry");
            }
        }
        if self.focus & ACTIVE != 0 {
            for name in SERVICES {
                for c in self.chains {
                    let q = json!({"get_active_workers": {"service_name": name, "chain_name": recase(src, c)}});
                    let got: Result<Vec<Value>, String> = self.w.query(&self.reg, &q);
                    let Some(s) = self.services.get(*name) else {
                        ensure!(got.is_err(), "active workers of unknown service {name}: {got:?}");
                        continue;
                    };
                    let mut got = got.map_err(|e| Fail {
                        msg: format!("active workers of {name} for {c}: {e}"),
                        sig: None,
                    })?;
                    got.sort_by_key(|v| v["address"].to_string());
                    let mut want: Vec<Value> = s
                        .workers
                        .iter()
                        .filter(|(_, w)| w.auth && w.chains.contains(*c))
                        .filter(|(_, w)| matches!(w.bond, Bond::Bonded(a) if a >= s.min_bond))
                        .map(|(a, w)| self.worker_json(name, a, w))
                        .collect();
                    want.sort_by_key(|v| v["address"].to_string());
                    ensure_eq!(got, want, "active workers of {name} for {c}");
                    for (a, w) in &s.workers {
                        let k = (name.to_string(), c.to_string(), a.clone());
                        let active = want.iter().any(|v| v["address"] == json!(a));
                        if active {
                            if self.was_active.insert(k) {
                                src.class("activated");
                            }
                        } else if self.was_active.remove(&k) {
                            src.nontrivial();
                            src.class(if !w.auth {
                                "deactivated_by_authorization"
                            } else {
                                "deactivated_by_stake"
                            });
                        }
                    }
                }
            }
        }
        if self.focus & RECORDS != 0 {
            for name in SERVICES {
                let got: Result<Value, String> = self.w.query(&self.reg, &json!({"get_service": {"service_name": name}}));
                match self.services.get(*name) {
                    None => ensure!(got.is_err(), "unknown service {name}: {got:?}"),
                    Some(s) => ensure_eq!(got, Ok(s.params.clone()), "service {name}"),
                }
                for a in self.names.iter().chain(&["governance", "stranger"]) {
                    let got: Result<Value, String> =
                        self.w.query(&self.reg, &json!({"get_worker": {"service_name": name, "worker": a}}));
                    match self.services.get(*name).and_then(|s| s.workers.get(*a)) {
                        None => ensure!(got.is_err(), "unknown worker {a} of {name}: {got:?}"),
                        Some(w) => ensure_eq!(got, Ok(self.worker_json(name, a, w)), "worker {a} of {name}"),
                    }
                }
            }
        }
        Ok(())
    }
    fn worker_json(&self, svc: &str, a: &str, w: &Wk) -> Value {
        json!({"address": a, "service_name": svc, "bonding_state": w.bond.json(),
            "authorization_state": if w.auth { "Authorized" } else { "NotAuthorized" }})
    }
}

/// weights: register, authorize, declare, bond, unbond, claim, advance
fn history(src: &mut Src, focus: u8, w: [u64; 7]) -> R {
    let n = if src.chance(1, 100) { 5 + src.idx(90) } else { 4 };
    let c = if src.chance(1, 100) { 5 + src.idx(50) } else { 4 };
    let mut s = Sys::new(focus, crowd(WORKERS, n), crowd(CHAINS, c));
    let first = *src.pick(SERVICES);
    let second = *src.pick(SERVICES);
    let mut names = vec![first, first, first, second];
    if src.chance(1, 4) {
        names.push(SERVICES[src.idx(SERVICES.len())]);
    }
    s.register(src, first)?;
    if n > 4 {
        // a service with many workers
        for a in s.names {
            let all: Vec<Value> = s.chains.iter().map(|c| json!(c)).collect();
            let svc = s.services.get_mut(first).unwrap();
            let min = svc.min_bond.max(1);
            for (who, msg, funds) in [
                ("governance", json!({"authorize_workers": {"workers": [a], "service_name": first}}), vec![]),
                (a, json!({"declare_chain_support": {"service_name": first, "chains": all}}), vec![]),
                (a, json!({"bond_worker": {"service_name": first}}), vec![coin(min, svc.denom.clone())]),
            ] {
                let reg = s.reg.clone();
                let r = s.w.exec(&addr(who), &reg, &msg, &funds);
                ensure!(r.is_ok(), "{who} {msg} with {funds:?}: {:?}", r.map(|_| ()));
            }
            let wk = Wk { bond: Bond::Bonded(min), auth: true, chains: s.chains.iter().map(|c| c.to_string()).collect() };
            svc.workers.insert(a.to_string(), wk);
        }
        src.class("many_workers");
        s.check(src)?;
    }
    src.repeat(1, 70, 30, |src, _| {
        let svc = *src.pick(&names);
        match src.weighted(&w) {
            0 => {
                let name = if src.bool() { *src.pick(SERVICES) } else { svc };
                s.register(src, name)?
            }
            1 => s.authorize(src, svc)?,
            2 => s.declare(src, svc)?,
            3 => s.bond(src, svc)?,
            4 => s.unbond(src, svc)?,
            5 => s.claim(src, svc)?,
            _ => s.advance(src),
        }
        if n == 4 && c == 4 || src.chance(1, 4) {
            s.check(src)?;
        }
        Ok(())
    })?;
    if focus == STAKE && s.claimed > 0 {
        src.nontrivial();
    }
    if focus == RECORDS {
        let n = s.services.values().flat_map(|s| s.workers.values()).filter(|w| w.auth || w.bond != Bond::Unbonded).count();
        if s.services.len() > 1 || n > 1 {
            src.nontrivial();
        }
    }
    Ok(())
}
fn c23(src: &mut Src) -> R {
    history(src, STAKE, [2, 2, 1, 8, 5, 5, 6])
}
fn c24(src: &mut Src) -> R {
    history(src, ACTIVE, [2, 6, 6, 8, 3, 1, 2])
}
fn c25(src: &mut Src) -> R {
    history(src, RECORDS, [4, 5, 3, 5, 3, 2, 2])
}

pub fn checks() -> Vec<Check> {
    const A: &[&str] = &[
        "cw-multi-test 0.15.1 and its bank module stand for the chain",
        "the chain rejects coins of amount zero before they reach a contract",
    ];
    vec![
        Check {
            id: "C23",
            rule: "histories of registrations, authorizations, chain declarations, bonds with every shape of funds, unbonds, claims and time jumps to (one nanosecond before, at, after) the end of unbonding periods, over services with shared and distinct denominations and periods from 0 to 65535 days; the outcome of each stake operation and all balances are compared with a model. Non-trivial: at least one claim paid out",
            assumptions: A,
            subs: vec![Sub { name: "history", f: c23, quick: 40_000, thorough: 1_500_000 }],
            known: vec![],
        },
        Check {
            id: "C24",
            rule: "the same histories with more authorizations and declarations; after each step the active workers of every service and chain are compared with a model (names chosen so that concatenated keys collide, chain names in random case). Non-trivial: an active worker ceased to be active",
            assumptions: A,
            subs: vec![Sub { name: "history", f: c24, quick: 24_000, thorough: 600_000 }],
            known: vec![],
        },
        Check {
            id: "C25",
            rule: "the same histories with privileged calls by anyone and unknown services; after each step every service and worker record is compared with a model. Non-trivial: several services or several workers with stake or authorization",
            assumptions: A,
            subs: vec![Sub { name: "history", f: c25, quick: 8_000, thorough: 600_000 }],
            known: vec![],
        },
    ]
}
