//! C20-C22: the rewards contract against a reference model; payouts are observed on bank balances.
use crate::engine::*;
use crate::util::app::*;
use crate::util::gen::crowd;
use cosmwasm_std::{coin, coins, Addr, Coin};
use rewards::msg::InstantiateMsg;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const DENOM: &str = "reward";
const CONTRACTS: &[&str] = &["pool0", "pool1", "pool2"];
const WORKERS: &[&str] = &["worker0", "worker1", "worker2", "worker3", "worker4"];

#[derive(Clone, Copy, Debug, PartialEq)]
struct Params {
    duration: u64,
    rewards: u128,
    num: u64,
    den: u64,
}
impl Params {
    fn json(&self) -> Value {
        json!({"epoch_duration": self.duration.to_string(), "rewards_per_epoch": self.rewards.to_string(),
            "participation_threshold": [self.num.to_string(), self.den.to_string()]})
    }
}
struct Tally {
    params: Params,
    events: BTreeSet<String>,
    part: BTreeMap<String, BTreeSet<String>>,
}
struct Sys {
    w: World,
    rw: Addr,
    names: &'static [&'static str],
    params: Params,
    /// number and first height of the epoch in which the parameters were last changed
    base: (u64, u64),
    event_epoch: BTreeMap<(String, String), u64>,
    tallies: BTreeMap<(String, u64), Tally>,
    pools: BTreeMap<String, u128>,
    next: BTreeMap<String, u64>,
    paid: BTreeMap<String, u128>,
    pub paid_epochs: u64,
}

fn gen_params(src: &mut Src, small_rewards: bool) -> Params {
    let duration = match src.weighted(&[8, 2, 1]) {
        0 => 1 + src.below(12),
        1 => 1 + src.below(60),
        _ => src.u64_any().max(1),
    };
    let rewards = match src.weighted(&[6, 3, if small_rewards { 0 } else { 1 }]) {
        0 => 1 + src.below(30) as u128,
        1 => 100 + src.below(1000) as u128,
        _ => src.u128_any().max(1),
    };
    let (num, den) = match src.below(5) {
        0 => (1, 1),
        1 => (1, 2),
        2 => (2, 3),
        3 => {
            let d = src.range(2, u64::MAX);
            (1 + src.below(d), d)
        }
        _ => {
            let d = 1 + src.below(9);
            (1 + src.below(d), d)
        }
    };
    Params {
        duration,
        rewards,
        num,
        den,
    }
}

impl Sys {
    fn new(src: &mut Src, small: bool) -> Sys {
        let mut w = World::new();
        let donor = addr("donor");
        w.mint(
            &donor,
            vec![coin(u128::MAX >> 20, DENOM), coin(1_000_000, "other"), coin(1_000_000, "aaa")],
        );
        let params = gen_params(src, small);
        let msg: InstantiateMsg = serde_json::from_value(
            json!({"governance_address": "governance", "rewards_denom": DENOM, "params": params.json()}),
        )
        .expect("valid instantiate message");
        let rw = w.instantiate(w_rewards(), &msg, "rewards").expect("rewards instantiates");
        src.note(|| format!("h{} rewards with {params:?}", w.height()));
        let h = w.height();
        Sys {
            w,
            rw,
            names: WORKERS,
            params,
            base: (0, h),
            event_epoch: BTreeMap::new(),
            tallies: BTreeMap::new(),
            pools: BTreeMap::new(),
            next: BTreeMap::new(),
            paid: BTreeMap::new(),
            paid_epochs: 0,
        }
    }
    fn exec(&mut self, sender: &str, msg: &Value, funds: &[Coin]) -> Result<cw_multi_test::AppResponse, String> {
        let rw = self.rw.clone();
        self.w.exec(&addr(sender), &rw, msg, funds)
    }
    fn epoch(&self) -> (u64, u64) {
        let h = self.w.height();
        let n = (h - self.base.1) / self.params.duration;
        (self.base.0 + n, self.base.1 + n * self.params.duration)
    }
    fn rewards_of(&self, c: &str, epoch: u64) -> BTreeMap<String, u128> {
        let Some(t) = self.tallies.get(&(c.to_string(), epoch)) else { return BTreeMap::new() };
        let n = t.events.len() as u128;
        let winners: Vec<&String> = t
            .part
            .iter()
            .filter(|(_, e)| e.len() as u128 * t.params.den as u128 >= n * t.params.num as u128)
            .map(|(w, _)| w)
            .collect();
        if winners.is_empty() {
            return BTreeMap::new();
        }
        let each = t.params.rewards / winners.len() as u128;
        if each == 0 {
            return BTreeMap::new();
        }
        winners.into_iter().map(|w| (w.clone(), each)).collect()
    }

    fn check_balances(&self, src: &Src) -> R {
        let held: u128 = self.pools.values().sum();
        ensure_eq!(self.w.balance(&self.rw, DENOM), held, "balance of the rewards contract");
        for d in ["other", "aaa"] {
            ensure_eq!(self.w.balance(&self.rw, d), 0, "{d} coins held by the rewards contract");
        }
        for w in self.names {
            ensure_eq!(
                self.w.balance(&addr(w), DENOM),
                self.paid.get(*w).copied().unwrap_or(0),
                "tokens received by {w}"
            );
        }
        let _ = src;
        Ok(())
    }

    fn record(&mut self, src: &mut Src, c: &str, ev: String, worker: &str) -> R {
        let known = self.event_epoch.get(&(c.to_string(), ev.clone())).copied();
        // a contract reports a worker once per event
        if let Some(e) = known {
            if let Some(t) = self.tallies.get(&(c.to_string(), e)) {
                if t.part.get(worker).map(|s| s.contains(&ev)).unwrap_or(false) {
                    return Ok(());
                }
            }
        }
        let (cur, _) = self.epoch();
        let r = self.exec(c, &json!({"record_participation": {"event_id": ev, "worker_address": worker}}), &[]);
        src.note(|| format!("h{} epoch {cur}: {c} records {worker} in {ev:?} -> {}", self.w.height(), r.is_ok()));
        ensure!(r.is_ok(), "participation rejected: {r:?}");
        let e = match known {
            Some(e) => e,
            None => {
                self.event_epoch.insert((c.to_string(), ev.clone()), cur);
                cur
            }
        };
        if e != cur {
            src.class("participation_in_earlier_epoch");
        }
        let params = self.params;
        let t = self.tallies.entry((c.to_string(), e)).or_insert(Tally {
            params,
            events: BTreeSet::new(),
            part: BTreeMap::new(),
        });
        t.events.insert(ev.clone());
        t.part.entry(worker.to_string()).or_default().insert(ev);
        src.class("participation");
        Ok(())
    }

    fn deposit(&mut self, src: &mut Src, c: &str) -> R {
        let amount = match src.weighted(&[6, 3, 1]) {
            0 => 1 + src.below(100) as u128,
            1 => 1000 + src.below(100_000) as u128,
            _ => 1u128 << (40 + src.below(40)),
        };
        let (funds, ok): (Vec<Coin>, bool) = match src.weighted(&[20, 1, 1, 1, 1, 1]) {
            0 => (coins(amount, DENOM), true),
            1 => (vec![], false),
            2 => (coins(3, "other"), false),
            3 => (vec![coin(amount, DENOM), coin(2, "other")], false),
            4 => (vec![coin(2, "aaa"), coin(amount, DENOM)], false),
            _ => (vec![coin(0, DENOM)], false),
        };
        let r = self.exec("donor", &json!({"add_rewards": {"contract_address": c}}), &funds);
        src.note(|| format!("deposit {funds:?} for {c} -> {}", r.is_ok()));
        ensure!(r.is_ok() == ok, "deposit of {funds:?}: {:?}", r.map(|_| ()));
        if ok {
            *self.pools.entry(c.to_string()).or_default() += amount;
            src.class("deposit");
        } else {
            src.class("deposit_rejected");
        }
        Ok(())
    }

    fn distribute(&mut self, src: &mut Src, c: &str, limit: Option<u64>) -> R {
        let (cur, _) = self.epoch();
        let from = self.next.get(c).copied().unwrap_or(0);
        let n = limit.unwrap_or(10);
        // epochs from..end (exclusive)
        let end = (from as u128 + n as u128).min((cur as u128 + 1).saturating_sub(2)) as u64;
        let mut pay: BTreeMap<String, u128> = BTreeMap::new();
        let mut overflow = false;
        for e in from..end.max(from) {
            for (w, x) in self.rewards_of(c, e) {
                let p = pay.entry(w).or_default();
                match p.checked_add(x) {
                    Some(s) => *p = s,
                    None => overflow = true,
                }
            }
        }
        let total = pay.values().try_fold(0u128, |a, x| a.checked_add(*x));
        let pool = self.pools.get(c).copied().unwrap_or(0);
        let ok = end > from && !overflow && total.map(|t| t <= pool).unwrap_or(false);
        let before = self.w.dump(&self.rw);
        let who = *src.pick(&["anyone", "worker0", "governance"]);
        let r = self.exec(who, &json!({"distribute_rewards": {"contract_address": c, "epoch_count": limit}}), &[]);
        src.note(|| {
            format!(
                "h{} epoch {cur}: distribute {c} limit {limit:?}: epochs {from}..{end} pay {pay:?} from pool {pool} -> {}",
                self.w.height(),
                r.is_ok()
            )
        });
        if r.is_ok() != ok {
            return fail(format!(
                "distribution for {c} (epochs {from}..{end} in epoch {cur}, to pay {total:?}, pool {pool}): {:?}",
                r.map(|_| ())
            ));
        }
        if !ok {
            ensure!(self.w.dump(&self.rw) == before, "a rejected distribution changed the state");
            src.class(if end > from { "distribution_insufficient" } else { "distribution_nothing" });
            return Ok(());
        }
        for (w, x) in &pay {
            *self.paid.entry(w.clone()).or_default() += x;
        }
        *self.pools.entry(c.to_string()).or_default() -= total.unwrap();
        self.next.insert(c.to_string(), end);
        src.class("distribution");
        if !pay.is_empty() {
            self.paid_epochs += 1;
            src.class("distribution_paid");
            src.nontrivial();
        }
        Ok(())
    }

    fn update(&mut self, src: &mut Src, small: bool) -> R {
        let sender = if src.chance(5, 6) { "governance" } else { "anyone" };
        let mut p = gen_params(src, small);
        match src.below(3) {
            0 => p.duration = self.params.duration, // only rewards change
            1 => {
                // around the age of the current epoch
                let age = self.w.height() - self.epoch().1;
                p.duration = (age + src.below(3)).saturating_sub(1).max(1);
            }
            _ => {}
        }
        let (cur, start) = self.epoch();
        let before = self.w.dump(&self.rw);
        let r = self.exec(sender, &json!({"update_params": {"params": p.json()}}), &[]);
        src.note(|| format!("h{} epoch {cur} since {start}: {sender} sets {p:?} -> {}", self.w.height(), r.is_ok()));
        let ok = sender == "governance";
        ensure!(r.is_ok() == ok, "parameter update by {sender}: {:?}", r.map(|_| ()));
        if ok {
            let h = self.w.height();
            self.base = if h - start > p.duration { (cur + 1, h) } else { (cur, start) };
            if self.base.0 > cur {
                src.class("update_ends_epoch");
            } else {
                src.class("update");
            }
            self.params = p;
        } else {
            ensure!(self.w.dump(&self.rw) == before, "a rejected parameter update changed the state");
            src.class("update_rejected");
        }
        Ok(())
    }
    fn advance(&mut self, src: &mut Src) {
        let d = self.params.duration.min(60);
        let n = match src.weighted(&[5, 3, 2]) {
            0 => 1 + src.below(d),
            1 => d,
            _ => 1 + src.below(3 * d),
        };
        self.w.advance(n, n * 5);
        src.note(|| format!("advance to h{} (epoch {})", self.w.height(), self.epoch().0));
    }
    /// pays everything out, epoch by epoch, and so makes the assignment of events to epochs visible
    fn drain(&mut self, src: &mut Src) -> R {
        let d = self.params.duration.min(100);
        self.w.advance(2 * d + 1, 10);
        for c in CONTRACTS {
            let r = self.exec("donor", &json!({"add_rewards": {"contract_address": c}}), &coins(1 << 90, DENOM));
            ensure!(r.is_ok(), "deposit rejected: {r:?}");
            *self.pools.entry(c.to_string()).or_default() += 1 << 90;
            for _ in 0..40 {
                let before = self.next.get(*c).copied().unwrap_or(0);
                let behind = self.epoch().0.saturating_sub(before + 1);
                // many empty epochs are skipped in larger steps
                let step = if behind > 30 { behind / 10 } else { 1 };
                self.distribute(src, c, Some(step))?;
                self.check_balances(src)?;
                if self.next.get(*c).copied().unwrap_or(0) == before {
                    break;
                }
            }
        }
        Ok(())
    }
}

fn event_id(src: &mut Src) -> String {
    match src.below(6) {
        0 => "pool0".into(),
        1 => src.pick(&["1", "11", "1pool", "e"]).to_string(),
        _ => format!("{}", src.below(8)),
    }
}

/// weights: record, deposit, distribute, update, advance
fn history(src: &mut Src, w: [u64; 5], small: bool) -> R {
    let mut s = Sys::new(src, small);
    s.names = crowd(WORKERS, src.size(5, 80));
    if src.chance(1, 60) {
        // many epochs wait for their distribution
        for i in 0..1 + src.idx(70) {
            let c = CONTRACTS[src.weighted(&[6, 1, 1])];
            for _ in 0..1 + src.idx(2) {
                let wk = *src.pick(s.names);
                s.record(src, c, format!("waiting{i}"), wk)?;
            }
            let d = s.params.duration.min(60);
            s.w.advance(d, 5);
        }
        src.class("many_epochs");
    }
    src.repeat(1, 60, 22, |src, _| {
        match src.weighted(&w) {
            0 => {
                let c = *src.pick(CONTRACTS);
                let ev = event_id(src);
                let k = if s.names.len() > 5 { 1 + src.idx(80) } else { 1 + src.idx(3) };
                for _ in 0..k {
                    let wk = *src.pick(s.names);
                    s.record(src, c, ev.clone(), wk)?;
                }
            }
            1 => {
                let c = *src.pick(CONTRACTS);
                s.deposit(src, c)?;
            }
            2 => {
                let c = *src.pick(CONTRACTS);
                let l = match src.below(7) {
                    0 | 1 => None,
                    2 => Some(1),
                    3 => Some(2),
                    4 => Some(0),
                    5 => Some(src.below(20)),
                    _ => Some(src.u64_any()),
                };
                s.distribute(src, c, l)?;
            }
            3 => s.update(src, small)?,
            _ => s.advance(src),
        }
        s.check_balances(src)
    })?;
    s.drain(src)
}
fn c20(src: &mut Src) -> R {
    history(src, [8, 4, 5, 1, 4], false)
}
fn c21(src: &mut Src) -> R {
    history(src, [8, 2, 2, 5, 5], true)
}

/// one contract, one epoch at a time, many events: exact participation ratios
fn c22(src: &mut Src) -> R {
    let mut s = Sys::new(src, true);
    s.params.rewards = s.params.rewards.max(1);
    s.names = crowd(WORKERS, src.size(5, 60));
    let mut n = 0u64;
    src.repeat(1, 6, 3, |src, _| {
        // a fresh set of events, several contracts interleaved
        let events = if src.chance(1, 60) { 8 + src.idx(300) } else { 1 + src.idx(8) };
        let mut todo: Vec<(usize, String, usize)> = vec![];
        for _ in 0..events {
            let c = src.weighted(&[4, 1, 1]);
            // the same event ids are used by all contracts
            let ev = if src.chance(1, 3) { format!("e{}", src.below(4)) } else { format!("n{n}") };
            n += 1;
            for w in 0..s.names.len() {
                if src.chance(3, 5) {
                    todo.push((c, ev.clone(), w));
                }
            }
        }
        if src.bool() {
            src.shuffle(&mut todo);
        }
        for (c, ev, w) in todo {
            s.record(src, CONTRACTS[c], ev, s.names[w])?;
            if src.chance(1, if events > 8 { 2_000 } else { 15 }) {
                s.advance(src);
            }
        }
        s.advance(src);
        if src.chance(1, 4) {
            s.update(src, true)?;
        }
        s.check_balances(src)
    })?;
    s.drain(src)
}
fn c22_history(src: &mut Src) -> R {
    history(src, [14, 1, 2, 1, 3], true)
}

pub fn checks() -> Vec<Check> {
    const A: &[&str] = &[
        "cw-multi-test 0.15.1 and its bank module stand for the chain",
        "a contract reports a worker's participation in an event at most once",
    ];
    vec![
        Check {
            id: "C20",
            rule: "histories of participation, deposits with every shape of funds, distributions with limits from 0 to 2^64-1, parameter updates and block advances; contract and worker balances are compared with a model after each step and everything is paid out epoch by epoch at the end. Non-trivial: at least one distribution paid something",
            assumptions: A,
            subs: vec![Sub { name: "history", f: c20, quick: 40_000, thorough: 1_000_000 }],
            known: vec![],
        },
        Check {
            id: "C21",
            rule: "the same histories with frequent parameter updates around the age of the current epoch (durations 1 to 2^64-1); the final payout per epoch makes the assignment of heights to epochs visible. Non-trivial as in C20",
            assumptions: A,
            subs: vec![Sub { name: "history", f: c21, quick: 40_000, thorough: 1_000_000 }],
            known: vec![],
        },
        Check {
            id: "C22",
            rule: "epochs with many events, event ids shared by contracts, late participation and thresholds with numerators and denominators up to 2^64-1; payouts per epoch are compared with a model. Non-trivial as in C20",
            assumptions: A,
            subs: vec![
                Sub { name: "ratios", f: c22, quick: 24_000, thorough: 700_000 },
                Sub { name: "history", f: c22_history, quick: 20_000, thorough: 500_000 },
            ],
            known: vec![],
        },
    ]
}
