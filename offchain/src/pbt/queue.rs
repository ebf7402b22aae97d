//! C36: messages handed to the broadcast queue, on a clock that is simulated.
use crate::broadcaster::{self, Broadcaster};
use crate::engine::*;
use crate::queue::queued_broadcaster::{BroadcasterClient, QueuedBroadcaster};
use async_trait::async_trait;
use cosmos_sdk_proto::cosmos::base::abci::v1beta1::TxResponse;
use cosmrs::cosmwasm::MsgExecuteContract;
use cosmrs::tx::Fee;
use cosmrs::{Any, Coin};
use error_stack::{Report, Result};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::{sleep, Instant};

#[derive(Clone, Debug)]
struct Sent {
    at: u64,
    client: usize,
    seq: usize,
    ok: bool,
}
#[derive(Default)]
struct Log {
    /// when the queue learnt of a message (by number)
    estimated: BTreeMap<usize, u64>,
    batches: Vec<(u64, Vec<usize>)>,
    sent: Vec<Sent>,
    forced: Vec<u64>,
    failed_at: Option<u64>,
    /// time spent in the calls of the broadcaster
    busy: u64,
    errors: usize,
}
struct Net {
    start: Instant,
    log: Arc<Mutex<Log>>,
    gas: Arc<Vec<u64>>,
    estimate_ms: u64,
    broadcast_ms: u64,
    fail_estimate: Option<usize>,
    fail_broadcast: Option<usize>,
    estimates: usize,
}
fn number(a: &Any) -> usize {
    let m: MsgExecuteContract = serde_json::from_slice(&a.value).expect("message");
    String::from_utf8_lossy(&m.msg).parse().expect("number")
}
fn message(n: usize) -> MsgExecuteContract {
    MsgExecuteContract {
        sender: "worker".parse().expect("account"),
        contract: "contract".parse().expect("account"),
        msg: n.to_string().into_bytes(),
        funds: vec![],
    }
}
impl Net {
    fn now(&self) -> u64 {
        self.start.elapsed().as_millis() as u64
    }
}
#[async_trait]
impl Broadcaster for Net {
    async fn broadcast(&mut self, msgs: Vec<Any>) -> Result<TxResponse, broadcaster::Error> {
        let now = self.now();
        let n = {
            let mut l = self.log.lock().unwrap();
            l.batches.push((now, msgs.iter().map(number).collect()));
            l.busy += self.broadcast_ms;
            l.batches.len() - 1
        };
        if self.broadcast_ms > 0 {
            sleep(Duration::from_millis(self.broadcast_ms)).await;
        }
        if self.fail_broadcast == Some(n) {
            let mut l = self.log.lock().unwrap();
            l.failed_at.get_or_insert(now + self.broadcast_ms);
            l.errors += 1;
            return Err(Report::new(broadcaster::Error::Broadcast));
        }
        Ok(TxResponse::default())
    }
    async fn estimate_fee(&mut self, msgs: Vec<Any>) -> Result<Fee, broadcaster::Error> {
        let now = self.now();
        let gas: u64 = msgs.iter().map(|m| self.gas[number(m)]).sum();
        {
            let mut l = self.log.lock().unwrap();
            for m in &msgs {
                l.estimated.entry(number(m)).or_insert(now);
            }
            l.busy += self.estimate_ms;
        }
        if self.estimate_ms > 0 {
            sleep(Duration::from_millis(self.estimate_ms)).await;
        }
        let n = self.estimates;
        self.estimates += 1;
        if self.fail_estimate == Some(n) {
            let mut l = self.log.lock().unwrap();
            l.failed_at.get_or_insert(now + self.estimate_ms);
            l.errors += 1;
            return Err(Report::new(broadcaster::Error::GasEstimation));
        }
        Ok(Fee::from_amount_and_gas(Coin { denom: "uaxl".parse().expect("denomination"), amount: gas as u128 }, gas))
    }
}

pub fn c36(src: &mut Src) -> R {
    let limit = if src.chance(1, 40) { 1 << (6 + src.below(40)) } else { 2 + src.below(60) };
    let capacity = 1 + src.below(6) as usize;
    let interval = 1 + src.below(200);
    let (estimate_ms, broadcast_ms) = if src.chance(1, 4) { (src.below(4), src.below(20)) } else { (0, 0) };
    let fail_estimate = src.chance(1, 10).then(|| src.below(12) as usize);
    let fail_broadcast = src.chance(1, 10).then(|| src.below(6) as usize);
    let clients = 1 + src.idx(3);
    // (wait, message) per client
    let mut gas: Vec<u64> = vec![];
    let mut plans: Vec<Vec<(u64, usize)>> = vec![];
    for _ in 0..clients {
        let mut p = vec![];
        for _ in 0..src.size(10, 300) - 1 {
            let wait = match src.below(4) {
                0 => src.below(interval * 2),
                1 => interval,
                _ => 0,
            };
            p.push((wait, gas.len()));
            gas.push(match src.below(8) {
                0 => limit + src.below(5),
                1 => limit - 1,
                2 => limit / 2,
                _ => 1 + src.below(limit.min(12)),
            });
        }
        plans.push(p);
    }
    let forces: Vec<u64> = if src.chance(1, 3) {
        (0..1 + src.below(4)).map(|_| src.below(interval * 3)).collect()
    } else {
        vec![]
    };
    src.note(|| format!("limit {limit}, channel of {capacity}, every {interval} ms, latencies {estimate_ms} {broadcast_ms}, failures {fail_estimate:?} {fail_broadcast:?}, gas {gas:?}, clients (wait, message) {plans:?}, forced after {forces:?}"));
    let log = Arc::new(Mutex::new(Log::default()));
    let seed = src.below(1 << 20) as usize;
    tokio::select_support::seed(seed);
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("runtime");
    let gas = Arc::new(gas);
    let total: u64 = plans.iter().flatten().map(|x| x.0).sum::<u64>() + forces.iter().sum::<u64>();
    let (l2, plans2, forces2, gas2) = (log.clone(), plans.clone(), forces.clone(), gas.clone());
    let out = rt.block_on(async move {
        let start = Instant::now();
        let net = Net {
            start,
            log: l2.clone(),
            gas: gas2,
            estimate_ms,
            broadcast_ms,
            fail_estimate,
            fail_broadcast,
            estimates: 0,
        };
        let (q, driver) = QueuedBroadcaster::new(net, limit, capacity, Duration::from_millis(interval));
        let mut tasks = vec![];
        for (client, plan) in plans2.into_iter().enumerate() {
            let c = q.client();
            let l = l2.clone();
            tasks.push(tokio::spawn(async move {
                for (wait, n) in plan {
                    if wait > 0 {
                        sleep(Duration::from_millis(wait)).await;
                    }
                    let ok = c.broadcast(message(n)).await.is_ok();
                    let at = start.elapsed().as_millis() as u64;
                    l.lock().unwrap().sent.push(Sent { at, client, seq: n, ok });
                }
            }));
        }
        let run = tokio::spawn(q.run());
        let l = l2.clone();
        // stays alive until the queue has ended
        let driver = tokio::spawn(async move {
            for f in forces2 {
                sleep(Duration::from_millis(f)).await;
                if driver.force_broadcast().await.is_ok() {
                    let at = start.elapsed().as_millis() as u64;
                    l.lock().unwrap().forced.push(at);
                }
            }
            driver
        });
        let all = async {
            for t in tasks {
                let _ = t.await;
            }
            let r = run.await;
            let _ = driver.await;
            r
        };
        let bound = Duration::from_millis(60_000 + 20 * total + 100 * interval);
        let r = tokio::time::timeout(bound, all).await;
        (r, start.elapsed().as_millis() as u64)
    });
    let l = log.lock().unwrap();
    src.note(|| format!("sent {:?}", l.sent.iter().map(|s| (s.at, s.client, s.seq, s.ok)).collect::<Vec<_>>()));
    src.note(|| format!("batches {:?}, forced {:?}, failed {:?}, end at {}", l.batches, l.forced, l.failed_at, out.1));
    let Ok(r) = out.0 else { return fail("the queue does not end after its clients are gone") };
    let r = match r {
        Ok(r) => r.map_err(|e| format!("{e:?}")),
        Err(e) => return fail(format!("the queue panics: {e}")),
    };
    ensure!(r.is_ok() == (l.errors == 0), "the queue ends with {r:?} after {} errors", l.errors);
    ensure!(l.errors <= 1, "the queue goes on after an error");
    // what is broadcast
    let done: Vec<usize> = l.batches.iter().flat_map(|b| b.1.clone()).collect();
    for b in &l.batches {
        ensure!(!b.1.is_empty(), "an empty transaction is broadcast");
        let g: u64 = b.1.iter().map(|n| gas[*n]).sum();
        ensure!(b.1.len() == 1 || g < limit, "transaction {:?} needs {g} gas, the limit is {limit}", b.1);
        if b.1.len() > 1 {
            src.class("batched");
        }
    }
    for (i, n) in done.iter().enumerate() {
        ensure!(!done[..i].contains(n), "message {n} is broadcast twice");
    }
    for (c, p) in plans.iter().enumerate() {
        let mine: Vec<usize> = done.iter().copied().filter(|n| p.iter().any(|x| x.1 == *n)).collect();
        let all: Vec<usize> = p.iter().map(|x| x.1).collect();
        ensure!(all.starts_with(&mine), "messages {all:?} of client {c} are broadcast as {mine:?}");
        if r.is_ok() {
            ensure!(mine == all, "messages {all:?} of client {c} are accepted, {mine:?} are broadcast");
        }
    }
    if r.is_ok() {
        ensure!(l.sent.iter().all(|s| s.ok), "a message is refused");
        // nothing waits for longer than the interval
        for (at, b) in &l.batches {
            for n in b {
                let got = l.estimated.get(n).copied().unwrap_or(*at);
                ensure!(*at <= got + interval + l.busy, "message {n} known at {got} is broadcast at {at}, the interval is {interval}");
                if *at > got && l.busy == 0 {
                    src.class("waited");
                }
            }
        }
        // messages wait for others as long as those fit into the transaction
        if l.busy == 0 && forces.is_empty() {
            for (k, w) in l.batches.windows(2).enumerate() {
                let g: u64 = w[0].1.iter().map(|n| gas[*n]).sum();
                let t = w[0].0;
                let tick = t == 0 || t % interval == 0 || l.batches[..k].iter().any(|a| a.0 < t && (t - a.0) % interval == 0);
                ensure!(tick || g + gas[w[1].1[0]] >= limit, "transaction {:?} is broadcast at {t} though the next message fits", w[0].1);
            }
        }
        // a forced broadcast empties the queue
        if l.busy == 0 {
            for f in &l.forced {
                for (n, got) in &l.estimated {
                    let at = l.batches.iter().find(|b| b.1.contains(n)).map(|b| b.0);
                    ensure!(got >= f || at.map_or(false, |a| a <= *f), "message {n} known at {got} is not broadcast at {f}, when that was forced, but at {at:?}");
                }
                src.class("forced");
            }
        }
    } else {
        let f = l.failed_at.unwrap_or_default();
        ensure!(l.batches.iter().all(|b| b.0 <= f), "broadcasts go on after an error at {f}");
        ensure!(l.sent.iter().all(|s| s.ok || s.at >= f), "a message is refused before there is an error");
        ensure!(l.sent.iter().all(|s| !s.ok || s.at <= f), "a message is accepted after the queue has failed at {f}");
        src.class("error");
    }
    if l.batches.len() > 1 && l.batches.iter().any(|b| b.1.len() > 1) {
        src.nontrivial();
    }
    Ok(())
}
