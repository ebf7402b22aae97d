//! C37: from the blocks of Axelar to the handlers of the worker, across restarts. The parts are
//! put together as in the worker's run loop; its clock and its node are simulated.
use crate::block_height_monitor::BlockHeightMonitor;
use crate::engine::*;
use crate::event_processor::{EventHandler, EventProcessor};
use crate::event_sub::{skip_to_block, EventSub};
use crate::handlers::end_block::with_block_height_notifier;
use crate::state::{State, StateUpdater};
use crate::tm_client::{BlockResponse, BlockResultsResponse, Error as TmError, TmClient};
use async_trait::async_trait;
use base64::{engine::general_purpose::STANDARD, Engine};
use error_stack::Report;
use events::Event;
use futures::Stream;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tendermint::block::Height;
use tendermint::abci;
use tendermint_rpc::endpoint;
use tokio::time::{sleep, timeout, Instant};
use tokio_util::sync::CancellationToken;

#[derive(Clone, Debug, Default)]
struct Block {
    begin: Option<Vec<u32>>,
    txs: Option<Vec<Vec<u32>>>,
    end: Option<Vec<u32>>,
}
impl Block {
    fn all(&self) -> Vec<u32> {
        let mut v = self.begin.clone().unwrap_or_default();
        v.extend(self.txs.clone().unwrap_or_default().concat());
        v.extend(self.end.clone().unwrap_or_default());
        v
    }
}
struct Node {
    first: u64,
    blocks: Vec<Block>,
    /// the blocks that exist
    latest: u64,
    /// answers about the latest height that are late, one per call
    lags: Vec<u64>,
    calls: usize,
    /// the call that fails
    fails: Option<usize>,
    failed: bool,
    latency: u64,
}
#[derive(Clone)]
struct Client(Arc<Mutex<Node>>);
fn event(n: u32) -> abci::Event {
    abci::Event {
        kind: format!("e{n}"),
        attributes: vec![abci::EventAttribute { key: STANDARD.encode("n"), value: STANDARD.encode(n.to_string()), index: true }],
    }
}
impl Client {
    async fn call(&self) -> Result<(), TmError> {
        let (d, bad) = {
            let mut n = self.0.lock().unwrap();
            n.calls += 1;
            let bad = n.fails == Some(n.calls);
            n.failed |= bad;
            (n.latency, bad)
        };
        if d > 0 {
            sleep(Duration::from_millis(d)).await;
        }
        if bad {
            return Err(tendermint_rpc::Error("no answer".into()));
        }
        Ok(())
    }
}
#[async_trait]
impl TmClient for Client {
    async fn latest_block(&self) -> error_stack::Result<BlockResponse, TmError> {
        self.call().await.map_err(Report::from)?;
        let mut n = self.0.lock().unwrap();
        let lag = n.lags.pop().unwrap_or(0);
        let h = n.latest.saturating_sub(lag).max(n.first);
        Ok(endpoint::block::Response {
            block: endpoint::block::Block { header: endpoint::block::Header { height: h.try_into().expect("height") } },
        })
    }
    async fn block_results(&self, h: Height) -> error_stack::Result<BlockResultsResponse, TmError> {
        self.call().await.map_err(Report::from)?;
        let n = self.0.lock().unwrap();
        let i = h.value();
        if i < n.first || i > n.latest {
            return Err(Report::new(tendermint_rpc::Error(format!("height {i} is not available"))));
        }
        let b = &n.blocks[(i - n.first) as usize];
        let evs = |v: &Vec<u32>| v.iter().map(|x| event(*x)).collect::<Vec<_>>();
        Ok(endpoint::block_results::Response {
            height: h,
            begin_block_events: b.begin.as_ref().map(evs),
            txs_results: b
                .txs
                .as_ref()
                .map(|t| t.iter().map(|v| endpoint::block_results::TxResult { events: evs(v) }).collect()),
            end_block_events: b.end.as_ref().map(evs),
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Seen {
    Begin(u64),
    E(u32),
    End(u64),
}
#[derive(Debug)]
struct HandlerError;
impl std::fmt::Display for HandlerError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("handler")
    }
}
impl std::error::Error for HandlerError {}
struct Recorder {
    seen: Arc<Mutex<Vec<Seen>>>,
    /// the event (counted in this session) that makes it fail
    fails_at: Option<usize>,
    failed: Arc<Mutex<Option<Instant>>>,
    slow_ms: u64,
}
#[async_trait]
impl EventHandler for Recorder {
    type Err = HandlerError;
    async fn handle(&self, e: &Event) -> error_stack::Result<(), HandlerError> {
        if self.slow_ms > 0 {
            sleep(Duration::from_millis(self.slow_ms)).await;
        }
        let mut v = self.seen.lock().unwrap();
        if self.fails_at == Some(v.len()) {
            *self.failed.lock().unwrap() = Some(Instant::now());
            return Err(Report::new(HandlerError));
        }
        v.push(match e {
            Event::BlockBegin(h) => Seen::Begin(h.value()),
            Event::BlockEnd(h) => Seen::End(h.value()),
            Event::Abci { event_type, .. } => Seen::E(event_type[1..].parse().expect("event")),
        });
        Ok(())
    }
}

/// how a run of the worker ends
#[derive(Clone, Copy, Debug, PartialEq)]
enum Stop {
    Signal(u64),
    Crash(u64),
}

struct Outcome {
    state: Option<State>,
    first_error: Option<(Instant, &'static str, String)>,
    late_error: bool,
    stuck: bool,
    monitor: (u64, u64),
}

pub fn c37(src: &mut Src) -> R {
    let first = 1 + src.below(50);
    let total = 3 + src.below(25);
    let mut id = 0;
    let mut some = |src: &mut Src| -> Option<Vec<u32>> {
        let n = src.size(4, 150) - 1;
        (!src.chance(1, 4)).then(|| {
            (0..n)
                .map(|_| {
                    id += 1;
                    id
                })
                .collect()
        })
    };
    let mut blocks = vec![];
    for _ in 0..total {
        let begin = some(src);
        let k = src.size(3, 60) - 1;
        let txs = (!src.chance(1, 5)).then(|| (0..k).filter_map(|_| some(src)).collect::<Vec<_>>());
        let end = some(src);
        blocks.push(Block { begin, txs, end });
    }
    let names = ["alpha", "beta", "gamma"];
    let max_handlers = 1 + src.idx(3);
    let node = Arc::new(Mutex::new(Node {
        first,
        blocks: blocks.clone(),
        latest: first + src.below(3),
        lags: vec![],
        calls: 0,
        fails: None,
        failed: false,
        latency: 0,
    }));
    let last = first + total - 1;
    let path = std::env::temp_dir().join(format!("pbt-{}-{:?}", std::process::id(), std::thread::current().id()));
    let _ = std::fs::remove_file(&path);
    let mut saved = State::default();
    let sessions = 1 + src.below(4);
    let mut ok_sessions = 0;
    for si in 0..sessions {
        let final_session = si + 1 == sessions;
        // the state a restarted worker finds
        let before = saved.clone();
        let handlers: Vec<&str> = names[..1 + src.idx(max_handlers)].to_vec();
        let capacity = if src.chance(1, 8) { 1 + src.below(8) as usize } else { 4096 };
        let poll = 1 + src.below(20);
        let block_ms = 1 + src.below(30);
        let stop = if final_session {
            None
        } else if src.chance(1, 4) {
            Some(Stop::Crash(src.below(300)))
        } else {
            Some(Stop::Signal(src.below(300)))
        };
        let mut fails_at: Vec<Option<usize>> = handlers.iter().map(|_| None).collect();
        if !final_session && src.chance(1, 4) {
            let i = src.idx(fails_at.len());
            fails_at[i] = Some(src.below(40) as usize);
        }
        let slow: Vec<u64> =
            handlers.iter().map(|_| if src.chance(1, 5) { src.below(15) } else { 0 }).collect();
        {
            let mut n = node.lock().unwrap();
            n.lags = (0..src.below(60)).map(|_| if src.chance(1, 5) { src.below(6) } else { 0 }).collect();
            n.calls = 0;
            n.fails = (!final_session && src.chance(1, 6)).then(|| 2 + src.below(40) as usize);
            n.failed = false;
            n.latency = if src.chance(1, 4) { src.below(6) } else { 0 };
        }
        let seen: Vec<Arc<Mutex<Vec<Seen>>>> = handlers.iter().map(|_| Arc::default()).collect();
        let failed: Arc<Mutex<Option<Instant>>> = Arc::default();
        let start_latest = node.lock().unwrap().latest;
        src.note(|| {
            let n = node.lock().unwrap();
            format!(
                "run {si}: chain {first}..={last} at {start_latest}, handlers {handlers:?} from {:?}, buffer {capacity}, polls every {poll} ms, block every {block_ms} ms, {stop:?}, handler failures {fails_at:?}, node fails at call {:?}, lags {:?}, latency {}, slow {slow:?}",
                handlers.iter().map(|h| before.handler_block_height(h).map(|h| h.value())).collect::<Vec<_>>(),
                n.fails, n.lags, n.latency
            )
        });
        // long enough for everything to be handled
        let size: u64 = blocks.iter().map(|b| b.all().len() as u64 + 2).sum();
        let latency = node.lock().unwrap().latency;
        let enough = block_ms * (total + 2)
            + slow.iter().max().unwrap_or(&0) * (size + 2)
            + latency * 4 * (total + 60)
            + poll * 80;
        let sel = src.below(1 << 20) as usize;
        tokio::select_support::seed(sel);
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime");
        let out: Outcome = rt.block_on(async {
            let client = Client(node.clone());
            let token = CancellationToken::new();
            let mut updater = StateUpdater::new(before.clone());
            let sub = EventSub::new(client.clone(), capacity, token.child_token()).poll_interval(Duration::from_millis(poll));
            let mut sub = match updater.state().min_handler_block_height() {
                Some(h) => sub.start_from(h.increment()),
                None => sub,
            };
            let mut processor = EventProcessor::new(token.child_token());
            for (i, name) in handlers.iter().enumerate() {
                let r = Recorder { seen: seen[i].clone(), fails_at: fails_at[i], failed: failed.clone(), slow_ms: slow[i] };
                let (h, rx) = with_block_height_notifier(r);
                updater.register_event(*name, rx);
                let stream: Pin<Box<dyn Stream<Item = _> + Send>> = match updater.state().handler_block_height(name) {
                    None => Box::pin(sub.sub()),
                    Some(c) => Box::pin(skip_to_block(sub.sub(), c.increment())),
                };
                processor.add_handler(h, stream);
            }
            let monitor = match BlockHeightMonitor::connect(client.clone()).await {
                Ok(m) => Some(m.poll_interval(Duration::from_millis(poll))),
                Err(_) => None,
            };
            let heights = monitor.as_ref().map(|m| m.latest_block_height());
            let grow = {
                let (n, t) = (node.clone(), token.clone());
                tokio::spawn(async move {
                    loop {
                        sleep(Duration::from_millis(block_ms)).await;
                        let mut n = n.lock().unwrap();
                        if n.latest < last {
                            n.latest += 1;
                        }
                        let _ = &t;
                    }
                })
            };
            let (ftx, mut frx) = tokio::sync::mpsc::unbounded_channel();
            let mut tasks = vec![];
            macro_rules! task {
                ($name:expr, $f:expr) => {{
                    let tx = ftx.clone();
                    let f = $f;
                    tasks.push(tokio::spawn(async move {
                        let r = f.await.map_err(|e| format!("{e:?}"));
                        let _ = tx.send(($name, r.err()));
                    }));
                }};
            }
            task!("event sub", sub.run());
            task!("event processor", processor.run());
            if let Some(m) = monitor {
                task!("block height monitor", m.run(token.clone()));
            }
            let updating = tokio::spawn(updater.run());
            let stop_after = match stop {
                Some(Stop::Signal(t)) | Some(Stop::Crash(t)) => t,
                // everything is done by then
                None => enough,
            };
            let mut first_error = None;
            let mut late_error = false;
            match timeout(Duration::from_millis(stop_after), frx.recv()).await {
                Ok(Some((name, e))) => {
                    first_error = Some((Instant::now(), name, e.unwrap_or_else(|| "ends".into())))
                }
                Ok(None) => {}
                Err(_) => {}
            }
            let m = heights.map(|h| *h.borrow()).unwrap_or_default();
            let latest = node.lock().unwrap().latest;
            if first_error.is_none() && matches!(stop, Some(Stop::Crash(_))) {
                return Outcome { state: None, first_error, late_error, stuck: false, monitor: (m, latest) };
            }
            token.cancel();
            let done = async {
                for t in tasks {
                    let _ = t.await;
                }
                updating.await
            };
            let r = timeout(Duration::from_millis(60_000), done).await;
            grow.abort();
            // a task that failed while the others were being stopped
            while let Ok((name, e)) = frx.try_recv() {
                late_error |= e.is_some() && name == "event processor";
            }
            match r {
                Ok(Ok(s)) => Outcome { state: Some(s), first_error, late_error, stuck: false, monitor: (m, latest) },
                _ => Outcome { state: None, first_error, late_error, stuck: true, monitor: (m, latest) },
            }
        });
        drop(rt);
        let node_failed = node.lock().unwrap().failed;
        let handler_failed = *failed.lock().unwrap();
        src.note(|| {
            format!(
                "  {:?}, state {:?}, handled {:?}",
                out.first_error.as_ref().map(|e| (e.1, e.2.chars().take(200).collect::<String>())),
                out.state.as_ref().map(|s| handlers.iter().map(|h| s.handler_block_height(h).map(|x| x.value())).collect::<Vec<_>>()),
                seen.iter().map(|s| s.lock().unwrap().len()).collect::<Vec<_>>()
            )
        });
        ensure!(!out.stuck, "the worker does not stop");
        // the events that every handler has to see, one after the other
        let mut starts = vec![];
        for (i, name) in handlers.iter().enumerate() {
            let s = seen[i].lock().unwrap().clone();
            let done = before.handler_block_height(name).map(|h| h.value());
            if let Some(Seen::Begin(h)) = s.first() {
                starts.push(*h);
                match (done, before.min_handler_block_height()) {
                    (Some(d), _) => ensure!(*h == d + 1, "{name} has completed block {d} and goes on with {h}"),
                    // a new handler
                    (None, Some(m)) => ensure!(*h == m.value() + 1, "{name} starts at {h}, the others have completed {}", m.value()),
                    (None, None) => ensure!(*h >= start_latest.saturating_sub(6), "{name} starts at {h}, the chain was at {start_latest}"),
                }
                let mut want = vec![];
                for b in *h..=last {
                    want.push(Seen::Begin(b));
                    want.extend(blocks[(b - first) as usize].all().into_iter().map(Seen::E));
                    want.push(Seen::End(b));
                    if want.len() >= s.len() {
                        break;
                    }
                }
                ensure!(want.starts_with(&s), "{name} handles {s:?} instead of {want:?}");
            } else {
                ensure!(s.is_empty(), "{name} starts in the middle of a block: {s:?}");
            }
            let completed = s.iter().rev().find_map(|e| if let Seen::End(h) = e { Some(*h) } else { None }).or(done);
            if let Some(st) = &out.state {
                let got = st.handler_block_height(name).map(|h| h.value());
                ensure!(got == completed, "{name} has completed block {completed:?}, the state says {got:?}");
            }
            if out.first_error.is_none() && handler_failed.is_none() && capacity == 4096 && out.state.is_some() {
                ensure!(matches!(s.last(), None | Some(Seen::End(_))), "{name} stops in the middle of a block without an error: {:?}", s.last());
            }
            if s.len() > 20 {
                src.class("many events");
            }
        }
        if let (Some(st), true) = (&out.state, true) {
            for name in names {
                if !handlers.contains(&name) {
                    ensure!(st.handler_block_height(name) == before.handler_block_height(name), "the state of {name}, which does not run, changes");
                }
            }
        }
        // without faults there is no error, and nothing is left behind
        let lossy = capacity < 4096;
        match &out.first_error {
            Some((_, name, e)) => {
                ensure!(node_failed || handler_failed.is_some() || lossy, "{name} ends without a fault: {e}");
                src.class("error");
            }
            None => {
                ensure!(handler_failed.is_none() || out.late_error, "the failure of a handler goes unnoticed");
                if stop.is_none() {
                    for (i, name) in handlers.iter().enumerate() {
                        let s = seen[i].lock().unwrap();
                        let e = s.iter().rev().find_map(|e| if let Seen::End(h) = e { Some(*h) } else { None });
                        let e = e.or(before.handler_block_height(name).map(|h| h.value()));
                        // a new handler starts after what the others have completed
                        let nothing = before.min_handler_block_height().map_or(false, |m| m.value() == last);
                        ensure!(e == Some(last) || (e.is_none() && nothing), "{name} has completed {e:?}, the chain is at {last}");
                    }
                    ensure!(out.monitor.0 == out.monitor.1, "the worker believes that Axelar is at {}, it is at {}", out.monitor.0, out.monitor.1);
                    src.class("caught up");
                }
                ok_sessions += 1;
            }
        }
        if let (Some(t), Some((e, name, _))) = (handler_failed, &out.first_error) {
            ensure!(e.saturating_duration_since(t) <= Duration::from_millis(1000), "a failed handler is reported after {:?} ({name})", e.saturating_duration_since(t));
        }
        // what a restart finds is what was written
        if let Some(st) = out.state {
            if si % 2 == 0 {
                if crate::state::flush(&st, &path).is_err() {
                    return abandon();
                }
                let l = crate::state::load(&path);
                let same = l.as_ref().map_or(false, |l| *l == st);
                let _ = std::fs::remove_file(&path);
                ensure!(same, "state {st:?} is read back as {l:?}");
            }
            saved = st;
        } else {
            src.class("crash");
        }
        if si > 0 && ok_sessions > 0 && seen.iter().all(|s| s.lock().unwrap().len() > 3) {
            src.nontrivial();
        }
    }
    Ok(())
}
