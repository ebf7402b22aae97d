//! A small property-based testing engine (Hypothesis-style).
//!
//! Every random decision of a case is drawn through [`Src`] and recorded on a *tape* of bounded
//! integers.  A case is therefore a pure function of its tape: generators may look at the state of
//! the model while generating (stateful testing), and shrinking works on the tape (delete spans,
//! zero, reduce values) without any per-type shrinker.  The tape is what goes into a replay file.

use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

use rand_chacha::ChaCha8Rng;
use rand_core::{RngCore, SeedableRng};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Fail {
    pub msg: String,
    /// signature of a (possible) known finding: the specific input class / call site that fails
    pub sig: Option<String>,
}

pub type R<T = ()> = Result<T, Fail>;

pub fn fail<T>(msg: impl Into<String>) -> R<T> {
    Err(Fail {
        msg: msg.into(),
        sig: None,
    })
}

pub fn fail_sig<T>(sig: &str, msg: impl Into<String>) -> R<T> {
    Err(Fail {
        msg: msg.into(),
        sig: Some(sig.to_string()),
    })
}

/// The case left the territory of this property (another property's obligation failed, so the model
/// cannot follow any more): it is dropped and counted as an abandoned, trivial case.
#[track_caller]
pub fn abandon<T>() -> R<T> {
    if std::env::var_os("PBT_ABANDON").is_some() {
        eprintln!("abandoned at {}", std::panic::Location::caller());
    }
    fail_sig(ABANDON, "abandoned")
}
pub const ABANDON: &str = "__abandon";

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !$c { return Err($crate::engine::Fail { msg: format!($($arg)*), sig: None }); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(a == b) {
            return Err($crate::engine::Fail {
                msg: format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b), sig: None });
        }
    }};
}

/// A condition owned by the properties in `bits`: fails the case if one of them is in focus,
/// otherwise abandons it.
#[macro_export]
macro_rules! own {
    ($s:expr, $bits:expr, $c:expr, $($arg:tt)*) => {
        if !$c {
            if $s.focus & ($bits) != 0 { return $crate::engine::fail(format!($($arg)*)); }
            return $crate::engine::abandon();
        }
    };
}

enum Mode {
    Random(ChaCha8Rng),
    Replay(Vec<u64>),
}

pub struct Src {
    mode: Mode,
    pub tape: Vec<u64>,
    spans: Vec<(usize, usize)>,
    pub log: Vec<String>,
    pub logging: bool,
    pub classes: BTreeMap<&'static str, u64>,
    nontrivial: bool,
    digest: std::collections::hash_map::DefaultHasher,
}

const MAX_TAPE: usize = 200_000;

impl Src {
    pub fn random(seed: [u8; 32], logging: bool) -> Self {
        Self::new(Mode::Random(ChaCha8Rng::from_seed(seed)), logging)
    }
    pub fn replay(tape: Vec<u64>, logging: bool) -> Self {
        Self::new(Mode::Replay(tape), logging)
    }
    fn new(mode: Mode, logging: bool) -> Self {
        Src {
            mode,
            tape: vec![],
            spans: vec![],
            log: vec![],
            logging,
            classes: BTreeMap::new(),
            nontrivial: false,
            digest: Default::default(),
        }
    }

    /// uniform in [0, n); n == 0 means the full u64 range
    pub fn below(&mut self, n: u64) -> u64 {
        let pos = self.tape.len();
        let v = if pos >= MAX_TAPE {
            0
        } else {
            match &mut self.mode {
                Mode::Random(r) => {
                    let x = r.next_u64();
                    if n == 0 {
                        x
                    } else {
                        ((x as u128 * n as u128) >> 64) as u64
                    }
                }
                Mode::Replay(t) => {
                    let x = t.get(pos).copied().unwrap_or(0);
                    if n == 0 {
                        x
                    } else {
                        x.min(n - 1)
                    }
                }
            }
        };
        self.tape.push(v);
        v
    }
    /// inclusive range
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        if lo == 0 && hi == u64::MAX {
            return self.below(0);
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn idx(&mut self, len: usize) -> usize {
        self.below(len as u64) as usize
    }
    /// a size: 1 to usual, now and then up to large
    pub fn size(&mut self, usual: usize, large: usize) -> usize {
        if self.chance(1, 60) {
            usual + 1 + self.idx(large - usual)
        } else {
            1 + self.idx(usual)
        }
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        let i = self.idx(s.len());
        &s[i]
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    /// index by weights, shrinks towards index 0
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, wi) in w.iter().enumerate() {
            if x < *wi {
                return i;
            }
            x -= wi;
        }
        w.len() - 1
    }
    /// number of iterations: between min and max, geometric-ish with mean about avg
    pub fn more(&mut self, done: usize, min: usize, max: usize, avg: u64) -> bool {
        if done >= max {
            return false;
        }
        let c = self.below(avg + 1) != 0;
        done < min || c
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n);
        while out.len() < n {
            let w = self.below(0);
            for b in w.to_le_bytes() {
                if out.len() < n {
                    out.push(b);
                }
            }
        }
        out
    }
    pub fn bytes32(&mut self) -> [u8; 32] {
        // small families so that equal hashes are common as well
        match self.below(3) {
            0 => [self.below(4) as u8; 32],
            _ => {
                let v = self.bytes(32);
                v.try_into().unwrap()
            }
        }
    }
    /// u64 biased to small values, boundaries, powers of two
    pub fn u64_any(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(4),
            1 => self.below(100),
            2 => self.below(1_000_000),
            3 => {
                let s = self.below(64);
                let d = self.below(3);
                (1u64 << s).wrapping_add(d).wrapping_sub(1)
            }
            4 => u64::MAX - self.below(3),
            _ => self.below(0),
        }
    }
    pub fn u128_any(&mut self) -> u128 {
        match self.below(5) {
            0 => self.below(100) as u128,
            1 => self.u64_any() as u128,
            2 => {
                let s = self.below(128);
                let d = self.below(3) as u128;
                (1u128 << s).wrapping_add(d).wrapping_sub(1)
            }
            3 => u128::MAX - self.below(3) as u128,
            _ => ((self.below(0) as u128) << 64) | self.below(0) as u128,
        }
    }
    /// run `f` as one span (a unit that the shrinker tries to delete as a whole)
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Src) -> T) -> T {
        let s = self.tape.len();
        let r = f(self);
        self.spans.push((s, self.tape.len()));
        r
    }
    /// repeat an operation between min and max times; each repetition (with its decision to go on)
    /// is one span, so that the shrinker can delete it as a whole
    pub fn repeat(&mut self, min: usize, max: usize, avg: u64, mut f: impl FnMut(&mut Src, usize) -> R) -> R {
        let mut i = 0;
        loop {
            let go = self.span(|s| -> R<bool> {
                if !s.more(i, min, max, avg) {
                    return Ok(false);
                }
                f(s, i)?;
                Ok(true)
            })?;
            if !go {
                return Ok(());
            }
            i += 1;
        }
    }
    /// shuffle in place
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.idx(i + 1); // shrinks to identity
            v.swap(i, j);
        }
    }
    /// a random subset (each element with probability num/den)
    pub fn subset<T: Clone>(&mut self, v: &[T], num: u64, den: u64) -> Vec<T> {
        let mut out = vec![];
        for x in v {
            if self.chance(num, den) {
                out.push(x.clone());
            }
        }
        out
    }

    // ---- reporting
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.logging {
            let s = f();
            self.log.push(s);
        }
    }
    /// feed the identity of the case (used to count distinct cases)
    pub fn ident(&mut self, v: impl Debug) {
        format!("{v:?}").hash(&mut self.digest);
    }
    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_default() += 1;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    fn id_hash(&self) -> u64 {
        // distinctness is judged on what was drawn
        let mut d = self.digest.clone();
        self.tape.hash(&mut d);
        d.finish()
    }
}

pub type CaseFn = fn(&mut Src) -> R;

#[derive(Clone)]
pub struct Sub {
    pub name: &'static str,
    pub f: CaseFn,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    /// directed reproductions of known findings: (signature, case)
    pub known: Vec<(&'static str, fn() -> R)>,
}

thread_local! {
    static QUIET: Cell<bool> = Cell::new(false);
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let text = format!("panic at {loc}: {m}");
        LAST_PANIC.with(|p| *p.borrow_mut() = text.clone());
        if !QUIET.with(|q| q.get()) {
            eprintln!("{text}");
        }
    }));
}

/// Runs code under test; a panic (which aborts the transaction on chain) becomes Err(text).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn run_case(f: CaseFn, src: &mut Src) -> R {
    match guard(|| f(src)) {
        Ok(Err(e)) if e.sig.as_deref() == Some(ABANDON) => {
            src.class("abandoned");
            src.nontrivial = false;
            Ok(())
        }
        Ok(r) => r,
        Err(p) => fail(format!("unexpected {p}")),
    }
}

fn seed_for(seed: u64, prop: &str, sub: &str, i: u64) -> [u8; 32] {
    use sha3::{Digest, Keccak256};
    let mut h = Keccak256::new();
    h.update(seed.to_be_bytes());
    h.update(prop.as_bytes());
    h.update([0]);
    h.update(sub.as_bytes());
    h.update([0]);
    h.update(i.to_be_bytes());
    h.finalize().into()
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: BTreeSet<u64>,
    classes: BTreeMap<String, u64>,
    known_hits: BTreeMap<String, u64>,
    samples: Vec<(u64, Vec<String>)>,
    failure: Option<(u64, Vec<u64>, Vec<(usize, usize)>, Fail)>,
}

pub struct Outcome {
    pub violation: Option<Violation>,
    pub evidence: serde_json::Value,
    pub known_lines: Vec<String>,
}

pub struct Violation {
    pub sub: String,
    pub tape: Vec<u64>,
    pub msg: String,
    pub log: Vec<String>,
}

#[derive(Clone)]
pub struct Known {
    pub property: String,
    pub signature: String,
    pub what: String,
}

fn shrink(f: CaseFn, tape: Vec<u64>, spans: Vec<(usize, usize)>, fail0: Fail) -> (Vec<u64>, Fail) {
    let start = std::time::Instant::now();
    let limit = std::time::Duration::from_secs(60);
    let mut best = tape;
    let mut best_spans = spans;
    let mut best_fail = fail0;
    let mut evals = 0u64;
    fn better(a: &[u64], b: &[u64]) -> bool {
        (a.len(), a) < (b.len(), b)
    }
    // returns true if candidate accepted
    macro_rules! attempt {
        ($cand:expr) => {{
            let mut ok = false;
            if evals < 20_000 && start.elapsed() < limit {
                evals += 1;
                let mut s = Src::replay($cand, false);
                if let Err(e) = run_case(f, &mut s) {
                    if e.sig == best_fail.sig && better(&s.tape, &best) {
                        best = std::mem::take(&mut s.tape);
                        best_spans = std::mem::take(&mut s.spans);
                        best_fail = e;
                        ok = true;
                    }
                }
            }
            ok
        }};
    }
    let _ = attempt!(best.clone()); // normalise
    loop {
        let mut improved = false;
        // delete spans, largest first
        let mut spans: Vec<_> = best_spans.clone();
        spans.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
        for (a, b) in spans {
            if b <= best.len() && a < b {
                let mut c = best.clone();
                c.drain(a..b);
                if attempt!(c) {
                    improved = true;
                }
            }
        }
        // delete blocks
        let mut size = 32usize;
        while size >= 1 {
            let mut i = best.len();
            while i >= size {
                let mut c = best.clone();
                c.drain(i - size..i);
                if attempt!(c) {
                    improved = true;
                    i = i.min(best.len());
                } else {
                    i -= 1;
                }
                if i < size {
                    break;
                }
            }
            size /= 2;
        }
        // reduce values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if attempt!(c) {
                    improved = true;
                } else {
                    // binary search the smallest failing value (heuristic)
                    let (mut lo, mut hi) = (0u64, v);
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) {
                            improved = true;
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        if attempt!(c) {
                            improved = true;
                        }
                    }
                }
            }
            i += 1;
        }
        if !improved || evals >= 20_000 || start.elapsed() >= limit {
            break;
        }
    }
    (best, best_fail)
}

pub fn run_check(check: &Check, seed: u64, thorough: bool, scale: f64, known: &[Known], only: Option<&str>) -> Outcome {
    let known: Vec<&Known> = known.iter().filter(|k| k.property == check.id).collect();
    let mut total = Stats::default();
    let mut per_sub = serde_json::Map::new();
    let mut violation = None;
    // a slow machine cuts the exploration short rather than the answer
    let budget = std::time::Duration::from_secs_f64(
        std::env::var("PBT_BUDGET_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { 3.0 * 3600.0 } else { 420.0 })
            / check.subs.len().max(1) as f64,
    );
    for sub in &check.subs {
        if only.map(|o| o != sub.name).unwrap_or(false) {
            continue;
        }
        let t0 = std::time::Instant::now();
        let n = ((if thorough { sub.thorough } else { sub.quick }) as f64 * scale).ceil() as u64;
        let next = AtomicU64::new(0);
        let stop_at = AtomicU64::new(u64::MAX);
        let stats = Mutex::new(Stats::default());
        let threads = std::thread::available_parallelism()
            .map(|x| x.get())
            .unwrap_or(4)
            .min(8);
        let sample_at: BTreeSet<u64> = (0..40).map(|k| n * k / 40).collect();
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || {
                        let mut loc = Stats::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || i > stop_at.load(Ordering::Relaxed) || t0.elapsed() > budget {
                                break;
                            }
                            let logging = sample_at.contains(&i);
                            let mut src =
                                Src::random(seed_for(seed, check.id, sub.name, i), logging);
                            let r = run_case(sub.f, &mut src);
                            loc.evaluations += 1;
                            for (k, v) in &src.classes {
                                *loc.classes.entry(format!("{}/{}", sub.name, k)).or_default() += v;
                            }
                            if src.nontrivial {
                                loc.nontrivial.insert(src.id_hash());
                                if logging && src.log.len() < 200 {
                                    loc.samples.push((i, src.log.clone()));
                                }
                            }
                            if let Err(e) = r {
                                let is_known = e
                                    .sig
                                    .as_ref()
                                    .map(|s| known.iter().any(|k| &k.signature == s))
                                    .unwrap_or(false);
                                if is_known {
                                    *loc.known_hits.entry(e.sig.clone().unwrap()).or_default() += 1;
                                } else {
                                    stop_at.fetch_min(i, Ordering::Relaxed);
                                    if loc.failure.as_ref().map(|f| i < f.0).unwrap_or(true) {
                                        loc.failure = Some((i, src.tape, src.spans, e));
                                    }
                                }
                            }
                        }
                        let mut g = stats.lock().unwrap();
                        g.evaluations += loc.evaluations;
                        g.nontrivial.extend(loc.nontrivial);
                        for (k, v) in loc.classes {
                            *g.classes.entry(k).or_default() += v;
                        }
                        for (k, v) in loc.known_hits {
                            *g.known_hits.entry(k).or_default() += v;
                        }
                        g.samples.extend(loc.samples);
                        if let Some(f) = loc.failure {
                            if g.failure.as_ref().map(|x| f.0 < x.0).unwrap_or(true) {
                                g.failure = Some(f);
                            }
                        }
                    })
                    .expect("spawn");
            }
        });
        let mut st = stats.into_inner().unwrap();
        st.samples.sort_by_key(|s| (s.1.len(), s.0));
        let k = st.samples.len();
        let picks: Vec<_> = if k == 0 {
            vec![]
        } else {
            let mut v = vec![k / 4, k / 2, k * 3 / 4];
            v.dedup();
            v
        };
        per_sub.insert(
            sub.name.to_string(),
            serde_json::json!({
                "evaluations": st.evaluations,
                "distinct_nontrivial": st.nontrivial.len(),
                "wall_s": t0.elapsed().as_secs_f64(),
            }),
        );
        total.evaluations += st.evaluations;
        total.nontrivial.extend(st.nontrivial.iter());
        for (k, v) in st.classes {
            *total.classes.entry(k).or_default() += v;
        }
        for (k, v) in st.known_hits {
            *total.known_hits.entry(k).or_default() += v;
        }
        for p in picks {
            let (i, mut log) = st.samples[p].clone();
            log.insert(0, format!("[{} case {}]", sub.name, i));
            for l in log.iter_mut() {
                if l.len() > 400 {
                    let mut cut = 400;
                    while !l.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    l.truncate(cut);
                    l.push_str("...");
                }
            }
            log.truncate(60);
            total.samples.push((i, log));
        }
        if let Some((_, tape, spans, e)) = st.failure {
            let (tape, _) = shrink(sub.f, tape, spans, e);
            let mut src = Src::replay(tape.clone(), true);
            let e = match run_case(sub.f, &mut src) {
                Err(e) => e,
                Ok(()) => Fail {
                    msg: "shrunk case does not reproduce (non-deterministic)".into(),
                    sig: None,
                },
            };
            violation = Some(Violation {
                sub: sub.name.to_string(),
                tape,
                msg: e.msg,
                log: src.log,
            });
            break;
        }
    }

    // directed reproductions of the known findings
    let mut known_lines = vec![];
    for (sig, f) in &check.known {
        let r = match guard(f) {
            Ok(r) => r,
            Err(p) => fail(format!("unexpected {p}")),
        };
        if let Err(e) = r {
            let listed = known.iter().find(|k| e.sig.as_deref() == Some(k.signature.as_str()));
            match listed {
                Some(k) => known_lines.push(format!(
                    "KNOWN-FINDING: property={} [{}] {}",
                    check.id, k.signature, k.what
                )),
                None => {
                    if violation.is_none() {
                        violation = Some(Violation {
                            sub: format!("known:{sig}"),
                            tape: vec![],
                            msg: e.msg,
                            log: vec![],
                        })
                    }
                }
            }
        }
    }

    let samples: Vec<serde_json::Value> = total
        .samples
        .iter()
        .map(|(_, l)| serde_json::json!(l))
        .collect();
    let evidence = serde_json::json!({
        "evaluations": total.evaluations,
        "distinct_nontrivial": total.nontrivial.len(),
        "rule": check.rule,
        "samples": if samples.is_empty() { vec![serde_json::json!("no non-trivial sample")] } else { samples },
        "classes": total.classes,
        "subchecks": per_sub,
        "known_finding_hits": total.known_hits,
    });
    Outcome {
        violation,
        evidence,
        known_lines,
    }
}

pub fn replay(check: &Check, sub: &str, tape: Vec<u64>) -> Option<(R, Vec<String>)> {
    if let Some(sig) = sub.strip_prefix("known:") {
        let (_, f) = check.known.iter().find(|(s, _)| *s == sig)?;
        return Some((f(), vec![]));
    }
    let s = check.subs.iter().find(|s| s.name == sub)?;
    let mut src = Src::replay(tape, true);
    let r = run_case(s.f, &mut src);
    Some((r, src.log))
}
