//! Runs generated-input checks: seeding, sharding, shrinking, replay files, evidence.

use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use crate::current::Running;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU32, Ordering};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)+) => { if !($c) { return Err(format!($($t)+)); } };
}
#[macro_export]
macro_rules! fail {
    ($($t:tt)+) => { return Err(format!($($t)+)) };
}

/// Per case / per shard coverage accounting.
#[derive(Default, Clone)]
pub struct Cov {
    pub labels: BTreeMap<String, u64>,
    nontrivial: bool,
    trivial_veto: bool,
}

impl Cov {
    pub fn label(&mut self, l: impl Into<String>) {
        *self.labels.entry(l.into()).or_default() += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l);
        }
    }
    pub fn add(&mut self, l: &str, n: u64) {
        *self.labels.entry(l.into()).or_default() += n;
    }
    /// Marks the current case as non trivial
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn require(&mut self, c: bool) {
        self.trivial_veto |= !c;
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub seed: u64,
    pub tier: Tier,
    pub property: &'static str,
    /// No cases are started after this
    pub deadline: Option<std::time::Instant>,
}

/// Payload of panics raised on purpose by the harness to report a violation from within a callback.
pub struct HarnessViolation(pub String);

/// Outcome of a single executed case
pub enum Outcome {
    Ok,
    Violation(String),
    HarnessError(String),
}

static MESSAGE_FD: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(2);

pub fn set_message_fd(fd: i32) {
    MESSAGE_FD.store(fd, Ordering::SeqCst);
}

/// Progress message to the original stderr
pub fn message(text: &str) {
    let line = format!("{text}\n");
    unsafe {
        libc::write(MESSAGE_FD.load(Ordering::SeqCst), line.as_ptr().cast(), line.len());
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        LAST_PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((loc, msg));
            }
        });
    }));
}

/// Runs a closure, turning panics of the code under test to violations.
pub fn guarded(f: impl FnOnce() -> Res) -> Outcome {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(e)) => Outcome::Violation(e),
        Err(payload) => {
            if let Some(v) = payload.downcast_ref::<HarnessViolation>() {
                return Outcome::Violation(v.0.clone());
            }
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            // Relative path: file of this crate
            if loc.starts_with("src/") || loc.contains("/verif/harness/") || loc.contains("harness/src/") {
                // What the library returned broke the check, unless it's the environment
                if msg.contains("os error") {
                    Outcome::HarnessError(format!("harness panicked at {loc}: {msg}"))
                } else {
                    Outcome::Violation(format!("the check could not cope with what the library did: panic at {loc}: {msg}"))
                }
            } else {
                Outcome::Violation(format!("panic at {loc}: {msg}"))
            }
        }
    }
}

/// One generated check.
pub struct Part<C: 'static> {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strat: fn(&Ctx) -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Cov) -> Res,
}

pub struct PartResult {
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<(Value, String)>,
    pub error: Option<String>,
    /// Cases not run for lack of time
    pub skipped: u64,
}

pub trait DynPart: Sync + Send {
    fn name(&self) -> &'static str;
    fn run(&self, ctx: &Ctx) -> PartResult;
    fn replay(&self, property: &str, case: &Value) -> Outcome;
    /// Drives the generator by external (fuzzer provided) bytes. Returns the case and what happened.
    fn fuzz(&self, ctx: &Ctx, data: &[u8]) -> Option<(Value, Outcome)>;
}

impl<C> DynPart for Part<C>
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn replay(&self, property: &str, case: &Value) -> Outcome {
        match serde_json::from_value::<C>(case.clone()) {
            Ok(c) => {
                let copy = case.clone();
                let _running = Running::start(property, self.name, Box::new(move || copy.clone()));
                let mut cov = Cov::default();
                guarded(|| (self.check)(&c, &mut cov))
            }
            Err(e) => Outcome::HarnessError(format!("cannot parse case: {e}")),
        }
    }

    fn fuzz(&self, ctx: &Ctx, data: &[u8]) -> Option<(Value, Outcome)> {
        let rng = TestRng::from_seed(RngAlgorithm::PassThrough, data);
        let mut runner = TestRunner::new_with_rng(
            Config {
                failure_persistence: None,
                ..Config::default()
            },
            rng,
        );
        let tree = (self.strat)(ctx).new_tree(&mut runner).ok()?;
        let c = proptest::strategy::ValueTree::current(&tree);
        let mut cov = Cov::default();
        let o = guarded(|| (self.check)(&c, &mut cov));
        Some((serde_json::to_value(&c).ok()?, o))
    }

    fn run(&self, ctx: &Ctx) -> PartResult {
        const SHARDS: u32 = 16;
        let total = match ctx.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let scale: f64 = std::env::var("ZV_SCALE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1.0);
        let total = ((f64::from(total) * scale) as u32).max(1);
        let shards = SHARDS.min(total);
        let next = AtomicU32::new(0);
        let lowest_failed = AtomicU32::new(u32::MAX);
        let results: Mutex<BTreeMap<u32, ShardResult>> = Mutex::new(BTreeMap::new());
        let threads = std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(4)
            .clamp(1, 16)
            .min(shards as usize);

        std::thread::scope(|s| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        loop {
                            let shard = next.fetch_add(1, Ordering::SeqCst);
                            if shard >= shards {
                                break;
                            }
                            if shard > lowest_failed.load(Ordering::SeqCst) {
                                break;
                            }
                            let cases = total / shards + u32::from(shard < total % shards);
                            let r = self.run_shard(ctx, shard, cases, &lowest_failed);
                            results.lock().unwrap().insert(shard, r);
                        }
                    })
                    .expect("spawn");
            }
        });

        let results = results.into_inner().unwrap();
        let mut out = PartResult {
            evaluations: 0,
            distinct_nontrivial: 0,
            labels: BTreeMap::new(),
            samples: Vec::new(),
            failure: None,
            error: None,
            skipped: 0,
        };
        let mut distinct = HashSet::new();
        for (_, r) in results {
            out.evaluations += r.evaluations;
            out.skipped += r.skipped;
            distinct.extend(r.distinct);
            for (k, v) in r.labels {
                *out.labels.entry(k).or_default() += v;
            }
            if out.samples.len() < 3 {
                out.samples.extend(r.sample);
            }
            if out.failure.is_none() {
                out.failure = r.failure;
            }
            if out.error.is_none() {
                out.error = r.error;
            }
        }
        out.distinct_nontrivial = distinct.len() as u64;
        out
    }
}

#[derive(Default)]
struct ShardResult {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    sample: Option<Value>,
    failure: Option<(Value, String)>,
    error: Option<String>,
    skipped: u64,
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    h
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl<C> Part<C>
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static,
{
    fn run_shard(
        &self,
        ctx: &Ctx,
        shard: u32,
        cases: u32,
        lowest_failed: &AtomicU32,
    ) -> ShardResult {
        const CHUNK: u32 = 1000;
        let base = mix(
            mix(ctx.seed) ^ fnv(ctx.property.as_bytes()) ^ fnv(self.name.as_bytes()).rotate_left(17)
                ^ (u64::from(shard) << 48),
        );
        let r = RefCell::new(ShardResult::default());
        let failed = std::cell::Cell::new(false);
        let strat = (self.strat)(ctx).no_shrink_if_disabled();
        let body = |c: C| {
            if !failed.get() && lowest_failed.load(Ordering::Relaxed) < shard {
                // A lower shard has failed already, the result of this one is irrelevant
                return Ok(());
            }
            if !failed.get() && ctx.deadline.is_some_and(|d| std::time::Instant::now() > d) {
                r.borrow_mut().skipped += 1;
                return Ok(());
            }
            let mut cov = Cov::default();
            let copy = c.clone();
            let running = Running::start(
                ctx.property,
                self.name,
                Box::new(move || serde_json::to_value(&copy).unwrap_or(Value::Null)),
            );
            let o = guarded(|| (self.check)(&c, &mut cov));
            drop(running);
            if !failed.get() {
                let mut r = r.borrow_mut();
                r.evaluations += 1;
                for (k, v) in &cov.labels {
                    *r.labels.entry(k.clone()).or_default() += v;
                }
                if cov.nontrivial && !cov.trivial_veto {
                    let js = serde_json::to_vec(&c).unwrap_or_default();
                    let fresh = r.distinct.insert(fnv(&js));
                    if fresh && js.len() < 6000 && (r.sample.is_none() || js.len() < 300) {
                        let keep = match &r.sample {
                            None => true,
                            // prefer medium sized, readable samples
                            Some(s) => s.to_string().len() < js.len(),
                        };
                        if keep {
                            r.sample = serde_json::from_slice(&js).ok();
                        }
                    }
                }
            }
            match o {
                Outcome::Ok => Ok(()),
                Outcome::Violation(m) => {
                    failed.set(true);
                    lowest_failed.fetch_min(shard, Ordering::SeqCst);
                    Err(TestCaseError::fail(m))
                }
                Outcome::HarnessError(m) => {
                    if !failed.get() {
                        failed.set(true);
                        lowest_failed.fetch_min(shard, Ordering::SeqCst);
                    }
                    let mut r = r.borrow_mut();
                    if r.error.is_none() {
                        r.error = Some(format!("{m}; case {}", serde_json::to_string(&c).unwrap_or_default()));
                    }
                    Err(TestCaseError::fail(format!("harness error {m}")))
                }
            }
        };
        let mut outcome = Ok(());
        let mut done = 0;
        while done < cases && outcome.is_ok() {
            let n = CHUNK.min(cases - done);
            let late = ctx.deadline.is_some_and(|d| std::time::Instant::now() > d);
            if late || lowest_failed.load(Ordering::Relaxed) < shard {
                r.borrow_mut().skipped += u64::from(cases - done);
                break;
            }
            let mut seed = [0u8; 32];
            for i in 0..4u64 {
                let k = base.wrapping_add(i).wrapping_add(u64::from(done / CHUNK) << 24);
                seed[i as usize * 8..][..8].copy_from_slice(&mix(k).to_le_bytes());
            }
            let config = Config {
                cases: n,
                failure_persistence: None,
                max_shrink_iters: 3000,
                max_shrink_time: 60_000,
                max_global_rejects: 1_000_000,
                max_local_rejects: 1_000_000,
                ..Config::default()
            };
            let mut runner =
                TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
            outcome = runner.run(&strat, &body);
            done += n;
        }
        let mut r = r.into_inner();
        match outcome {
            Ok(()) => {}
            Err(TestError::Fail(reason, c)) => {
                if r.error.is_none() {
                    r.failure = Some((
                        serde_json::to_value(&c).unwrap_or(Value::Null),
                        reason.message().to_string(),
                    ));
                }
            }
            Err(TestError::Abort(reason)) => {
                r.error = Some(format!("generator aborted: {}", reason.message()));
            }
        }
        r
    }
}

/// Trick to keep `run_shard` readable; hook for disabling shrinking while debugging.
trait NoShrink: Strategy + Sized {
    fn no_shrink_if_disabled(self) -> BoxedStrategy<Self::Value>
    where
        Self: 'static,
    {
        if std::env::var_os("ZV_NO_SHRINK").is_some() {
            self.no_shrink().boxed()
        } else {
            self.boxed()
        }
    }
}
impl<S: Strategy> NoShrink for S {}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Box<dyn DynPart>>,
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("ZV_DIR")
        .map(Into::into)
        .unwrap_or_else(|| "/verif".into())
}

pub fn write_replay(prop: &str, part: &str, case: &Value, message: &str) -> std::path::PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let body = json!({"property": prop, "part": part, "case": case, "message": message});
    let text = serde_json::to_string_pretty(&body).unwrap();
    let path = dir.join(format!("{prop}-{part}-{:08x}.json", fnv(case.to_string().as_bytes()) as u32));
    let _ = std::fs::write(&path, text);
    path
}

/// Runs all parts of a property, writes evidence. Returns the process exit code.
pub fn run_property(p: &Property, ctx: &Ctx) -> i32 {
    let start = std::time::Instant::now();
    let mut evaluations = 0;
    let mut distinct = 0;
    let mut samples = Vec::new();
    let mut classes = serde_json::Map::new();
    let mut failure: Option<std::path::PathBuf> = None;
    let mut error = None;
    let mut corpus_replayed = 0;

    // Replay tier: saved minimal inputs
    let corpus = verif_dir().join("corpus").join(p.id);
    if let Ok(rd) = std::fs::read_dir(&corpus) {
        let mut files: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        files.sort();
        for f in files {
            match replay_file_with(&f, std::slice::from_ref(p)) {
                Ok((Outcome::Ok, _)) => corpus_replayed += 1,
                Ok((Outcome::Violation(m), _)) => {
                    println!("saved input {}: {m}", f.display());
                    failure = Some(f);
                    break;
                }
                Ok((Outcome::HarnessError(m), _)) | Err(m) => {
                    error = Some(format!("saved input {}: {m}", f.display()));
                    break;
                }
            }
        }
    }

    if failure.is_none() && error.is_none() {
        for (index, part) in p.parts.iter().enumerate() {
            if let Ok(only) = std::env::var("ZV_PART") {
                if only != part.name() {
                    continue;
                }
            }
            let t = std::time::Instant::now();
            // What is left is divided to the remaining parts
            let now = std::time::Instant::now();
            let deadline = ctx.deadline.map(|d| now + d.saturating_duration_since(now) / (p.parts.len() - index) as u32);
            let r = part.run(&Ctx { deadline, ..*ctx });
            message(&format!(
                "{} {}: {} cases, {} distinct non-trivial, {:.1}s",
                p.id,
                part.name(),
                r.evaluations,
                r.distinct_nontrivial,
                t.elapsed().as_secs_f64()
            ));
            evaluations += r.evaluations;
            distinct += r.distinct_nontrivial;
            for s in r.samples {
                samples.push(json!({"part": part.name(), "case": s}));
            }
            classes.insert(
                part.name().to_string(),
                json!({"cases": r.evaluations, "distinct_nontrivial": r.distinct_nontrivial, "labels": r.labels, "skipped_for_lack_of_time": r.skipped}),
            );
            if let Some(e) = r.error {
                error = Some(e);
                break;
            }
            if let Some((case, msg)) = r.failure {
                let path = write_replay(p.id, part.name(), &case, &msg);
                println!("{}: {msg}", part.name());
                failure = Some(path);
                break;
            }
        }
    }

    let evidence = json!({
        "property": p.id,
        "tier": if ctx.tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": p.rule,
            "samples": samples,
            "classes": classes,
            "saved_inputs_replayed": corpus_replayed,
        },
        "assumptions": p.assumptions,
        "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": i32::from(failure.is_some()),
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(
        dir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&evidence).unwrap(),
    ) {
        error = Some(format!("cannot write evidence: {e}"));
    }

    if let Some(path) = failure {
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    if let Some(e) = error {
        println!("ERROR {e}");
        return 2;
    }
    println!("OK property={} cases={evaluations} nontrivial={distinct}", p.id);
    0
}

pub fn replay_file_with(
    path: &std::path::Path,
    props: &[Property],
) -> Result<(Outcome, String), String> {
    let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    let v: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    let pid = v["property"].as_str().unwrap_or_default();
    let part = v["part"].as_str().unwrap_or_default();
    for p in props {
        if p.id == pid {
            for q in &p.parts {
                if q.name() == part {
                    return Ok((q.replay(pid, &v["case"]), pid.to_string()));
                }
            }
        }
    }
    Err(format!("no such property / part: {pid} / {part}"))
}
