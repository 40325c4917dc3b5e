//! Shared runner for the generated-input checks.
//!
//! A check is a program that declares *sub-checks*.  A sub-check is a proptest strategy (the
//! domain), a number of cases, and an oracle `fn(&Input, &mut Obs) -> Result<(), String>`.
//! Every random choice is made by proptest from a seed derived from (VERIF_SEED, sub-check, shard),
//! failures are shrunk by proptest, and the minimal input is written as JSON: the replay file, which
//! `--replay FILE` feeds straight to the oracle, bypassing proptest.
//!
//! The check runs in a child process, so that a stack overflow or an abort in the code under test is
//! seen as what it is; a crash is reported only when replaying one single recorded input crashes again.

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngSeed, TestCaseError, TestError, TestRunner};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::Instant;

pub mod tape;

pub use proptest;
pub use serde;
pub use serde_json;

/// What an oracle tells about the case it has just judged.
#[derive(Default, Debug)]
pub struct Obs {
    nontrivial: bool,
    labels: Vec<&'static str>,
    shown: Option<String>,
}

impl Obs {
    /// What the input stands for, in the samples (for inputs that are choice tapes).
    pub fn show(&mut self, f: impl FnOnce() -> String) {
        if self.shown.is_none() {
            self.shown = Some(f());
        }
    }
    /// This case is non-trivial by the rule of the sub-check.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// Classification counter (at most once per case and label).
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
}

/// `ensure!(cond, "...")`: leave the oracle with a message.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)+) => {
        if !$c { return Err(format!($($arg)+)); }
    };
}

/// `ensure_eq!(a, b, "what")`
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)+) => {
        match (&$a, &$b) {
            (a, b) => {
                if !(*a == *b) {
                    return Err(format!("{}: {:?} != {:?}", format!($($arg)+), a, b));
                }
            }
        }
    };
}

/// A vector whose length is itself drawn from a strategy.
pub fn sized<S>(element: S, len: impl Strategy<Value = usize> + 'static) -> impl Strategy<Value = Vec<S::Value>>
where
    S: Strategy + Clone + 'static,
{
    len.prop_flat_map(move |n| proptest::collection::vec(element.clone(), n))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

enum Mode {
    Run,
    Replay(Box<dyn Fn(&str) -> Option<Value> + Sync>),
}

#[derive(Default)]
struct SubReport {
    name: String,
    rule: String,
    evaluations: u64,
    rejected: u64,
    distinct_nontrivial: u64,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
}

pub struct Failure {
    pub sub: String,
    pub message: String,
    pub input: Value,
}

/// One property being checked.
pub struct Check {
    property: &'static str,
    tier: Tier,
    seed: u64,
    mode: Mode,
    only: Option<String>,
    reports: Vec<SubReport>,
    failures: Vec<Failure>,
    replayed: u64,
    threads: usize,
    /// Multiplies the number of cases of every `sub` of this program, in the quick tier.
    scale: u32,
    trace: Option<PathBuf>,
    assumptions: Vec<String>,
    known: Vec<KnownFinding>,
    known_hit: BTreeMap<String, u64>,
}

#[derive(serde::Deserialize, Clone, Debug)]
struct KnownFinding {
    property: String,
    signature: String,
    what: String,
}

const STACK: usize = 256 << 20;

type Watched = (Instant, &'static str, String, Value);
static WATCH: Mutex<BTreeMap<u64, Watched>> = Mutex::new(BTreeMap::new());
static WATCH_ID: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// One case takes microseconds to a few seconds; one that takes this long does not come to an end.
const HANG_S: u64 = 150;
thread_local! {
    static MY_WATCH: u64 = WATCH_ID.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
}

fn watch(case: Option<(&'static str, String, Value)>) {
    let id = MY_WATCH.with(|i| *i);
    let mut w = WATCH.lock().unwrap();
    match case {
        Some((p, s, v)) => {
            w.insert(id, (Instant::now(), p, s, v));
        }
        None => {
            w.remove(&id);
        }
    }
}

fn watchdog(limit: u64) {
    let start = Instant::now();
    loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        if let Some((_, property, sub, input)) = WATCH.lock().unwrap().values().find(|w| w.0.elapsed().as_secs() > HANG_S) {
            let p = replay_dir().join(format!("{property}-{sub}-hang.json"));
            let _ = std::fs::write(&p, replay_doc(property, sub, "does not come to an end", input.clone()).to_string());
            println!("{sub}: one case did not come to an end in {HANG_S} s");
            println!("VIOLATION property={property} replay={}", p.display());
            std::process::exit(1);
        }
        if start.elapsed().as_secs() > limit {
            eprintln!("no answer after {limit} s");
            std::process::exit(2);
        }
    }
}

fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn panic_message(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic with a non-string payload".to_string()
    }
}

thread_local! {
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}

fn shorten(v: Value, budget: usize) -> Value {
    let s = v.to_string();
    if s.len() <= budget {
        v
    } else {
        let mut end = budget;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        Value::String(format!("{}… ({} bytes of JSON)", &s[..end], s.len()))
    }
}

impl Check {
    pub fn tier(&self) -> Tier {
        self.tier
    }
    pub fn seed(&self) -> u64 {
        self.seed
    }
    /// Number by tier.
    pub fn n(&self, quick: u32, thorough: u32) -> u32 {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    fn known_signature(&self, msg: &str) -> Option<String> {
        self.known
            .iter()
            .find(|k| k.property == self.property && !k.signature.is_empty() && msg.contains(&k.signature))
            .map(|k| k.signature.clone())
    }

    /// Run one sub-check in parallel shards over all cores.
    pub fn sub<T, S, P>(&mut self, name: &str, rule: &str, quick: u32, thorough: u32, strategy: impl Fn() -> S + Sync, oracle: P)
    where
        T: Debug + Clone + Serialize + DeserializeOwned + Send + Sync,
        S: Strategy<Value = T>,
        P: Fn(&T, &mut Obs) -> Result<(), String> + Sync,
    {
        self.sub_n(name, rule, quick.saturating_mul(self.scale), thorough, usize::MAX, strategy, oracle)
    }

    /// As `sub`, with at most `max_threads` shards.  1 for oracles that own global state.
    #[allow(clippy::too_many_arguments)]
    pub fn sub_n<T, S, P>(
        &mut self,
        name: &str,
        rule: &str,
        quick: u32,
        thorough: u32,
        max_threads: usize,
        strategy: impl Fn() -> S + Sync,
        oracle: P,
    ) where
        T: Debug + Clone + Serialize + DeserializeOwned + Send + Sync,
        S: Strategy<Value = T>,
        P: Fn(&T, &mut Obs) -> Result<(), String> + Sync,
    {
        if let Some(only) = &self.only {
            if only != name {
                return;
            }
        }
        let judge = |t: &T, obs: &mut Obs| -> Result<(), String> {
            match catch_unwind(AssertUnwindSafe(|| oracle(t, obs))) {
                Ok(r) => r,
                Err(e) => {
                    let at = PANIC_AT.with(|p| p.borrow().clone());
                    Err(format!("panicked at {at}: {}", panic_message(e)))
                }
            }
        };
        if let Mode::Replay(lookup) = &self.mode {
            if let Some(v) = lookup(name) {
                match serde_json::from_value::<T>(v.clone()) {
                    Err(e) => {
                        eprintln!("cannot read the replay input of {name}: {e}");
                        std::process::exit(2);
                    }
                    Ok(t) => {
                        self.replayed += 1;
                        let watched = (self.property, name.to_string(), v.clone());
                        let r = std::thread::scope(|s| {
                            std::thread::Builder::new()
                                .stack_size(STACK)
                                .spawn_scoped(s, || {
                                    watch(Some(watched));
                                    let r = judge(&t, &mut Obs::default());
                                    watch(None);
                                    r
                                })
                                .unwrap()
                                .join()
                                .unwrap()
                        });
                        if let Err(m) = r {
                            self.failures.push(Failure { sub: name.into(), message: m, input: v });
                        }
                    }
                }
            }
            return;
        }

        // Saved inputs first: minimal failures of defects seen before (and repaired).
        let mut report = SubReport { name: name.into(), rule: rule.into(), ..Default::default() };
        for (path, v) in saved_inputs(self.property, name) {
            let t: T = match serde_json::from_value(v.clone()) {
                Ok(t) => t,
                Err(e) => {
                    eprintln!("cannot read {}: {e}", path.display());
                    std::process::exit(2);
                }
            };
            report.evaluations += 1;
            *report.labels.entry("saved input").or_default() += 1;
            if let Err(m) = judge(&t, &mut Obs::default()) {
                match self.known_signature(&m) {
                    Some(k) => *report.known.entry(k).or_default() += 1,
                    None => self.failures.push(Failure { sub: name.into(), message: m, input: v }),
                }
            }
        }

        let cases = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough.max(quick),
        };
        // The shards are fixed by the sub-check, not by the machine: the cases are the same everywhere.
        let shards = 16usize.min(max_threads).min(cases.max(1) as usize);
        let per = cases.div_ceil(shards as u32);
        let next = std::sync::atomic::AtomicUsize::new(0);
        struct Shared {
            seen: HashSet<u64>,
            report: SubReport,
            failures: Vec<(usize, String, Value)>,
        }
        // Once one shard has failed, the others come to an end.
        let stop = std::sync::atomic::AtomicUsize::new(usize::MAX);
        let shared = Mutex::new(Shared { seen: HashSet::new(), report, failures: vec![] });
        let known = |m: &str| self.known_signature(m);
        let seed = self.seed;
        let property = self.property;
        let trace = self.trace.clone();
        std::thread::scope(|scope| {
            for _ in 0..self.threads.min(shards) {
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(scope, || loop {
                        let shard = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if shard >= shards {
                            break;
                        }
                        let shard_seed = hash_of(&(seed, property, name, shard));
                        let mut runner = TestRunner::new(Config {
                            cases: per,
                            failure_persistence: None,
                            rng_seed: RngSeed::Fixed(shard_seed),
                            max_shrink_iters: 20_000,
                            max_shrink_time: 60_000,
                            max_global_rejects: per.saturating_mul(4).saturating_add(1024),
                            ..Config::default()
                        });
                        let failed = RefCell::new(false);
                        let local = RefCell::new(SubReport::default());
                        let seen = RefCell::new(HashSet::<u64>::new());
                        let result = runner.run(&strategy(), |t| {
                            let stopper = stop.load(std::sync::atomic::Ordering::SeqCst);
                            if stopper != usize::MAX && stopper != shard {
                                return Ok(());
                            }
                            let mut obs = Obs::default();
                            let js = serde_json::to_value(&t).ok();
                            if let Some(dir) = &trace {
                                let f = dir.join(format!("{shard}.json"));
                                let _ = std::fs::write(f, replay_doc(property, name, "crash", js.clone().unwrap_or(Value::Null)).to_string());
                            }
                            watch(Some((property, name.to_string(), js.clone().unwrap_or(Value::Null))));
                            let r = judge(&t, &mut obs);
                            watch(None);
                            let r = match r {
                                Err(m) => match known(&m) {
                                    Some(k) => {
                                        *local.borrow_mut().known.entry(k).or_default() += 1;
                                        Ok(())
                                    }
                                    None => Err(m),
                                },
                                ok => ok,
                            };
                            if !*failed.borrow() {
                                let mut l = local.borrow_mut();
                                l.evaluations += 1;
                                for lab in &obs.labels {
                                    *l.labels.entry(lab).or_default() += 1;
                                }
                                if obs.nontrivial {
                                    let h = match &js {
                                        Some(v) => hash_of(&v.to_string()),
                                        None => hash_of(&format!("{t:?}")),
                                    };
                                    if seen.borrow_mut().insert(h) && l.samples.len() < 2 && shard < 2 {
                                        let v = shorten(js.unwrap_or(Value::Null), if obs.shown.is_some() { 120 } else { 700 });
                                        l.samples.push(match obs.shown.take() {
                                            Some(s) => json!([v, shorten(Value::String(s), 900)]),
                                            None => v,
                                        });
                                    }
                                }
                            }
                            r.map_err(|m| {
                                if !failed.replace(true) {
                                    let o = std::sync::atomic::Ordering::SeqCst;
                                    let _ = stop.compare_exchange(usize::MAX, shard, o, o);
                                }
                                TestCaseError::fail(m)
                            })
                        });
                        let mut sh = shared.lock().unwrap();
                        let l = local.into_inner();
                        sh.report.evaluations += l.evaluations;
                        for (k, v) in l.labels {
                            *sh.report.labels.entry(k).or_default() += v;
                        }
                        for (k, v) in l.known {
                            *sh.report.known.entry(k).or_default() += v;
                        }
                        sh.seen.extend(seen.into_inner());
                        sh.report.samples.extend(l.samples);
                        match result {
                            Ok(()) => {}
                            Err(TestError::Fail(m, t)) => {
                                let v = serde_json::to_value(&t).unwrap_or(Value::Null);
                                // The message of the minimal input, not that of the first one.
                                let msg = match judge(&t, &mut Obs::default()) {
                                    Err(m) => m,
                                    Ok(()) => format!("(did not fail when run again) {m}"),
                                };
                                sh.failures.push((shard, msg, v));
                            }
                            Err(TestError::Abort(m)) => {
                                eprintln!("sub-check {name}: generation gave up: {m}");
                                std::process::exit(2);
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let mut sh = shared.into_inner().unwrap();
        sh.report.distinct_nontrivial = sh.seen.len() as u64;
        sh.failures.sort_by_key(|f| f.0);
        if let Some((_, message, input)) = sh.failures.into_iter().next() {
            self.failures.push(Failure { sub: name.into(), message, input });
        }
        for (k, v) in &sh.report.known {
            *self.known_hit.entry(k.clone()).or_default() += v;
        }
        eprintln!(
            "  {name}: {} cases, {} distinct non-trivial, labels {:?}",
            sh.report.evaluations, sh.report.distinct_nontrivial, sh.report.labels
        );
        self.reports.push(sh.report);
    }

    /// A deterministic enumeration of a finite list of inputs, judged like a sub-check.
    pub fn each<T, P>(&mut self, name: &str, rule: &str, items: Vec<T>, oracle: P)
    where
        T: Debug + Clone + Serialize + DeserializeOwned + Send + Sync,
        P: Fn(&T, &mut Obs) -> Result<(), String> + Sync,
    {
        let n = items.len() as u32;
        if n == 0 {
            return;
        }
        // An index strategy that walks the list: one shard, sequential counter.
        let counter = std::sync::atomic::AtomicUsize::new(0);
        let items_ref = &items;
        self.sub_n(
            name,
            rule,
            n,
            n,
            1,
            || Walk { items: items_ref.clone(), next: &counter },
            oracle,
        );
    }
}

#[derive(Debug)]
struct Walk<'a, T> {
    items: Vec<T>,
    next: &'a std::sync::atomic::AtomicUsize,
}
#[derive(Debug)]
pub struct NoShrink<T>(T);
impl<T: Debug + Clone> ValueTree for NoShrink<T> {
    type Value = T;
    fn current(&self) -> T {
        self.0.clone()
    }
    fn simplify(&mut self) -> bool {
        false
    }
    fn complicate(&mut self) -> bool {
        false
    }
}
impl<T: Debug + Clone> Strategy for Walk<'_, T> {
    type Tree = NoShrink<T>;
    type Value = T;
    fn new_tree(&self, _: &mut TestRunner) -> proptest::strategy::NewTree<Self> {
        let i = self.next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        Ok(NoShrink(self.items[i % self.items.len()].clone()))
    }
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

fn saved_inputs(property: &str, sub: &str) -> Vec<(PathBuf, Value)> {
    let dir = verif_dir().join("saved").join(property);
    let mut out = vec![];
    let Ok(rd) = std::fs::read_dir(&dir) else { return out };
    let mut paths: Vec<_> = rd.filter_map(|e| e.ok().map(|e| e.path())).collect();
    paths.sort();
    for p in paths {
        if p.extension().is_some_and(|e| e == "json") {
            let v: Value = serde_json::from_slice(&std::fs::read(&p).unwrap()).unwrap();
            if v["sub"] == sub {
                out.push((p, v["input"].clone()));
            }
        }
    }
    out
}

fn replay_doc(property: &str, sub: &str, message: &str, input: Value) -> Value {
    json!({"property": property, "sub": sub, "message": message, "input": input})
}

fn replay_dir() -> PathBuf {
    let d = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&d);
    d
}

fn write_replay(property: &str, f: &Failure) -> PathBuf {
    let p = replay_dir().join(format!("{property}-{}.json", f.sub));
    let doc = replay_doc(property, &f.sub, &f.message, f.input.clone());
    let mut file = std::fs::File::create(&p).unwrap();
    writeln!(file, "{}", serde_json::to_string_pretty(&doc).unwrap()).unwrap();
    p
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn env_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

pub type Body = fn(&mut Check);

/// Entry point of every check program:  prog PROPERTY  |  prog PROPERTY --replay FILE
pub fn main(table: &[(&'static str, Body)]) {
    main_scaled(1, table)
}

/// As `main`, with the number of cases of the quick tier multiplied.
pub fn main_scaled(scale: u32, table: &[(&'static str, Body)]) {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!(
            "usage: {} PROPERTY [--only SUB] [--replay FILE]; properties: {}",
            args[0],
            table.iter().map(|t| t.0).collect::<Vec<_>>().join(" ")
        );
        std::process::exit(2)
    };
    let Some(id) = args.get(1) else { usage() };
    let Some((property, body)) = table.iter().find(|t| t.0 == id).copied() else { usage() };
    let replay = args.iter().position(|a| a == "--replay").and_then(|i| args.get(i + 1)).cloned();
    let only = args.iter().position(|a| a == "--only").and_then(|i| args.get(i + 1)).cloned();
    if std::env::var_os("VPKIT_CHILD").is_none() {
        parent(property, &args, replay.is_some());
    } else {
        child(property, body, replay, only, scale);
    }
}

fn run_child(args: &[String], extra: &[(&str, &str)]) -> std::process::ExitStatus {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.args(&args[1..]).env("VPKIT_CHILD", "1");
    for (k, v) in extra {
        c.env(k, v);
    }
    c.status().expect("cannot start the check process")
}

/// Run the check in a child, and turn a reproducible crash of the child into a violation.
fn parent(property: &'static str, args: &[String], is_replay: bool) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let st = run_child(args, &[]);
    if let Some(code) = st.code() {
        std::process::exit(code);
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("the check process died with signal {sig}");
    // 9 is the out-of-memory killer (or an operator): no answer.
    if sig == 9 || sig == 15 {
        std::process::exit(2);
    }
    if is_replay {
        println!("VIOLATION property={property} replay={}", args[args.len() - 1]);
        std::process::exit(1);
    }
    let dir = std::env::temp_dir().join(format!("vpkit-trace-{}-{}", property, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let st = run_child(args, &[("VPKIT_TRACE", dir.to_str().unwrap())]);
    let mut code = 2;
    if st.signal().is_some() {
        let mut names: Vec<PathBuf> =
            std::fs::read_dir(&dir).map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect()).unwrap_or_default();
        names.sort();
        for p in names {
            let Ok(text) = std::fs::read(&p) else { continue };
            let Ok(mut doc) = serde_json::from_slice::<Value>(&text) else { continue };
            let out = replay_dir().join(format!("{property}-{}-crash.json", doc["sub"].as_str().unwrap_or("x")));
            doc["message"] = json!("the process crashes (stack overflow, abort or memory fault) on this input");
            std::fs::write(&out, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
            let a: Vec<String> =
                vec![args[0].clone(), property.to_string(), "--replay".into(), out.to_str().unwrap().into()];
            if run_child(&a, &[]).signal().is_some_and(|s| s != 9 && s != 15) {
                println!("VIOLATION property={property} replay={}", out.display());
                code = 1;
                break;
            }
            let _ = std::fs::remove_file(&out);
        }
    }
    if let Ok(d) = std::fs::read_dir(&dir) {
        for e in d.flatten() {
            let _ = std::fs::remove_file(e.path());
        }
    }
    let _ = std::fs::remove_dir(&dir);
    std::process::exit(code)
}

fn child(property: &'static str, body: Body, replay: Option<String>, only: Option<String>, scale: u32) -> ! {
    let start = Instant::now();
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = at);
        if std::env::var_os("VPKIT_VERBOSE").is_some() {
            eprintln!("{info}");
        }
    }));
    // A check that does not come to an end gives no answer: an error, never a violation.
    let tier = env_tier();
    let limit: u64 = std::env::var("VPKIT_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 780,
        Tier::Thorough => 6 * 3600,
    });
    std::thread::spawn(move || watchdog(limit));
    let known: Vec<KnownFinding> = match std::fs::read(verif_dir().join("known_findings.json")) {
        Ok(b) => {
            let v: Value = serde_json::from_slice(&b).expect("known_findings.json");
            serde_json::from_value(v["findings"].clone()).expect("known_findings.json")
        }
        Err(_) => vec![],
    };
    let mode = match &replay {
        None => Mode::Run,
        Some(f) => {
            let doc: Value = serde_json::from_slice(&std::fs::read(f).expect("replay file")).expect("replay file");
            let sub = doc["sub"].as_str().unwrap_or("").to_string();
            let input = doc["input"].clone();
            Mode::Replay(Box::new(move |name| (name == sub).then(|| input.clone())))
        }
    };
    let mut c = Check {
        property,
        tier,
        seed: env_seed(),
        mode,
        only,
        reports: vec![],
        failures: vec![],
        replayed: 0,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
        scale,
        trace: std::env::var_os("VPKIT_TRACE").map(PathBuf::from),
        assumptions: vec![],
        known,
        known_hit: BTreeMap::new(),
    };
    body(&mut c);
    if let Some(f) = replay {
        if c.replayed == 0 {
            eprintln!("no sub-check of {property} takes {f}");
            std::process::exit(2);
        }
        match c.failures.first() {
            Some(x) => {
                println!("{}: {}", x.sub, x.message);
                println!("VIOLATION property={property} replay={f}");
                std::process::exit(1);
            }
            None => {
                println!("the property holds on {f}");
                std::process::exit(0);
            }
        }
    }
    // Every listed finding is announced; a finding the search met again is counted in the evidence.
    for k in c.known.iter().filter(|k| k.property == property) {
        println!("KNOWN-FINDING: property={property} {}", k.what);
    }
    let mut samples = vec![];
    let mut labels = serde_json::Map::new();
    let mut subs = vec![];
    let (mut ev, mut nt) = (0, 0);
    for r in &c.reports {
        ev += r.evaluations;
        nt += r.distinct_nontrivial;
        for s in &r.samples {
            samples.push(json!({"sub": r.name, "input": s}));
        }
        labels.insert(r.name.clone(), json!(r.labels));
        subs.push(json!({
            "name": r.name, "rule": r.rule, "evaluations": r.evaluations, "rejected": r.rejected,
            "distinct_nontrivial": r.distinct_nontrivial, "labels": r.labels, "known_findings_met": r.known,
        }));
    }
    if samples.is_empty() {
        samples.push(json!("no non-trivial case was generated"));
    }
    let rule = c.reports.iter().map(|r| format!("{}: {}", r.name, r.rule)).collect::<Vec<_>>().join(" | ");
    let evidence = json!({
        "property": property,
        "tier": match c.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
        "seed": c.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": nt,
            "rule": rule,
            "samples": samples,
            "subchecks": subs,
        },
        "assumptions": c.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": c.failures.len(),
    });
    if c.only.is_none() {
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let path: &Path = &dir.join(format!("{property}.json"));
        std::fs::write(path, serde_json::to_string_pretty(&evidence).unwrap() + "\n").expect("evidence");
    }
    if c.failures.is_empty() {
        println!(
            "{property}: held on {ev} cases ({nt} distinct non-trivial) in {:.1} s",
            start.elapsed().as_secs_f64()
        );
        std::process::exit(0);
    }
    for f in &c.failures {
        let p = write_replay(property, f);
        println!("{}: {}", f.sub, f.message.chars().take(2000).collect::<String>());
        println!("  minimal input: {}", shorten(f.input.clone(), 2000));
        println!("VIOLATION property={property} replay={}", p.display());
    }
    std::process::exit(1)
}
