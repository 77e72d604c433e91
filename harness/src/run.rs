//! Drives one property: proptest generates and shrinks tapes, cases are made from tapes,
//! and the property's check judges cases. See DESIGN.md for the shape of a run.

use crate::gen::{Gen, Tape};
use crate::json;
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What a check looks at, and what a replay file holds.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case(pub Vec<(&'static str, String)>);
impl Case {
    pub fn new() -> Case {
        Case(vec![])
    }
    pub fn with(mut self, k: &'static str, v: impl Into<String>) -> Case {
        self.0.push((k, v.into()));
        self
    }
    pub fn get(&self, k: &str) -> &str {
        self.0.iter().find(|x| x.0 == k).map_or("", |x| &x.1[..])
    }
    pub fn num(&self, k: &str) -> usize {
        self.get(k).parse().unwrap_or(0)
    }
    pub fn load(s: &str) -> Result<Case, String> {
        Ok(Case(json::parse(s)?.into_iter().map(|(k, v)| (&*Box::leak(k.into_boxed_str()), v)).collect()))
    }
}

/// What the case turned out to be.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    /// listed defects seen
    pub known: Vec<String>,
}
impl Obs {
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.classes.push(c);
        }
    }
}

pub type Verdict = Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    /// how cases are made and which are non-trivial
    pub rule: &'static str,
    pub gen: fn(&mut Gen, &mut Tape) -> Case,
    pub check: fn(&Case, &mut Obs) -> Verdict,
    /// cases run every time, before the generated ones
    pub fixed: fn() -> Vec<Case>,
    pub quick: u32,
    pub thorough: u32,
    /// longest tapes: structure, spelling and layout
    pub tapes: (usize, usize),
    pub stack: usize,
    /// fields of the case in which text may be cut out while shrinking
    pub cut: &'static [&'static str],
}

pub const SHARDS: u32 = 8;

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| *q.borrow()) {
            PANIC.with(|p| *p.borrow_mut() = i.to_string());
        } else {
            old(i)
        }
    }));
}

/// Runs `f`; a panic in it becomes an error that says so.
pub fn guarded(f: impl FnOnce() -> Verdict) -> Verdict {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    match r {
        Ok(v) => v,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

/// None if it panics.
pub fn quietly<R>(f: impl FnOnce() -> R) -> Option<R> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.ok()
}

pub fn judge(p: &Prop, c: &Case, o: &mut Obs) -> Verdict {
    guarded(|| (p.check)(c, o))
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<Case>,
    known: BTreeMap<String, u64>,
}
impl Stats {
    fn note(&mut self, c: &Case, o: Obs) {
        self.evaluations += 1;
        for k in o.classes {
            *self.classes.entry(k).or_default() += 1;
        }
        for k in o.known {
            *self.known.entry(k).or_default() += 1;
        }
        if o.nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            c.hash(&mut h);
            if self.distinct.insert(h.finish()) {
                let n = self.distinct.len();
                let len: usize = c.0.iter().map(|x| x.1.len()).sum();
                // early, middling and late ones
                if (n == 3 || n == 50 || n == 500 || n == 3000) && len < 3000 {
                    self.samples.push(c.clone());
                }
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        if self.samples.len() < 6 {
            self.samples.extend(o.samples.into_iter().take(2));
        }
    }
}

pub struct Failure {
    pub case: Case,
    pub why: String,
}

fn seed_bytes(id: &str, seed: u64, shard: u32) -> [u8; 32] {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8..12].copy_from_slice(&shard.to_le_bytes());
    for (i, c) in id.bytes().enumerate() {
        b[12 + i % 20] ^= c;
    }
    b
}

fn tape(max: usize) -> BoxedStrategy<Vec<u32>> {
    let v = |n: usize| prop::collection::vec(any::<u32>(), 0..=n);
    prop_oneof![3 => v((max / 16).max(8)), 5 => v((max / 4).max(16)), 2 => v(max)].boxed()
}

/// Cuts pieces out of the case's texts for as long as it stays a failure.
fn cut_down(p: &Prop, mut f: Failure, budget: Duration) -> Failure {
    let t0 = Instant::now();
    for field in p.cut {
        let idx = match f.case.0.iter().position(|x| x.0 == *field) {
            Some(i) => i,
            None => continue,
        };
        let mut size = f.case.0[idx].1.chars().count() / 2;
        while size > 0 {
            let mut at = 0;
            let mut cs: Vec<char> = f.case.0[idx].1.chars().collect();
            while at < cs.len() {
                if t0.elapsed() > budget {
                    return f;
                }
                let mut t: Vec<char> = cs[..at].to_vec();
                t.extend_from_slice(&cs[(at + size).min(cs.len())..]);
                let mut c = f.case.clone();
                c.0[idx].1 = t.iter().collect();
                match judge(p, &c, &mut Obs::default()) {
                    Err(why) if !why.starts_with("harness:") => {
                        f = Failure { case: c, why };
                        cs = t;
                    }
                    _ => at += size,
                }
            }
            size /= 2;
        }
    }
    f
}

/// A hook by which a dying process leaves word which case it was at.
#[derive(Clone)]
struct Trace(Option<PathBuf>);
impl Trace {
    fn put(&self, c: &Case) {
        if let Some(p) = &self.0 {
            std::fs::write(p, json::object(&c.0)).expect("trace");
        }
    }
}

fn shard(p: &'static Prop, cases: u32, seed: u64, shard: u32, stop: Arc<AtomicBool>, trace: Trace) -> Result<(Stats, Option<Failure>), String> {
    let stats = RefCell::new(Stats::default());
    let mut runner = TestRunner::new_with_rng(
        Config { cases, failure_persistence: None, max_shrink_iters: 3000, max_shrink_time: 20_000, max_global_rejects: 1, ..Config::default() },
        TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(p.id, seed, shard)),
    );
    let make = |s: &[u32], l: &[u32]| (p.gen)(&mut Gen::new(s), &mut Tape::new(l));
    let failed = std::cell::Cell::new(false);
    let harness = RefCell::new(None::<String>);
    let r = runner.run(&(tape(p.tapes.0), tape(p.tapes.1)), |(s, l)| {
        if stop.load(Ordering::Relaxed) && !failed.get() {
            return Ok(());
        }
        let mut case = None;
        let g = guarded(|| {
            case = Some(make(&s, &l));
            Ok(())
        });
        if let Err(e) = g {
            *harness.borrow_mut() = Some(format!("generator: {}", e));
            stop.store(true, Ordering::Relaxed);
            return Ok(());
        }
        let case = case.unwrap();
        trace.put(&case);
        let mut o = Obs::default();
        let v = judge(p, &case, &mut o);
        match v {
            Ok(()) => {
                if !failed.get() {
                    stats.borrow_mut().note(&case, o);
                }
                Ok(())
            }
            Err(e) if e.starts_with("harness:") => {
                *harness.borrow_mut() = Some(format!("{}\n{}", e, json::object(&case.0)));
                stop.store(true, Ordering::Relaxed);
                Ok(())
            }
            Err(e) => {
                failed.set(true);
                Err(TestCaseError::fail(e))
            }
        }
    });
    if let Some(h) = harness.into_inner() {
        return Err(h);
    }
    let f = match r {
        Ok(()) => None,
        Err(TestError::Fail(why, (s, l))) => {
            stop.store(true, Ordering::Relaxed);
            let f = Failure { case: make(&s, &l), why: why.message().to_string() };
            Some(cut_down(p, f, Duration::from_secs(15)))
        }
        Err(TestError::Abort(why)) => return Err(format!("proptest gave up: {}", why)),
    };
    Ok((stats.into_inner(), f))
}

fn replay_path(dir: &Path, id: &str, c: &Case) -> PathBuf {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut h);
    dir.join(format!("{}-{:016x}.json", id, h.finish()))
}

pub fn save_replay(dir: &Path, id: &str, c: &Case) -> PathBuf {
    let _ = std::fs::create_dir_all(dir);
    let path = replay_path(dir, id, c);
    let mut kv = vec![("property", id.to_string())];
    kv.extend(c.0.iter().cloned());
    std::fs::write(&path, json::object(&kv)).expect("write replay");
    path
}

pub struct Opts {
    pub seed: u64,
    pub tier: String,
    pub corpus: PathBuf,
    pub out: PathBuf,
    pub evidence: PathBuf,
    pub trace: Option<PathBuf>,
    pub scale: f64,
}

/// The whole run, in this process. Exit code.
pub fn run(p: &'static Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    install_hook();
    let mut stats = Stats::default();
    let mut failures: Vec<Failure> = Vec::new();
    // regression inputs and fixed cases first
    let mut first: Vec<Case> = Vec::new();
    let mut files: Vec<PathBuf> = std::fs::read_dir(o.corpus.join(p.id))
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    let regressions = files.len();
    for f in &files {
        match std::fs::read_to_string(f).map_err(|e| e.to_string()).and_then(|s| Case::load(&s)) {
            Ok(c) => first.push(Case(c.0.into_iter().filter(|x| x.0 != "property").collect())),
            Err(e) => {
                eprintln!("ERROR: {}: {}", f.display(), e);
                return 2;
            }
        }
    }
    first.extend((p.fixed)());
    let fixed = first.len() - regressions;
    let first = Arc::new(Mutex::new(first.into_iter()));
    let found = Arc::new(AtomicBool::new(false));
    let hs: Vec<_> = (0..SHARDS)
        .map(|k| {
            let (first, found) = (first.clone(), found.clone());
            let trace = Trace(o.trace.as_ref().map(|d| d.join(format!("fixed{}.json", k))));
            std::thread::Builder::new()
                .stack_size(p.stack)
                .spawn(move || {
                    let mut st = Stats::default();
                    let mut fs = Vec::new();
                    let mut harness = None;
                    loop {
                        let c = match first.lock().unwrap().next() {
                            Some(c) if !found.load(Ordering::Relaxed) => c,
                            _ => break,
                        };
                        trace.put(&c);
                        let mut ob = Obs::default();
                        match judge(p, &c, &mut ob) {
                            Ok(()) => st.note(&c, ob),
                            Err(why) if why.starts_with("harness:") => harness = Some(why),
                            Err(why) => {
                                // one is enough, and the rest may take long
                                found.store(true, Ordering::Relaxed);
                                fs.push(cut_down(p, Failure { case: c, why }, Duration::from_secs(15)));
                            }
                        }
                    }
                    (st, fs, harness)
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        let (st, fs, harness) = match h.join() {
            Ok(x) => x,
            Err(_) => {
                eprintln!("ERROR: a thread died");
                return 2;
            }
        };
        if let Some(h) = harness {
            eprintln!("ERROR: {}", h);
            return 2;
        }
        stats.merge(st);
        failures.extend(fs);
    }

    let found = found.load(Ordering::Relaxed);
    let total = if found { 0 } else { ((if o.tier == "thorough" { p.thorough } else { p.quick }) as f64 * o.scale) as u32 };
    let stop = Arc::new(AtomicBool::new(false));
    let errors = Arc::new(Mutex::new(Vec::new()));
    let mut hs = Vec::new();
    for k in 0..SHARDS {
        let (seed, stop, errors) = (o.seed, stop.clone(), errors.clone());
        let trace = Trace(o.trace.as_ref().map(|d| d.join(format!("shard{}.json", k))));
        hs.push(
            std::thread::Builder::new()
                .stack_size(p.stack)
                .spawn(move || match shard(p, total / SHARDS, seed, k, stop, trace) {
                    Ok(x) => Some(x),
                    Err(e) => {
                        errors.lock().unwrap().push(e);
                        None
                    }
                })
                .unwrap(),
        );
    }
    for h in hs {
        if let Ok(Some((st, f))) = h.join().map_err(|_| errors.lock().unwrap().push("shard died".into())) {
            stats.merge(st);
            failures.extend(f);
        }
    }
    let errors = errors.lock().unwrap();
    if failures.is_empty() && !errors.is_empty() {
        for e in errors.iter() {
            eprintln!("ERROR: {}", e);
        }
        return 2;
    }
    for f in &failures {
        report(o, p, f);
    }
    for (k, n) in &stats.known {
        println!("KNOWN-FINDING: property={} {} ({} cases)", p.id, k, n);
    }
    evidence(o, p, &stats, regressions, fixed, failures.len(), t0.elapsed());
    let top: Vec<String> = stats.classes.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s [{}]",
        p.id,
        stats.evaluations,
        stats.distinct.len(),
        failures.len(),
        t0.elapsed().as_secs_f64(),
        top.join(" ")
    );
    (!failures.is_empty()) as i32
}

pub fn report(o: &Opts, p: &Prop, f: &Failure) {
    let path = save_replay(&o.out, p.id, &f.case);
    println!("{}: {}", p.id, f.why);
    for (k, v) in &f.case.0 {
        println!("  {} = {:?}", k, if v.len() > 2000 { &v[..v.char_indices().take(1500).last().map_or(0, |x| x.0)] } else { v });
    }
    println!("VIOLATION property={} replay={}", p.id, path.display());
}

fn evidence(o: &Opts, p: &Prop, s: &Stats, regressions: usize, fixed: usize, violations: usize, wall: Duration) {
    let _ = std::fs::create_dir_all(&o.evidence);
    let mut samples: Vec<&Case> = s.samples.iter().collect();
    samples.truncate(6);
    let samples: Vec<String> = samples
        .iter()
        .map(|c| {
            let kv: Vec<String> = c.0.iter().map(|(k, v)| format!("{}: {}", json::quote(k), json::quote(v))).collect();
            format!("{{{}}}", kv.join(", "))
        })
        .collect();
    let classes: Vec<String> = s.classes.iter().map(|(k, v)| format!("{}: {}", json::quote(k), v)).collect();
    let e = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"regression_inputs\": {},\n  \"fixed_cases\": {},\n  \"classes\": {{{}}},\n  \"known_findings_seen\": {},\n  \"samples\": [\n   {}\n  ]\n }},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json::quote(p.id),
        json::quote(&o.tier),
        o.seed,
        s.evaluations,
        s.distinct.len(),
        json::quote(p.rule),
        regressions,
        fixed,
        classes.join(", "),
        s.known.values().sum::<u64>(),
        samples.join(",\n   "),
        wall.as_secs_f64(),
        violations
    );
    std::fs::write(o.evidence.join(format!("{}.json", p.id)), e).expect("write evidence");
}
