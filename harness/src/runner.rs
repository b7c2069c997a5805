//! The generic check runner.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;

/// Result of one case.
pub type TR = Result<(), String>;

/// Per-case context: labels for the distribution, the non-trivial flag and
/// sightings of known findings.
#[derive(Default)]
pub struct Ctx {
    labels: BTreeMap<&'static str, u64>,
    nontrivial: bool,
    findings: BTreeMap<String, String>,
    known: Arc<BTreeMap<String, String>>,
}

impl Ctx {
    /// Count an event of this case.
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    /// Count an event if `c`.
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// Mark this case non-trivial (by the rule stated in the evidence).
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Mark this case non-trivial if `c`.
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// Events of `l` counted so far in this case.
    pub fn count(&self, l: &'static str) -> u64 {
        self.labels.get(l).copied().unwrap_or(0)
    }
    /// Returns `true` (and records the sighting) if `sig` is an open entry of
    /// the committed known-findings file for this property.
    pub fn known(&mut self, sig: &str, what: impl FnOnce() -> String) -> bool {
        if self.known.contains_key(sig) {
            self.findings.entry(sig.to_string()).or_insert_with(what);
            true
        } else {
            false
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// One property check.
pub struct Check {
    id: &'static str,
    rule: &'static str,
    seed: u64,
    pub tier: Tier,
    start: Instant,
    replay: Option<(String, String)>,
    journal: bool,
    evaluations: u64,
    distinct: u64,
    labels: BTreeMap<String, u64>,
    per_sub: BTreeMap<String, (u64, u64)>,
    samples: Vec<String>,
    violations: Vec<String>,
    findings: BTreeMap<String, String>,
    known: Arc<BTreeMap<String, String>>,
    assumptions: Vec<String>,
    out_dir: String,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

struct Slot {
    /// Twice the number of cases started, plus one while a case is running.
    seq: AtomicU64,
    /// Thread id of the worker.
    tid: AtomicU64,
    desc: Mutex<Option<Arc<dyn Any + Send + Sync>>>,
}

struct WorkerOut<C> {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    findings: BTreeMap<String, String>,
    failure: Option<(u64, C, String, u64)>,
}

fn fail_msg(p: Box<dyn Any + Send>) -> String {
    let loc = LAST_PANIC.with(|l| l.borrow().clone());
    let msg = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    };
    format!("panicked: {msg} ({loc})")
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(fail_msg)
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new_with_keys(7, 11);
    t.hash(&mut h);
    h.finish()
}

const WORKERS: u64 = 8;
/// Stack of the threads the cases run in: the default of Rust's threads.
const STACK: usize = 2 << 20;
const MAX_SHRINK: u64 = 3000;
const MAX_SHRINK_TIME: Duration = Duration::from_secs(60);
/// Cases in the release build, compared with the ordinary one.
const RELEASE_SHARE: f64 = 0.25;
/// A case takes milliseconds; one that used this much CPU time does not end.
const HANG_CPU_SECS: f64 = 25.0;
/// A check stays below 1 GB; a case that takes this much does not end.
const MEM_GB: f64 = 12.0;

impl Check {
    /// Start a check: reads VERIF_SEED, VERIF_TIER and the arguments.
    pub fn start(id: &'static str, rule: &'static str) -> Self {
        let out_dir = std::env::var("PGV_VERIF_DIR").unwrap_or_else(|_| "/verif".to_string());
        let args: Vec<String> = std::env::args().collect();
        let replay = args.iter().position(|a| a == "--replay").map(|i| {
            let path = args.get(i + 1).expect("--replay FILE");
            let text = std::fs::read_to_string(path).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay json");
            (
                v["sub"].as_str().expect("sub").to_string(),
                serde_json::to_string(&v["case"]).unwrap(),
            )
        });
        let is_child = std::env::var("PGV_CHILD").is_ok();
        if !is_child {
            Self::supervise(id, replay.is_some());
        }
        std::panic::set_hook(Box::new(|info| {
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()));
            LAST_PANIC.with(|l| *l.borrow_mut() = loc.unwrap_or_default());
        }));
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let mut known = BTreeMap::new();
        if let Ok(text) = std::fs::read_to_string(format!("{out_dir}/known_findings.txt")) {
            for line in text.lines() {
                if let Some(rest) = line.strip_prefix("finding: ") {
                    let mut it = rest.splitn(3, ' ');
                    let prop = it.next().and_then(|s| s.strip_prefix("property="));
                    let sig = it.next().and_then(|s| s.strip_prefix("sig="));
                    if let (Some(prop), Some(sig)) = (prop, sig) {
                        if prop == id {
                            known.insert(sig.to_string(), it.next().unwrap_or("").to_string());
                        }
                    }
                }
            }
        }
        Check {
            id,
            rule,
            seed,
            tier,
            start: Instant::now(),
            replay,
            journal: std::env::var("PGV_JOURNAL").is_ok(),
            evaluations: 0,
            distinct: 0,
            labels: BTreeMap::new(),
            per_sub: BTreeMap::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            findings: BTreeMap::new(),
            known: Arc::new(known),
            assumptions: Vec::new(),
            out_dir,
        }
    }

    /// The parent process: runs the check in a child so that a crash of the
    /// code under test (signal) is reported, with the crashing case as replay.
    /// Then runs other cases, fewer of them, in a build without debug
    /// assertions and overflow checks, if one is given by `PGV_REL`.
    fn supervise(id: &str, replay: bool) -> ! {
        let exe = std::env::current_exe().expect("exe");
        let mut code = Self::supervised(id, replay, &exe, false);
        if let (0, Ok(rel)) = (code, std::env::var("PGV_REL")) {
            code = Self::supervised(id, replay, rel.as_ref(), true);
            if !replay {
                Self::merge_evidence(id);
            }
        }
        std::process::exit(code)
    }

    /// Put what the release build covered into the evidence file.
    fn merge_evidence(id: &str) {
        let out = std::env::var("PGV_VERIF_DIR").unwrap_or_else(|_| "/verif".to_string());
        let path = format!("{out}/evidence/{id}.json");
        let extra = format!("{out}/evidence/{id}.release.json");
        let read = |p: &str| serde_json::from_str::<serde_json::Value>(&std::fs::read_to_string(p).ok()?).ok();
        if let (Some(mut ev), Some(rel)) = (read(&path), read(&extra)) {
            let c = &rel["coverage"];
            ev["coverage"]["release_build"] = serde_json::json!({
                "what": "further cases in a build without debug assertions and overflow checks, not counted above",
                "evaluations": c["evaluations"],
                "distinct_nontrivial": c["distinct_nontrivial"],
                "per_generator": c["per_generator"],
            });
            let bad = ev["violations"].as_u64().unwrap_or(0) + rel["violations"].as_u64().unwrap_or(0);
            ev["violations"] = bad.into();
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap_or_default());
        }
        let _ = std::fs::remove_file(&extra);
    }

    fn supervised(id: &str, replay: bool, exe: &std::path::Path, release: bool) -> i32 {
        use std::os::unix::process::ExitStatusExt;
        let args: Vec<String> = std::env::args().skip(1).collect();
        let child = || {
            let mut c = std::process::Command::new(exe);
            c.args(&args).env("PGV_CHILD", "1").env_remove("PGV_JOURNAL").env_remove("PGV_RELEASE");
            if release {
                c.env("PGV_RELEASE", "1");
            }
            c
        };
        let status = child().status().expect("spawn");
        if let Some(code) = status.code() {
            return code;
        }
        let sig = status.signal().unwrap_or(0);
        // Only faults raised by the code itself; a kill (9, 15) is an error.
        if ![4, 6, 7, 8, 11].contains(&sig) {
            eprintln!("{id}: child killed by signal {sig}");
            return 3;
        }
        if replay {
            println!("crash with signal {sig}");
            println!("VIOLATION property={id} replay=given");
            return 1;
        }
        let dir = std::env::temp_dir().join(format!("pgv-{id}-{}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("journal dir");
        let journal = dir.join("case.json");
        let status = child().env("PGV_JOURNAL", &journal).status().expect("spawn");
        let text = std::fs::read_to_string(&journal).unwrap_or_default();
        let _ = std::fs::remove_dir_all(&dir);
        if let Some(code) = status.code() {
            eprintln!("{id}: crash by signal {sig} did not reproduce (second run: {code})");
            return if code == 1 { 1 } else { 3 };
        }
        let out = std::env::var("PGV_VERIF_DIR").unwrap_or_else(|_| "/verif".to_string());
        let path = format!("{out}/evidence/{id}{}.replay.json", build_tag(release));
        let _ = std::fs::create_dir_all(format!("{out}/evidence"));
        std::fs::write(&path, text).expect("replay");
        println!("{id}: the code under test crashed with signal {sig}");
        println!("VIOLATION property={id} replay={path}");
        1
    }

    /// Record an assumption for the evidence.
    pub fn assume(&mut self, a: &str) -> &mut Self {
        self.assumptions.push(a.to_string());
        self
    }

    /// Run one generated sub-check. `quick` and `thorough` are total case
    /// counts.
    pub fn run<C, S>(
        &mut self,
        sub: &'static str,
        quick: u64,
        thorough: u64,
        strategy: impl Fn(Tier) -> S + Sync,
        test: impl Fn(&C, &mut Ctx) -> TR + Sync,
    ) where
        C: Clone + Debug + Hash + Serialize + DeserializeOwned + Send + Sync + 'static,
        S: Strategy<Value = C>,
    {
        if let Some((rsub, case)) = &self.replay {
            if rsub == sub {
                let case: C = serde_json::from_str(case).expect("case does not parse");
                let mut ctx = Ctx {
                    known: self.known.clone(),
                    ..Ctx::default()
                };
                let id = self.id;
                let run = || {
                    let (tid, t0) = (my_tid(), cpu_secs(my_tid()));
                    std::thread::spawn(move || loop {
                        std::thread::sleep(Duration::from_millis(20));
                        if cpu_secs(tid) - t0 > HANG_CPU_SECS || rss_gb() > MEM_GB {
                            println!("replay of {sub}: does not end ({HANG_CPU_SECS} s of CPU time or {MEM_GB} GB used)");
                            println!("VIOLATION property={id} replay=given");
                            std::process::exit(1);
                        }
                    });
                    no_panic(|| test(&case, &mut ctx)).unwrap_or_else(Err)
                };
                let r = std::thread::scope(|s| {
                    let t = std::thread::Builder::new().stack_size(STACK);
                    t.spawn_scoped(s, run)
                        .expect("spawn")
                        .join()
                        .expect("replay")
                });
                self.evaluations += 1;
                match r {
                    Ok(()) => println!("replay of {sub}: holds"),
                    Err(m) => {
                        println!("replay of {sub}: {m}");
                        self.violations.push(format!("{sub}: {m}"));
                    }
                }
            }
            return;
        }
        let scale = std::env::var("PGV_SCALE")
            .ok()
            .and_then(|s| s.parse::<f64>().ok())
            .unwrap_or(1.0)
            * if is_release() { RELEASE_SHARE } else { 1.0 };
        let total = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        let total = ((total as f64 * scale) as u64).max(WORKERS);
        let per = total.div_ceil(WORKERS);
        let min_fail = AtomicU64::new(u64::MAX);
        let slots: Vec<Slot> = (0..WORKERS)
            .map(|_| Slot {
                seq: AtomicU64::new(0),
                tid: AtomicU64::new(0),
                desc: Mutex::new(None),
            })
            .collect();
        let done = AtomicBool::new(false);
        let epoch = Instant::now();
        let (id, seed, tier, journal) = (self.id, self.seed, self.tier, self.journal);
        let known = self.known.clone();
        let journal_path = std::env::var("PGV_JOURNAL").unwrap_or_default();

        let worker = |w: u64| -> WorkerOut<C> {
            let mut seed_bytes = [0u8; 32];
            for (i, chunk) in seed_bytes.chunks_mut(8).enumerate() {
                let h = if is_release() { hash_of(&(seed, "release", id, sub, w, i)) } else { hash_of(&(seed, id, sub, w, i)) };
                chunk.copy_from_slice(&h.to_le_bytes());
            }
            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes);
            let cfg = Config {
                failure_persistence: None,
                ..Config::default()
            };
            let mut tr = TestRunner::new_with_rng(cfg, rng);
            let strat = strategy(tier);
            let mut out = WorkerOut {
                evals: 0,
                nontrivial: HashSet::new(),
                labels: BTreeMap::new(),
                samples: Vec::new(),
                findings: BTreeMap::new(),
                failure: None,
            };
            let slot = &slots[w as usize];
            slot.tid.store(my_tid(), Ordering::Relaxed);
            let exec = |case: &C, ctx: &mut Ctx| -> TR {
                *slot.desc.lock().unwrap() = Some(Arc::new(case.clone()));
                slot.seq.fetch_add(1, Ordering::SeqCst);
                if journal {
                    let v = serde_json::json!({"property": id, "sub": sub, "case": case});
                    let _ = std::fs::write(&journal_path, v.to_string());
                }
                let r = no_panic(|| test(case, ctx)).unwrap_or_else(Err);
                slot.seq.fetch_add(1, Ordering::SeqCst);
                r
            };
            for i in 0..per {
                if i > min_fail.load(Ordering::Relaxed) {
                    break;
                }
                let mut tree = match strat.new_tree(&mut tr) {
                    Ok(t) => t,
                    Err(e) => panic!("generator failed: {e}"),
                };
                let case = tree.current();
                let mut ctx = Ctx {
                    known: known.clone(),
                    ..Ctx::default()
                };
                let r = exec(&case, &mut ctx);
                out.evals += 1;
                for (k, v) in ctx.labels {
                    *out.labels.entry(k).or_insert(0) += v;
                }
                for (k, v) in ctx.findings {
                    out.findings.entry(k).or_insert(v);
                }
                if ctx.nontrivial && out.nontrivial.insert(hash_of(&case)) && out.samples.len() < 2
                {
                    let mut s = format!("{sub}: {case:?}");
                    if s.len() > 1500 {
                        let mut cut = 1500;
                        while !s.is_char_boundary(cut) {
                            cut -= 1;
                        }
                        s.truncate(cut);
                        s.push_str("...");
                    }
                    out.samples.push(s);
                }
                if let Err(msg) = r {
                    min_fail.fetch_min(i, Ordering::Relaxed);
                    // Shrink.
                    let mut best = (case, msg);
                    let mut budget = MAX_SHRINK;
                    let shrinking = Instant::now();
                    'outer: while budget > 0
                        && shrinking.elapsed() < MAX_SHRINK_TIME
                        && tree.simplify()
                    {
                        loop {
                            budget -= 1;
                            let c = tree.current();
                            let mut ctx = Ctx {
                                known: known.clone(),
                                ..Ctx::default()
                            };
                            match exec(&c, &mut ctx) {
                                Err(m) => {
                                    best = (c, m);
                                    break;
                                }
                                Ok(()) => {
                                    if budget == 0 || !tree.complicate() {
                                        break 'outer;
                                    }
                                }
                            }
                        }
                    }
                    out.failure = Some((i, best.0, best.1, w));
                    break;
                }
            }
            out
        };

        let outs: Vec<WorkerOut<C>> = std::thread::scope(|s| {
            // Watchdog: a case that does not end breaks its property.
            let out_dir = self.out_dir.clone();
            let wd = s.spawn({
                let (done, slots) = (&done, &slots);
                move || {
                    let report = |sl: &Slot, what: String| -> ! {
                        let d = sl.desc.lock().unwrap().clone();
                        let case = d.and_then(|d| d.downcast::<C>().ok());
                        let path = format!("{out_dir}/evidence/{id}{}.{sub}.replay.json", build_tag(is_release()));
                        let _ = std::fs::create_dir_all(format!("{out_dir}/evidence"));
                        let v = serde_json::json!({
                            "property": id, "sub": sub, "seed": seed, "message": what,
                            "case": case.as_deref(),
                        });
                        std::fs::write(&path, v.to_string()).expect("replay");
                        println!("{id}/{sub}: {what}");
                        println!("VIOLATION property={id} replay={path}");
                        std::process::exit(1)
                    };
                    // The running case each worker was last seen with, when
                    // that was first noticed, and its thread's CPU time then.
                    let mut seen = vec![(0u64, Instant::now(), 0.0f64); slots.len()];
                    while !done.load(Ordering::Relaxed) {
                        std::thread::sleep(Duration::from_millis(20));
                        for (sl, seen) in slots.iter().zip(&mut seen) {
                            let seq = sl.seq.load(Ordering::SeqCst);
                            if seq != seen.0 {
                                let cpu = cpu_secs(sl.tid.load(Ordering::Relaxed));
                                *seen = (seq, Instant::now(), cpu);
                            } else if seq % 2 == 1
                                && seen.1.elapsed().as_secs_f64() > HANG_CPU_SECS
                                && cpu_secs(sl.tid.load(Ordering::Relaxed)) - seen.2 > HANG_CPU_SECS
                            {
                                report(sl, format!("does not end: over {HANG_CPU_SECS} s of CPU time in one case"));
                            }
                        }
                        if rss_gb() > MEM_GB {
                            let longest = slots
                                .iter()
                                .zip(&seen)
                                .filter(|(_, s)| s.0 % 2 == 1)
                                .min_by_key(|(_, s)| s.1);
                            if let Some((sl, _)) = longest {
                                report(sl, format!("over {MEM_GB} GB of memory in use, this case being the longest running"));
                            }
                            eprintln!("ERROR {id}/{sub}: memory use over {MEM_GB} GB (inconclusive)");
                            std::process::exit(3);
                        }
                    }
                }
            });
            let spawn = |w| {
                let worker = &worker;
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || worker(w))
                    .expect("spawn")
            };
            let join = |h: std::thread::ScopedJoinHandle<'_, _>| match h.join() {
                Ok(o) => o,
                Err(p) => {
                    eprintln!("ERROR {id}/{sub}: harness failure: {}", fail_msg(p));
                    std::process::exit(3)
                }
            };
            let outs = if journal {
                // One after the other, so that the journal names the crashing case.
                (0..WORKERS).map(|w| join(spawn(w))).collect()
            } else {
                let hs: Vec<_> = (0..WORKERS).map(spawn).collect();
                hs.into_iter().map(join).collect()
            };
            done.store(true, Ordering::Relaxed);
            let _ = wd.join();
            outs
        });

        let mut distinct: HashSet<u64> = HashSet::new();
        let mut failure: Option<(u64, C, String, u64)> = None;
        let mut evals = 0;
        for o in outs {
            evals += o.evals;
            distinct.extend(o.nontrivial);
            for (k, v) in o.labels {
                *self.labels.entry(format!("{sub}.{k}")).or_insert(0) += v;
            }
            for (k, v) in o.findings {
                self.findings.entry(k).or_insert(v);
            }
            if self.samples.len() < 12 {
                self.samples.extend(o.samples.into_iter().take(1));
            }
            if let Some(f) = o.failure {
                if failure.as_ref().map_or(true, |g| (f.0, f.3) < (g.0, g.3)) {
                    failure = Some(f);
                }
            }
        }
        self.evaluations += evals;
        self.distinct += distinct.len() as u64;
        self.per_sub
            .insert(sub.to_string(), (evals, distinct.len() as u64));
        eprintln!(
            "{id}/{sub}: {evals} cases, {} distinct non-trivial, {:.1}s",
            distinct.len(),
            epoch.elapsed().as_secs_f64()
        );
        if let Some((_, case, msg, _)) = failure {
            let path = format!("{}/evidence/{id}{}.{sub}.replay.json", self.out_dir, build_tag(is_release()));
            let _ = std::fs::create_dir_all(format!("{}/evidence", self.out_dir));
            let v = serde_json::json!({
                "property": id, "sub": sub, "seed": self.seed, "message": msg, "case": case,
            });
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("replay");
            println!("{id}/{sub}: {msg}");
            println!("minimal case: {case:?}");
            println!("VIOLATION property={id} replay={path}");
            self.violations.push(format!("{sub}: {msg}"));
        }
    }

    /// Write the evidence and exit.
    pub fn finish(self) -> ! {
        for (sig, what) in &self.findings {
            println!("KNOWN-FINDING: property={} sig={sig} {what}", self.id);
        }
        if self.replay.is_some() {
            let bad = !self.violations.is_empty();
            if bad {
                println!("VIOLATION property={} replay=given", self.id);
            }
            std::process::exit(bad as i32);
        }
        let per_sub: BTreeMap<_, _> = self
            .per_sub
            .iter()
            .map(|(k, (e, d))| {
                (
                    k.clone(),
                    serde_json::json!({"evaluations": e, "distinct_nontrivial": d}),
                )
            })
            .collect();
        let ev = serde_json::json!({
            "property": self.id,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": self.distinct,
                "rule": self.rule,
                "samples": self.samples,
                "distribution": self.labels,
                "per_generator": per_sub,
                "known_findings_seen": self.findings,
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.len(),
        });
        let dir = format!("{}/evidence", self.out_dir);
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            format!("{dir}/{}{}.json", self.id, build_tag(is_release())),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("evidence");
        if std::env::var("PGV_STATS").is_ok() {
            eprintln!("{}", serde_json::to_string_pretty(&self.labels).unwrap());
        }
        println!(
            "{}{}: {} cases, {} distinct non-trivial, {} violations",
            self.id,
            build_tag(is_release()),
            self.evaluations,
            self.distinct,
            self.violations.len()
        );
        std::process::exit(!self.violations.is_empty() as i32)
    }
}

/// Running in the build without debug assertions and overflow checks.
fn is_release() -> bool {
    std::env::var("PGV_RELEASE").is_ok()
}

fn build_tag(release: bool) -> &'static str {
    if release {
        ".release"
    } else {
        ""
    }
}

fn rss_gb() -> f64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| {
            s.split_whitespace()
                .nth(1)
                .and_then(|x| x.parse::<f64>().ok())
        })
        .map_or(0.0, |p| p * 4096.0 / 1e9)
}

fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| {
            p.file_name()
                .and_then(|n| n.to_str().and_then(|n| n.parse().ok()))
        })
        .unwrap_or(0)
}

/// CPU time used by a thread of this process.
fn cpu_secs(tid: u64) -> f64 {
    std::fs::read_to_string(format!("/proc/self/task/{tid}/stat"))
        .ok()
        .and_then(|s| {
            let rest = s.rsplit_once(')')?.1;
            let f: Vec<&str> = rest.split_whitespace().collect();
            Some(f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?)
        })
        .map_or(0.0, |ticks| ticks / 100.0)
}
