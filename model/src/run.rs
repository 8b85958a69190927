//! Runtime for the monitors: seeded cases on all cores, three-valued verdicts, evidence, replays.
use crate::rng::Rng;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::os::unix::fs::FileExt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What a monitor says about one execution: `Err` is a violation.
pub type Verdict = Result<(), Violation>;

#[derive(Clone, Debug)]
pub struct Violation {
    /// Short stable signature (for matching known findings).
    pub sig: String,
    pub detail: String,
}
impl From<String> for Violation {
    fn from(detail: String) -> Self {
        Violation {
            sig: String::new(),
            detail,
        }
    }
}
impl From<&str> for Violation {
    fn from(detail: &str) -> Self {
        detail.to_string().into()
    }
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !($cond) {
            return Err($crate::Violation::from(format!($($arg)+)));
        }
    };
}

pub struct Case {
    pub rng: Rng,
    pub index: u64,
    pub stream: String,
    pub thorough: bool,
    counts: BTreeMap<String, u64>,
    keys: Vec<u64>,
    input: String,
}
impl Case {
    pub fn count(&mut self, what: &str) {
        self.add(what, 1);
    }
    pub fn add(&mut self, what: &str, n: u64) {
        if let Some(x) = self.counts.get_mut(what) {
            *x += n;
        } else {
            self.counts.insert(what.to_string(), n);
        }
    }
    /// Describe the input being run (ends up in samples and in replay files).
    pub fn input(&mut self, s: String) {
        self.input = s;
    }
    pub fn more_input(&mut self, s: &str) {
        self.input.push_str(s);
    }
    /// This case was non-trivial; `key` identifies it for counting distinct ones.
    pub fn nontrivial<K: Hash>(&mut self, key: K) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut h);
        self.keys.push(h.finish());
    }
}

#[derive(Default)]
struct Agg {
    evaluations: u64,
    counts: BTreeMap<String, u64>,
    keys: HashSet<u64>,
    samples: BTreeMap<String, Vec<String>>,
    violations: Vec<Found>,
    violations_total: u64,
}
#[derive(Clone)]
struct Found {
    stream: String,
    index: u64,
    input: String,
    v: Violation,
}

pub struct Check {
    pub prop: &'static str,
    pub seed: u64,
    pub tier: String,
    pub thorough: bool,
    level: &'static str,
    rule: String,
    start: Instant,
    agg: Mutex<Agg>,
    required: Vec<(String, u64)>,
    assumptions: Vec<String>,
    only: Option<(String, u64)>,
    truncated: bool,
    cap: Duration,
    root: PathBuf,
    known: Vec<(String, String)>,
    slots: Arc<Vec<Slot>>,
    inflight: Option<std::fs::File>,
    pub threads: usize,
    /// This is the shorter pass over a build like the one users install: without debug assertions
    /// and overflow checks.
    plain: bool,
}
/// What a worker thread is running right now.
#[derive(Default)]
struct Slot {
    since_ms: AtomicU64,
    index: AtomicU64,
    stream: Mutex<String>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static QUIET: AtomicBool = AtomicBool::new(false);

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// Runs `f`, turning a panic into its message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Ends the tools this process still runs (a run that hangs must not outlive its check).
fn end_children() {
    let me = std::process::id().to_string();
    for e in std::fs::read_dir("/proc").into_iter().flatten().flatten() {
        let Some(pid) = e.file_name().to_str().filter(|n| n.bytes().all(|b| b.is_ascii_digit())).map(String::from) else { continue };
        let stat = std::fs::read_to_string(e.path().join("stat")).unwrap_or_default();
        // after the name: state, parent
        if stat.rsplit_once(") ").and_then(|(_, r)| r.split(' ').nth(1)) == Some(&me) {
            let _ = std::process::Command::new("kill").args(["-9", &pid]).status();
        }
    }
}

impl Check {
    pub fn start(prop: &'static str, level: &'static str, rule: &str) -> Check {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => "thorough",
            _ => "quick",
        }
        .to_string();
        let only = std::env::var("VERIF_REPLAY").ok().and_then(|s| {
            let (a, b) = s.rsplit_once(':')?;
            Some((a.to_string(), b.parse().ok()?))
        });
        std::panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
            if !QUIET.load(Ordering::Relaxed) {
                // panics of the code under test are verdicts; keep the log readable
            }
        }));
        let thorough = tier == "thorough";
        let cap = Duration::from_secs(if thorough { 3000 } else { 200 });
        let cap = if std::env::var("VERIF_PASS").as_deref() == Ok("plain") { cap / 4 } else { cap };
        let root = root();
        let known = load_known(&root, prop);
        let slots: Arc<Vec<Slot>> = Arc::new((0..64).map(|_| Slot::default()).collect());
        let _ = std::fs::create_dir_all(root.join("out"));
        let inflight = std::fs::File::create(root.join("out").join(format!("inflight-{}", prop))).ok();
        let c = Check {
            prop,
            seed,
            thorough,
            tier,
            level,
            rule: rule.to_string(),
            start: Instant::now(),
            agg: Mutex::new(Agg::default()),
            required: vec![],
            assumptions: vec![],
            only,
            truncated: false,
            cap,
            root,
            known,
            slots: slots.clone(),
            inflight,
            threads: std::thread::available_parallelism()
                .map(|x| x.get())
                .unwrap_or(4)
                .clamp(2, 16),
            plain: std::env::var("VERIF_PASS").as_deref() == Ok("plain"),
        };
        // Watchdog. A single case that does not come back (cases take well under a second) is a
        // violation; a run that is slow as a whole is inconclusive.
        let limit = Duration::from_secs(if thorough { 3600 } else { 500 });
        let stuck = Duration::from_secs(if thorough { 900 } else { 200 });
        let (t0, seed, tier, root) = (c.start, c.seed, c.tier.clone(), c.root.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = t0.elapsed();
            for slot in slots.iter() {
                let since = slot.since_ms.load(Ordering::SeqCst);
                if since == 0 || now.saturating_sub(Duration::from_millis(since)) < stuck {
                    continue;
                }
                let (stream, index) = (slot.stream.lock().unwrap().clone(), slot.index.load(Ordering::SeqCst));
                let rdir = root.join("out").join("replay");
                let _ = std::fs::create_dir_all(&rdir);
                let p = rdir.join(format!("{}-{}-{}.json", prop, stream.replace(' ', "_"), index));
                let v = json!({
                    "property": prop, "seed": seed, "tier": tier, "stream": stream, "index": index,
                    "detail": format!("no answer after {:?}", stuck),
                    "replay": format!("VERIF_SEED={} VERIF_TIER={} VERIF_REPLAY='{}:{}' bash /verif/check.sh {}", seed, tier, stream, index, prop),
                });
                let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap() + "\n");
                println!("  detail: case {}:{} gave no answer after {:?}", stream, index, stuck);
                println!("VIOLATION property={} replay={}", prop, p.display());
                end_children();
                std::process::exit(1);
            }
            if now > limit {
                println!(
                    "INCONCLUSIVE property={} watchdog after {:?} at case {}",
                    prop,
                    limit,
                    PROGRESS.load(Ordering::Relaxed)
                );
                end_children();
                std::process::exit(2);
            }
        });
        c
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    /// The run is inconclusive unless `what` was observed at least `n` times.
    pub fn require(&mut self, what: &str, n: u64) {
        self.required.push((what.to_string(), n));
    }
    pub fn scaled(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough { thorough } else { quick };
        // in the pass over the plain build: a quarter, but not less than 40
        if self.plain {
            (n / 4).max(n.min(40))
        } else {
            n
        }
    }
    pub fn cases<F>(&mut self, stream: &str, quick: u64, thorough: u64, f: F)
    where
        F: Fn(&mut Case) -> Verdict + Sync,
    {
        let threads = self.threads;
        self.cases_on(stream, quick, thorough, threads, f)
    }
    pub fn cases_on<F>(&mut self, stream: &str, quick: u64, thorough: u64, threads: usize, f: F)
    where
        F: Fn(&mut Case) -> Verdict + Sync,
    {
        let begun = Instant::now();
        let n = self.scaled(quick, thorough);
        let mut range = (0u64, n);
        if let Some((s, i)) = &self.only {
            if s != stream {
                return;
            }
            range = (*i, *i + 1);
        }
        let next = AtomicU64::new(range.0);
        let bad = AtomicUsize::new(0);
        let cut = AtomicBool::new(false);
        let tag = format!("{}{}/{}", self.prop, if self.plain { "+" } else { "" }, stream);
        let this: &Check = self;
        std::thread::scope(|s| {
            for t in 0..threads {
                let slot = &this.slots[t % this.slots.len()];
                *slot.stream.lock().unwrap() = stream.to_string();
                let (next, bad, cut, tag) = (&next, &bad, &cut, &tag);
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let mut known_kept = 0;
                        let mut local = Agg::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= range.1 || bad.load(Ordering::Relaxed) >= 8 {
                                break;
                            }
                            if this.start.elapsed() > this.cap {
                                cut.store(true, Ordering::Relaxed);
                                break;
                            }
                            PROGRESS.store(i, Ordering::Relaxed);
                            slot.index.store(i, Ordering::SeqCst);
                            slot.since_ms
                                .store(this.start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                            if let Some(file) = &this.inflight {
                                let line = format!("{:<120}", format!("{}:{}", stream, i));
                                let line = line.as_bytes()[..120].iter().copied().chain([b'\n']);
                                let line: Vec<u8> = line.collect();
                                let _ = file.write_all_at(&line, (t * 121) as u64);
                            }
                            let mut case = Case {
                                rng: Rng::for_case(tag, this.seed, i),
                                index: i,
                                stream: stream.to_string(),
                                thorough: this.thorough,
                                counts: BTreeMap::new(),
                                keys: vec![],
                                input: String::new(),
                            };
                            let r = match guarded(|| f(&mut case)) {
                                Ok(r) => r,
                                Err(p) => Err(Violation {
                                    sig: "panic".into(),
                                    detail: format!("panicked: {}", p),
                                }),
                            };
                            slot.since_ms.store(0, Ordering::SeqCst);
                            local.evaluations += 1;
                            for (k, v) in std::mem::take(&mut case.counts) {
                                *local.counts.entry(k).or_default() += v;
                            }
                            let nontrivial = !case.keys.is_empty();
                            if nontrivial {
                                // one key per case
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                case.keys.hash(&mut h);
                                local.keys.insert(h.finish());
                            }
                            if nontrivial && i < range.0 + 40 && case.input.len() < 3000 {
                                let s = local.samples.entry(stream.to_string()).or_default();
                                if s.len() < 2 {
                                    s.push(case.input.clone());
                                }
                            }
                            if let Err(v) = r {
                                if this.is_known(&v) {
                                    *local
                                        .counts
                                        .entry(format!("known finding: {}", v.sig))
                                        .or_default() += 1;
                                    known_kept += 1;
                                    if known_kept > 2 {
                                        continue;
                                    }
                                } else {
                                    bad.fetch_add(1, Ordering::Relaxed);
                                }
                                local.violations_total += 1;
                                local.violations.push(Found {
                                    stream: stream.to_string(),
                                    index: i,
                                    input: case.input.clone(),
                                    v,
                                });
                            }
                        }
                        let mut g = this.agg.lock().unwrap();
                        g.evaluations += local.evaluations;
                        for (k, v) in local.counts {
                            *g.counts.entry(k).or_default() += v;
                        }
                        g.keys.extend(local.keys);
                        for (k, v) in local.samples {
                            let s = g.samples.entry(k).or_default();
                            s.extend(v);
                            s.truncate(2);
                        }
                        g.violations.extend(local.violations);
                        g.violations_total += local.violations_total;
                    })
                    .unwrap();
            }
        });
        eprintln!("{}: {:.1}s", tag, begun.elapsed().as_secs_f64());
        if cut.load(Ordering::Relaxed) {
            self.truncated = true;
        }
    }
    /// Add an observation made outside of `cases`.
    pub fn note(&self, what: &str, n: u64) {
        *self
            .agg
            .lock()
            .unwrap()
            .counts
            .entry(what.to_string())
            .or_default() += n;
    }
    fn is_known(&self, v: &Violation) -> bool {
        !v.sig.is_empty() && self.known.iter().any(|k| k.0 == v.sig)
    }
    pub fn finish(self) -> ! {
        let mut g = std::mem::take(&mut *self.agg.lock().unwrap());
        g.violations.sort_by_key(|f| (f.stream.clone(), f.index));
        let known = &self.known;
        let mut fresh: Vec<Found> = vec![];
        let mut seen_known: BTreeMap<String, String> = BTreeMap::new();
        for f in &g.violations {
            if let Some(k) = known.iter().find(|k| !f.v.sig.is_empty() && k.0 == f.v.sig) {
                seen_known.insert(k.0.clone(), k.1.clone());
            } else {
                fresh.push(f.clone());
            }
        }
        for (_, what) in seen_known.iter().filter(|_| !self.plain) {
            println!("KNOWN-FINDING: property={} {}", self.prop, what);
        }
        let missing: Vec<String> = self
            .required
            .iter()
            .filter(|(k, n)| g.counts.get(k).copied().unwrap_or(0) < *n)
            .map(|(k, n)| {
                format!(
                    "{}: saw {}, need {}",
                    k,
                    g.counts.get(k).copied().unwrap_or(0),
                    n
                )
            })
            .collect();
        let samples: Vec<Value> = g
            .samples
            .iter()
            .flat_map(|(k, v)| v.iter().map(move |s| json!({"stream": k, "input": s})))
            .collect();
        let wall = self.start.elapsed().as_secs_f64();
        let plain_file = self.root.join("out").join(format!("plain-{}.json", self.prop));
        let plain: Value = match std::fs::read_to_string(&plain_file) {
            Ok(t) if !self.plain => serde_json::from_str(&t).unwrap_or(Value::Null),
            _ => Value::Null,
        };
        let evidence = json!({
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": g.evaluations,
                "distinct_nontrivial": g.keys.len(),
                "rule": self.rule,
                "observed": g.counts,
                "samples": samples,
                "cut_short_by_time": self.truncated,
                "known_findings_seen": seen_known.keys().collect::<Vec<_>>(),
                "plain_build": plain,
            },
            "assumptions": self.assumptions,
            "wall_s": (wall * 100.0).round() / 100.0,
            "violations": fresh.len(),
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if self.plain {
            let part = json!({"evaluations": g.evaluations, "distinct_nontrivial": g.keys.len(), "observed": g.counts,
                "seed": self.seed, "tier": self.tier, "violations": fresh.len()});
            let _ = std::fs::write(&plain_file, part.to_string());
        }
        if self.only.is_none() && (!self.plain || !fresh.is_empty()) {
            std::fs::write(
                dir.join(format!("{}.json", self.prop)),
                serde_json::to_string_pretty(&evidence).unwrap() + "\n",
            )
            .expect("cannot write evidence");
        }
        if !fresh.is_empty() {
            let rdir = self.root.join("out").join("replay");
            let _ = std::fs::create_dir_all(&rdir);
            for f in fresh.iter().take(3) {
                let p = rdir.join(format!("{}-{}{}-{}.json", self.prop, if self.plain { "plain-" } else { "" }, f.stream.replace(' ', "_"), f.index));
                let v = json!({
                    "property": self.prop, "seed": self.seed, "tier": self.tier,
                    "stream": f.stream, "index": f.index, "input": f.input,
                    "signature": f.v.sig, "detail": f.v.detail,
                    "replay": format!("VERIF_SEED={} VERIF_TIER={} {}VERIF_REPLAY='{}:{}' bash /verif/check.sh {}", self.seed, self.tier, if self.plain { "VERIF_PASS=plain " } else { "" }, f.stream, f.index, self.prop),
                });
                let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap() + "\n");
                println!("  detail: {}", cut(&f.v.detail, 1500));
                println!("  input: {}", cut(&f.input, 1500));
                println!("VIOLATION property={} replay={}", self.prop, p.display());
            }
            std::process::exit(1);
        }
        if self.only.is_none() && !self.plain && !missing.is_empty() {
            println!(
                "INCONCLUSIVE property={} too little observed: {}",
                self.prop,
                missing.join("; ")
            );
            std::process::exit(2);
        }
        println!(
            "OK property={}{} tier={} seed={} evaluations={} distinct_nontrivial={} wall={:.1}s",
            self.prop,
            if self.plain { " (plain build)" } else { "" },
            self.tier,
            self.seed,
            g.evaluations,
            g.keys.len(),
            wall
        );
        std::process::exit(0);
    }
}

fn cut(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    }
}

fn load_known(root: &PathBuf, prop: &str) -> Vec<(String, String)> {
    let p = root.join("known_findings.json");
    let Ok(text) = std::fs::read_to_string(p) else {
        return vec![];
    };
    let v: Value = serde_json::from_str(&text).expect("known_findings.json");
    v["known"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|k| k["property"] == prop)
                .map(|k| {
                    (
                        k["signature"].as_str().unwrap_or("").to_string(),
                        k["what"].as_str().unwrap_or("").to_string(),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

/// Scratch directory that is removed on drop.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::temp_dir();
        let p = base.join(format!(
            "verif-{}-{}-{}",
            tag,
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
