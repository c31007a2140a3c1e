//! Shared run bookkeeping: counters measured during the run, violations, known
//! findings, the evidence file and the exit status.
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// stable identification of the failing case (input, call site or history)
    pub key: String,
    pub what: String,
    /// a self-contained description that can be replayed by hand
    pub replay: String,
}

pub struct Report {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: i64,
    start: Instant,
    /// distinct states / cases reached
    pub states: AtomicU64,
    /// steps of the code under test that were executed
    pub transitions: AtomicU64,
    /// complete model traces compared step by step with the implementation
    pub traces: AtomicU64,
    distinct: Vec<Mutex<HashSet<u64>>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<Value>>,
    violations: Mutex<BTreeMap<String, Violation>>,
    bounds: Mutex<BTreeMap<String, Value>>,
    assumptions: Mutex<Vec<String>>,
    pub capped: AtomicBool,
    max_violations: usize,
    budget_s: f64,
}

const SHARDS: usize = 64;

impl Report {
    pub fn new(prop: &'static str, tier: Tier) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let budget_s = std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
            Tier::Quick => 300.0,
            Tier::Thorough => 780.0,
        });
        Report {
            prop,
            tier,
            seed,
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            distinct: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            outcomes: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(Vec::new()),
            violations: Mutex::new(BTreeMap::new()),
            bounds: Mutex::new(BTreeMap::new()),
            assumptions: Mutex::new(Vec::new()),
            capped: AtomicBool::new(false),
            max_violations: 400,
            budget_s,
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// picks the bound for the tier
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() { q } else { t }
    }

    /// registers a case; returns true if it was not seen before
    pub fn state<H: Hash + ?Sized>(&self, h: &H) -> bool {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        let v = s.finish();
        let new = self.distinct[(v % SHARDS as u64) as usize].lock().unwrap().insert(v);
        if new {
            self.states.fetch_add(1, Ordering::Relaxed);
        }
        new
    }
    pub fn step(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn trace(&self) {
        self.traces.fetch_add(1, Ordering::Relaxed);
    }
    pub fn outcome(&self, s: impl Into<String>) {
        *self.outcomes.lock().unwrap().entry(s.into()).or_insert(0) += 1;
    }
    pub fn outcome_n(&self, s: impl Into<String>, n: u64) {
        *self.outcomes.lock().unwrap().entry(s.into()).or_insert(0) += n;
    }
    pub fn sample(&self, v: impl Into<Value>) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v.into());
        }
    }
    pub fn bound(&self, k: &str, v: impl Into<Value>) {
        self.bounds.lock().unwrap().insert(k.to_string(), v.into());
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn violation(&self, key: impl Into<String>, what: impl Into<String>, replay: impl Into<String>) {
        let key: String = key.into().split_whitespace().collect::<Vec<_>>().join("_");
        let v = Violation { key, what: what.into(), replay: replay.into() };
        let mut m = self.violations.lock().unwrap();
        // the smallest replay per key is kept: simplest counterexample
        match m.get(&v.key) {
            Some(o) if (o.replay.len(), &o.replay) <= (v.replay.len(), &v.replay) => {}
            _ => {
                if m.len() < self.max_violations || m.contains_key(&v.key) {
                    m.insert(v.key.clone(), v);
                }
            }
        }
    }
    pub fn violation_count(&self) -> usize {
        self.violations.lock().unwrap().len()
    }
    /// the run may stop: enough counterexamples, or the time budget is used up
    pub fn stop(&self) -> bool {
        if self.violation_count() >= self.max_violations {
            return true;
        }
        if self.start.elapsed().as_secs_f64() > self.budget_s {
            self.capped.store(true, Ordering::Relaxed);
            return true;
        }
        false
    }

    /// a number that grows as long as the run makes progress
    pub fn progress(&self) -> u64 {
        [&self.states, &self.transitions, &self.traces].iter().map(|c| c.load(Ordering::Relaxed)).sum::<u64>()
            + LOADS.load(Ordering::Relaxed)
    }

    pub fn finish(&self, technique_note: &str) -> i32 {
        let root = verif_root();
        let known = load_known(&root);
        let mut viol = std::mem::take(&mut *self.violations.lock().unwrap_or_else(|e| e.into_inner()));
        for (what, text) in std::mem::take(&mut *ESCAPED.lock().unwrap()) {
            let key = format!("panic {what}").split_whitespace().collect::<Vec<_>>().join("_");
            viol.insert(key.clone(), Violation { key, what: format!("panicked: {what}"), replay: text });
        }
        let mut fresh: Vec<&Violation> = Vec::new();
        let mut hit: BTreeSet<String> = BTreeSet::new();
        for v in viol.values() {
            match known.iter().find(|k| k.property == self.prop && k.matches(&v.key)) {
                Some(k) => {
                    hit.insert(format!("KNOWN-FINDING: property={} {}", self.prop, k.what));
                }
                None => fresh.push(v),
            }
        }
        for h in &hit {
            println!("{h}");
        }
        fresh.sort_by_key(|v| (v.replay.len(), v.key.clone()));

        let wall = self.start.elapsed().as_secs_f64();
        let states = self.states.load(Ordering::Relaxed);
        let transitions = self.transitions.load(Ordering::Relaxed);
        let traces = self.traces.load(Ordering::Relaxed);
        let capped = self.capped.load(Ordering::Relaxed);
        let mut samples = self.samples.lock().unwrap_or_else(|e| e.into_inner()).clone();
        if samples.len() < 3 {
            // the last inputs of the worker threads
            let slots = SLOTS.lock().unwrap_or_else(|e| e.into_inner());
            let mut last: Vec<String> = slots
                .iter()
                .map(|s| s.lock().unwrap_or_else(|e| e.into_inner()).2.chars().take(1500).collect::<String>())
                .filter(|t| !t.is_empty())
                .collect();
            last.sort();
            last.dedup();
            samples.extend(last.into_iter().take(3).map(Value::from));
        }
        let outcomes = self.outcomes.lock().unwrap_or_else(|e| e.into_inner()).clone();
        let bounds = self.bounds.lock().unwrap_or_else(|e| e.into_inner()).clone();
        let ev = json!({
            "property": self.prop,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": states,
                "transitions": transitions,
                "traces_validated_against_impl": traces,
                "samples": if samples.is_empty() { vec![json!("none")] } else { samples },
                "exhaustive": !capped,
                "capped_by_time": capped,
                "bounds": bounds,
                "observed_outcomes": outcomes,
                "engine": technique_note,
            },
            "assumptions": self.assumptions.lock().unwrap_or_else(|e| e.into_inner()).clone(),
            "wall_s": (wall * 1000.0).round() / 1000.0,
            "violations": fresh.len(),
        });
        let dir = root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.json", self.prop));
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
            eprintln!("cannot write evidence {}: {e}", path.display());
            return 3;
        }
        println!(
            "{} {}: states={} transitions={} traces={} outcomes={} wall={:.1}s{} violations={} known={}",
            self.prop,
            if self.tier == Tier::Quick { "quick" } else { "thorough" },
            states,
            transitions,
            traces,
            outcomes.len(),
            wall,
            if capped { " CAPPED" } else { "" },
            fresh.len(),
            hit.len()
        );
        if fresh.is_empty() && (states == 0 || traces == 0) {
            eprintln!("vacuous run: nothing was explored");
            return 3;
        }
        if fresh.is_empty() {
            return 0;
        }
        let rdir = root.join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&rdir);
        for (i, v) in fresh.iter().enumerate().take(5) {
            let p = rdir.join(format!("{}-{}.txt", self.prop, i));
            let _ = std::fs::write(
                &p,
                format!("property: {}\nkey: {}\nwhat: {}\n----\n{}\n", self.prop, v.key, v.what, v.replay),
            );
            println!("VIOLATION property={} replay={}", self.prop, p.display());
            println!("  {}", first_lines(&v.what, 6));
        }
        if fresh.len() > 5 {
            println!("  ... and {} more counterexamples", fresh.len() - 5);
        }
        1
    }
}

fn first_lines(s: &str, n: usize) -> String {
    let mut t: String = s.lines().take(n).collect::<Vec<_>>().join("\n  ");
    if t.len() > 1500 {
        let mut e = 1500;
        while !t.is_char_boundary(e) {
            e -= 1;
        }
        t.truncate(e);
    }
    t
}

pub fn verif_root() -> PathBuf {
    std::env::var("MC_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub struct Known {
    pub property: String,
    pub key: String,
    pub what: String,
}
impl Known {
    fn matches(&self, key: &str) -> bool {
        self.key == key
    }
}

/// lines `finding: property=<id> key=<key without blanks> <what fails>`;
/// `fixed:` lines and comments suppress nothing
fn load_known(root: &std::path::Path) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(root.join("known-findings.txt")) else { return vec![] };
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (p, l) = l.split_once(" key=")?;
            let (k, w) = l.split_once(' ')?;
            Some(Known { property: p.to_string(), key: k.to_string(), what: w.to_string() })
        })
        .collect()
}

// ---------------------------------------------------------------- guarded execution

use std::cell::Cell;
thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| q.get()) {
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            LAST.with(|l| *l.borrow_mut() = format!("{} [{}]", msg.chars().take(300).collect::<String>(), loc));
        } else {
            prev(i)
        }
    }));
}

static LOADS: AtomicU64 = AtomicU64::new(0);
static ESCAPED: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
type Slot = std::sync::Arc<Mutex<(Instant, bool, String)>>;
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(Vec::new());
thread_local! {
    static SLOT: Slot = {
        let s: Slot = std::sync::Arc::new(Mutex::new((Instant::now(), false, String::new())));
        SLOTS.lock().unwrap().push(s.clone());
        s
    };
}

/// notes the text that this thread hands to the code under test
pub fn note_load(text: &str, busy: bool) {
    LOADS.fetch_add(1, Ordering::Relaxed);
    SLOT.with(|s| {
        let mut g = s.lock().unwrap();
        g.0 = Instant::now();
        g.1 = busy;
        if busy {
            g.2.clear();
            g.2.push_str(text);
        }
    })
}
/// the text whose reading has taken longest and still goes on
pub fn longest_load() -> Option<(f64, String)> {
    SLOTS
        .lock()
        .unwrap()
        .iter()
        .filter_map(|s| {
            let g = s.lock().unwrap();
            g.1.then(|| (g.0.elapsed().as_secs_f64(), g.2.clone()))
        })
        .max_by(|a, b| a.0.total_cmp(&b.0))
}

/// runs one case; a panic that no guard took becomes a violation, so that
/// the remaining cases still run
pub fn shield(f: impl FnOnce()) {
    let was = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    if r.is_err() {
        let what = LAST.with(|l| l.borrow().clone());
        let text = SLOT.with(|s| s.lock().unwrap().2.clone());
        let mut e = ESCAPED.lock().unwrap();
        if e.len() < 50 && !e.iter().any(|o| o.0 == what) {
            e.push((what, text));
        }
    }
}

/// runs code under test; a panic becomes Err(description)
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}
