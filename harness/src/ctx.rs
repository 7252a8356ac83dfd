//! Bookkeeping of one check: counts, violations, known findings, evidence
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
struct Fail {
    what: String,
    detail: Value,
    known: bool,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub deadline: Instant,
    pub verif: PathBuf,
    /// replay: run only the case with this name
    pub only: Option<String>,
    known: BTreeSet<String>,
    fails: Mutex<BTreeMap<String, Fail>>,
    nfails: AtomicUsize,
    pub evaluations: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub validated: AtomicU64,
    pub capped: AtomicBool,
    cap_notes: Mutex<BTreeSet<String>>,
    samples: Mutex<Vec<String>>,
    extra: Mutex<BTreeMap<String, Value>>,
    assumptions: Mutex<Vec<String>>,
    pub errors: Mutex<Vec<String>>,
    /// what each thread is doing
    slots: Mutex<HashMap<std::thread::ThreadId, (String, Instant)>>,
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

const MAX_FAILS: usize = 12;

/// Notices code that takes all the memory
pub struct Limited;
static HUGE: AtomicBool = AtomicBool::new(false);
thread_local! {
    /// bytes taken by the real code that runs in this thread
    static MINE: Cell<Option<isize>> = const { Cell::new(None) };
}
impl Limited {
    fn add(n: isize) {
        let _ = MINE.try_with(|m| {
            if let Some(x) = m.get() {
                if x + n > 2 << 30 && n > 0 {
                    // ended by the watching thread
                    HUGE.store(true, SeqCst);
                    loop {
                        std::thread::sleep(Duration::from_secs(1))
                    }
                }
                m.set(Some(x + n))
            }
        });
    }
}
unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        Self::add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        Self::add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        Self::add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        Self::add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, only: Option<String>) -> Self {
        let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let mut known = BTreeSet::new();
        if let Ok(s) = std::fs::read_to_string(verif.join("known-findings.txt")) {
            for l in s.lines() {
                let Some(rest) = l.strip_prefix("finding: ") else {
                    continue;
                };
                let mut it = rest.split_whitespace();
                if it.next() == Some(&format!("property={prop}")) {
                    if let Some(k) = it.next().and_then(|k| k.strip_prefix("key=")) {
                        known.insert(k.to_string());
                    }
                }
            }
        }
        let start = Instant::now();
        let budget = std::env::var("VERIF_BUDGET")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { 780 } else { 150 });
        Self {
            prop: prop.to_string(),
            thorough,
            seed,
            start,
            deadline: start + Duration::from_secs(budget),
            verif,
            only,
            known,
            fails: Default::default(),
            nfails: AtomicUsize::new(0),
            evaluations: AtomicU64::new(0),
            distinct: Default::default(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            validated: AtomicU64::new(0),
            capped: AtomicBool::new(false),
            cap_notes: Default::default(),
            samples: Default::default(),
            extra: Default::default(),
            assumptions: Default::default(),
            errors: Default::default(),
            slots: Default::default(),
        }
    }

    pub fn tier(&self) -> &'static str {
        if self.thorough {
            "thorough"
        } else {
            "quick"
        }
    }

    /// pick a bound by tier
    pub fn by<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Should this case run (in a replay only the recorded one does)?
    pub fn want(&self, case: &str) -> bool {
        self.only.as_deref().is_none_or(|o| o == case)
    }

    /// Enough failures, or out of time
    pub fn stop(&self) -> bool {
        if self.nfails.load(SeqCst) >= MAX_FAILS {
            return true;
        }
        if Instant::now() > self.deadline {
            self.cap("time limit reached");
            return true;
        }
        false
    }

    pub fn cap(&self, why: &str) {
        self.capped.store(true, SeqCst);
        self.cap_notes.lock().unwrap().insert(why.to_string());
    }

    pub fn eval(&self) {
        self.evaluations.fetch_add(1, SeqCst);
    }

    /// Count a distinct, non-trivial case, identified by a hash
    pub fn nontrivial(&self, h: u64) {
        self.distinct.lock().unwrap().insert(h);
    }

    pub fn nontrivial_many(&self, hs: impl IntoIterator<Item = u64>) {
        self.distinct.lock().unwrap().extend(hs)
    }

    pub fn ndistinct(&self) -> u64 {
        self.distinct.lock().unwrap().len() as u64
    }

    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 6 {
            let mut s: String = s.into();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1
                }
                s.truncate(n);
                s.push_str("...");
            }
            v.push(s)
        }
    }

    pub fn note(&self, key: &str, v: impl Into<Value>) {
        self.extra.lock().unwrap().insert(key.into(), v.into());
    }

    /// Add to a counter of the evidence file
    pub fn count(&self, key: &str, n: u64) {
        let mut e = self.extra.lock().unwrap();
        let old = e.get(key).and_then(|v| v.as_u64()).unwrap_or(0);
        e.insert(key.into(), json!(old + n));
    }

    pub fn assume(&self, s: &str) {
        let mut a = self.assumptions.lock().unwrap();
        if !a.iter().any(|x| x == s) {
            a.push(s.to_string())
        }
    }

    /// The machinery failed
    pub fn error(&self, s: impl Into<String>) {
        let s = s.into();
        eprintln!("ENGINE ERROR: {s}");
        self.errors.lock().unwrap().push(s)
    }

    /// The property failed in `case`
    pub fn fail(&self, case: &str, what: impl Into<String>, detail: Value) {
        let case = case.replace(char::is_whitespace, "_");
        let known = self.known.contains(&case);
        let mut f = self.fails.lock().unwrap();
        if f.contains_key(&case) {
            return;
        }
        if !known && self.nfails.fetch_add(1, SeqCst) >= MAX_FAILS {
            return;
        }
        f.insert(
            case,
            Fail {
                what: what.into(),
                detail,
                known,
            },
        );
    }

    pub fn failed(&self) -> bool {
        self.nfails.load(SeqCst) > 0
    }

    /// Run real code; if it does not end, that is a failure of the case
    pub fn within<T>(&self, case: &str, f: impl FnOnce() -> T) -> T {
        struct Done<'a>(&'a Ctx, std::thread::ThreadId);
        impl Drop for Done<'_> {
            fn drop(&mut self) {
                self.0.slots.lock().unwrap().remove(&self.1);
            }
        }
        let id = std::thread::current().id();
        self.slots.lock().unwrap().insert(id, (case.to_string(), Instant::now()));
        let _done = Done(self, id);
        MINE.with(|m| m.set(Some(0)));
        let r = f();
        MINE.with(|m| m.set(None));
        r
    }

    /// Watch for code that does not end or takes all the memory
    pub fn watch(&'static self, level: &'static str, rule: &'static str) {
        std::thread::spawn(move || {
            let mut last = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let mut why = vec![];
                let huge = HUGE.load(SeqCst);
                for (case, start) in self.slots.lock().unwrap().values() {
                    if start.elapsed() > Duration::from_secs(40) {
                        why.push((case.clone(), "does not end within 40 s"));
                    } else if huge && start.elapsed() > Duration::from_secs(2) {
                        why.push((case.clone(), "takes more than 2 GB of memory"));
                    }
                }
                let now = [&self.evaluations, &self.states, &self.transitions, &mcsched::HEARTBEAT].iter().map(|x| x.load(SeqCst)).sum::<u64>();
                if now != last.0 {
                    last = (now, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(240) {
                    why.push(("stalled".into(), "no run ended within 240 s"));
                }
                if !why.is_empty() {
                    for (case, what) in why {
                        self.fail(&case, what, json!({}));
                    }
                    let rc = self.finish(level, rule);
                    std::process::exit(rc)
                }
            }
        });
    }

    /// Write the evidence, print the verdict, return the exit code
    pub fn finish(&self, level: &str, rule: &str) -> i32 {
        let errors = std::mem::take(&mut *self.errors.lock().unwrap());
        let fails = std::mem::take(&mut *self.fails.lock().unwrap());
        let mut violations = 0;
        let mut known = 0;
        let out = self.verif.join("out");
        let _ = std::fs::create_dir_all(&out);
        for (case, f) in &fails {
            if f.known {
                known += 1;
                let mut what = f.what.replace('\n', "\\n");
                if let Some((n, _)) = what.char_indices().nth(200) {
                    what.truncate(n);
                    what += "...";
                }
                println!("KNOWN-FINDING: property={} {} [{}]", self.prop, what, case);
            } else {
                violations += 1;
                let path = out.join(format!("{}-{}.json", self.prop, violations));
                let body = json!({
                    "property": self.prop,
                    "tier": if self.thorough {"thorough"} else {"quick"},
                    "case": case,
                    "what": f.what,
                    "detail": f.detail,
                    "replay_cmd": format!("/verif/run.sh {} {} --replay {}", self.prop,
                        if self.thorough {"thorough"} else {"quick"}, path.display()),
                });
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
                println!("# {}: {}", case, f.what.replace('\n', "\\n"));
                println!("VIOLATION property={} replay={}", self.prop, path.display());
            }
        }
        let capped = self.capped.load(SeqCst);
        let ev = self.evaluations.load(SeqCst);
        let distinct = self.distinct.lock().unwrap().len() as u64;
        let mut cov = serde_json::Map::new();
        for (k, v) in std::mem::take(&mut *self.extra.lock().unwrap()) {
            cov.insert(k, v);
        }
        match level {
            "model_checking" => {
                cov.insert("states".into(), json!(self.states.load(SeqCst)));
                cov.insert("transitions".into(), json!(self.transitions.load(SeqCst)));
                cov.insert(
                    "traces_validated_against_impl".into(),
                    json!(self.validated.load(SeqCst)),
                );
                cov.insert("complete_executions".into(), json!(ev));
                cov.insert("distinct_outcomes".into(), json!(distinct));
            }
            _ => {
                cov.insert("evaluations".into(), json!(ev));
                cov.insert("distinct_nontrivial".into(), json!(distinct));
                let st = self.states.load(SeqCst);
                if st > 0 {
                    cov.insert("schedule_states".into(), json!(st));
                    cov.insert(
                        "schedule_transitions".into(),
                        json!(self.transitions.load(SeqCst)),
                    );
                }
                let v = self.validated.load(SeqCst);
                if v > 0 {
                    cov.insert("cross_validated".into(), json!(v));
                }
            }
        }
        cov.insert("rule".into(), json!(rule));
        cov.insert("samples".into(), json!(std::mem::take(&mut *self.samples.lock().unwrap())));
        cov.insert("exhaustive".into(), json!(!capped && violations == 0 && errors.is_empty()));
        let caps = std::mem::take(&mut *self.cap_notes.lock().unwrap());
        if !caps.is_empty() {
            cov.insert("caps_hit".into(), json!(caps));
        }
        let wall = self.start.elapsed().as_secs_f64();
        let evidence = json!({
            "property": self.prop,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": std::mem::take(&mut *self.assumptions.lock().unwrap()),
            "wall_s": wall,
            "violations": violations,
            "known_findings": known,
        });
        if self.only.is_none() {
            let dir = self.verif.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(
                dir.join(format!("{}.json", self.prop)),
                serde_json::to_string_pretty(&evidence).unwrap(),
            )
            .expect("cannot write evidence");
        }
        println!(
            "{} {}: {} evaluations, {} distinct, {} states, {} transitions, {} violations, {} known, {:.1}s{}",
            self.prop,
            if self.thorough { "thorough" } else { "quick" },
            ev,
            distinct,
            self.states.load(SeqCst),
            self.transitions.load(SeqCst),
            violations,
            known,
            wall,
            if capped { " (capped)" } else { "" }
        );
        if violations > 0 {
            1
        } else if !errors.is_empty() {
            2
        } else {
            0
        }
    }
}

/// Run `f` on all items, on several threads
pub fn par_for<T: Sync>(items: &[T], f: impl Fn(&T) + Sync) {
    par_for_n(8, items, f)
}

pub fn par_for_n<T: Sync>(threads: usize, items: &[T], f: impl Fn(&T) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads.min(items.len().max(1)) {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= items.len() {
                        break;
                    }
                    f(&items[i]);
                })
                .unwrap();
        }
    });
}

/// All tuples over `0..dims[i]`, in order
pub struct Odometer {
    dims: Vec<usize>,
    cur: Option<Vec<usize>>,
}
impl Odometer {
    pub fn new(dims: Vec<usize>) -> Self {
        let cur = if dims.iter().all(|d| *d > 0) {
            Some(vec![0; dims.len()])
        } else {
            None
        };
        Self { dims, cur }
    }
    pub fn pow(n: usize, k: usize) -> Self {
        Self::new(vec![n; k])
    }
}
impl Iterator for Odometer {
    type Item = Vec<usize>;
    fn next(&mut self) -> Option<Vec<usize>> {
        let r = self.cur.clone()?;
        let c = self.cur.as_mut().unwrap();
        let mut i = c.len();
        loop {
            if i == 0 {
                self.cur = None;
                break;
            }
            i -= 1;
            c[i] += 1;
            if c[i] < self.dims[i] {
                break;
            }
            c[i] = 0;
        }
        Some(r)
    }
}
