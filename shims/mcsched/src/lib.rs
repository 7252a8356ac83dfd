//! Stateless model checker for code that runs on rayon tasks and parking_lot locks.
//!
//! The patched `rayon-core` turns every parallel branch (`join`, `scope` spawn) into a logical
//! task, the patched `parking_lot` reports every lock operation.  Inside an [`Explorer`] each task
//! runs on an OS thread of its own, but only the thread which holds the token runs.  The token is
//! handed over at *visible operations* (start of a task, acquisition of a lock, waiting for a
//! task); the explorer enumerates the choices depth first, either all of them ([`Mode::Naive`],
//! optionally with a bound on preemptions) or one per Mazurkiewicz trace
//! ([`Mode::Dpor`]: dynamic partial-order reduction with sleep sets).
//!
//! Outside of an explorer nothing is scheduled: [`active`] is false and the shims run everything
//! sequentially on the calling thread.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::thread::Thread;
use std::time::{Duration, Instant};

pub type TaskId = usize;
type LockId = usize;
pub type Payload = Box<dyn Any + Send + 'static>;

/// Visible operations
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Start,
    Join(TaskId),
    Read(LockId),
    Write(LockId),
    TryRead(LockId),
    TryWrite(LockId),
    /// a task queues for exclusive access (only scheduled where this can be observed)
    Want(LockId),
    /// (lock, exclusive): only scheduled where this can be observed
    Release(LockId, bool),
    /// voluntary yield
    Yield,
}

fn lock_of(op: Op) -> Option<(LockId, bool)> {
    match op {
        Op::Read(l) | Op::TryRead(l) => Some((l, false)),
        Op::Write(l) | Op::TryWrite(l) => Some((l, true)),
        _ => None,
    }
}

/// The order of the operations matters, and both can come first
fn dependent(a: Op, b: Op) -> bool {
    match (a, b) {
        (Op::Want(l), Op::Read(m)) | (Op::Read(m), Op::Want(l)) => l == m,
        (Op::Release(l, true), Op::TryRead(m)) | (Op::TryRead(m), Op::Release(l, true)) => l == m,
        (Op::Release(l, _), Op::TryWrite(m)) | (Op::TryWrite(m), Op::Release(l, _)) => l == m,
        _ => match (lock_of(a), lock_of(b)) {
            (Some((l, wa)), Some((m, wb))) => l == m && (wa || wb),
            _ => false,
        },
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// one execution per equivalence class (DPOR with sleep sets)
    Dpor,
    /// every schedule with at most this many preemptions
    Naive { preemptions: Option<usize> },
    /// every schedule with at most this many deviations from the default (go on with the same
    /// task, or with the first one that can), without reduction: also sees communication that
    /// the scheduler does not know of
    Deviations(usize),
}

/// How one execution ended
#[derive(Debug)]
pub enum End<T> {
    /// Normal end, with the return value of the body
    Ok(T),
    /// A task panicked
    Panic(String),
    /// No task can proceed
    Deadlock(String),
    /// More visible operations than the horizon allows
    Horizon,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    /// complete executions
    pub executions: u64,
    /// executions cut because an equivalent one was explored before
    pub redundant: u64,
    /// distinct scheduling states (nodes of the search tree)
    pub states: u64,
    /// visible operations executed, including those of replayed prefixes
    pub transitions: u64,
    pub max_depth: usize,
    pub max_tasks: usize,
    /// the search was stopped by the limit on executions or time
    pub capped: bool,
    /// preemption-bounded alternatives that were not followed
    pub bounded: u64,
}

type VC = Vec<u32>;
fn vc_join(a: &mut VC, b: &VC) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}

struct Task {
    pending: Option<Op>,
    started: bool,
    done: bool,
    parent: Option<TaskId>,
    job: Option<Box<dyn FnOnce() + Send>>,
    panic: Option<Payload>,
    clock: VC,
    /// (lock, exclusive, taken on a pool worker)
    held: Vec<(LockId, bool, bool)>,
    /// nesting depth of parallel constructs
    depth: usize,
    try_result: bool,
}

#[derive(Default)]
struct Lock {
    writer: Option<TaskId>,
    readers: Vec<TaskId>,
    wclock: VC,
    rclock: VC,
    /// announcements of writers
    want_clock: VC,
    /// `Op::Read` only
    read_clock: VC,
}

#[derive(Clone, Debug)]
struct Step {
    task: TaskId,
    op: Op,
    /// of the task, after the operation
    clock: VC,
}

#[derive(Debug)]
enum Node {
    Sched {
        enabled: Vec<(TaskId, Op)>,
        chosen: TaskId,
        backtrack: BTreeSet<TaskId>,
        done: BTreeSet<TaskId>,
        sleep: BTreeMap<TaskId, Op>,
        running: Option<TaskId>,
        /// what is scheduled without a deviation
        default: TaskId,
        preemptions: usize,
    },
    Choice {
        n: usize,
        chosen: usize,
        sleep: BTreeMap<TaskId, Op>,
        preemptions: usize,
    },
}

enum Verdict {
    Done,
    Deadlock(String),
    Horizon,
    Redundant,
    Diverged(String),
}

struct St {
    mode: Mode,
    tasks: Vec<Task>,
    locks: Vec<Lock>,
    nodes: Vec<Node>,
    /// scheduling steps of this execution, by node index (choices have no step)
    steps: Vec<Option<Step>>,
    depth: usize,
    horizon: usize,
    verdict: Option<Verdict>,
    live: usize,
    fresh_states: u64,
    transitions: u64,
    bounded: u64,
    threads: usize,
    /// (holder, lock, unstarted tasks at that time)
    hazards: Vec<(TaskId, Vec<(LockId, bool)>, Vec<TaskId>)>,
    /// releases and announcements are operations of their own
    precise: bool,
    /// they have to be
    need_precise: bool,
    /// first panic of a task other than the root, with its location
    first_panic: Option<String>,
}

struct Shared {
    st: Mutex<St>,
    cur: AtomicUsize,
    abort: AtomicBool,
    done_cv: Condvar,
    epoch: u64,
    handles: Mutex<Vec<Option<Thread>>>,
}

/// first element of schedules in which releases and announcements are operations
const PRECISE: usize = 1_000_000;

const NOBODY: usize = usize::MAX;

const FROM_CHILD: &str = " (in a parallel task)";

/// Payload which unwinds tasks of a cut execution
struct McAbort;

thread_local! {
    static CTX: RefCell<Option<(Arc<Shared>, TaskId)>> = const { RefCell::new(None) };
    static IN_MC: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

static EPOCH: AtomicU64 = AtomicU64::new(1);

/// Are we inside an explored execution?
pub fn active() -> bool {
    IN_MC.with(|c| c.get())
}

fn ctx() -> (Arc<Shared>, TaskId) {
    CTX.with(|c| c.borrow().clone().expect("not inside an explored execution"))
}

/// Number of pool threads the explored code sees
pub fn num_threads() -> Option<usize> {
    if active() {
        let (sh, _) = ctx();
        let st = lock(&sh.st);
        Some(st.threads)
    } else {
        None
    }
}

/// id of the current task, if any
pub fn current_task() -> Option<TaskId> {
    if active() {
        Some(ctx().1)
    } else {
        None
    }
}

fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

impl St {
    fn lock_mut(&mut self, id: LockId) -> &mut Lock {
        &mut self.locks[id]
    }

    fn is_enabled(&self, t: TaskId) -> bool {
        let task = &self.tasks[t];
        match task.pending {
            None => false,
            Some(
                Op::Start | Op::TryRead(_) | Op::TryWrite(_) | Op::Yield | Op::Want(_) | Op::Release(..),
            ) => true,
            Some(Op::Join(c)) => self.tasks[c].done,
            Some(Op::Read(l)) => self.locks[l].writer.is_none(),
            Some(Op::Write(l)) => self.locks[l].writer.is_none() && self.locks[l].readers.is_empty(),
        }
    }

    fn enabled(&self) -> Vec<(TaskId, Op)> {
        (0..self.tasks.len())
            .filter(|&t| self.is_enabled(t))
            .map(|t| (t, self.tasks[t].pending.unwrap()))
            .collect()
    }

    fn describe_blocked(&self) -> String {
        let mut s = Vec::new();
        for (i, t) in self.tasks.iter().enumerate() {
            if t.done {
                continue;
            }
            s.push(format!(
                "task {i} waits for {:?} holding locks {:?}",
                t.pending,
                t.held.iter().map(|h| h.0).collect::<Vec<_>>()
            ));
        }
        s.join("; ")
    }

    /// Reader-after-queued-writer deadlocks of the task-fair lock: a reader blocks while a writer
    /// waits, so a task that (transitively) blocks that writer must not read again.
    fn fair_rwlock_deadlock(&self) -> Option<String> {
        for (p, task) in self.tasks.iter().enumerate() {
            let Some(Op::Read(l)) = task.pending else {
                continue;
            };
            if task.held.is_empty() || self.locks[l].readers.is_empty() {
                continue;
            }
            let writer_waits = self
                .tasks
                .iter()
                .enumerate()
                .any(|(w, t)| w != p && t.pending == Some(Op::Write(l)));
            if !writer_waits {
                continue;
            }
            // does some holder of l wait for p?
            let mut seen = BTreeSet::new();
            let mut todo: Vec<TaskId> = self.locks[l].readers.clone();
            while let Some(r) = todo.pop() {
                if r == p {
                    return Some(format!(
                        "task {p} reads lock {l} while a queued writer waits for readers that wait for task {p}"
                    ));
                }
                if !seen.insert(r) {
                    continue;
                }
                match self.tasks[r].pending {
                    Some(Op::Join(c)) if !self.tasks[c].done => todo.push(c),
                    Some(op) => {
                        if let Some((m, wr)) = lock_of(op) {
                            if let Some(w) = self.locks[m].writer {
                                todo.push(w)
                            }
                            if wr {
                                todo.extend(self.locks[m].readers.iter().copied())
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        None
    }

    /// Does the step happen before whatever has this clock?
    fn before(&self, step: usize, clock: &VC) -> bool {
        let s = self.steps[step].as_ref().unwrap();
        clock.get(s.task).is_some_and(|&c| c as usize > step)
    }

    /// Where another order of the steps so far and of the operations pending now has to be tried:
    /// the races with the pending operations, and for each of them a task that leads to the other
    /// order (the initials of source sets, Abdulla et al., POPL 2014)
    fn race_detection(&mut self) {
        let last = self.steps.len();
        for p in 0..self.tasks.len() {
            let Some(op) = self.tasks[p].pending else {
                continue;
            };
            let clock = std::mem::take(&mut self.tasks[p].clock);
            // direct races: not ordered by way of another step that is in a race
            let mut races: Vec<usize> = vec![];
            for i in (0..last).rev() {
                let Some(s) = &self.steps[i] else { continue };
                if s.task == p || !dependent(s.op, op) || self.before(i, &clock) {
                    continue;
                }
                if races.iter().all(|f| !self.before(i, &self.steps[*f].as_ref().unwrap().clock)) {
                    races.push(i)
                }
            }
            for i in races {
                self.reverse(i, p, op, &clock);
            }
            self.tasks[p].clock = clock;
        }
    }

    /// Let the operation that `p` waits for, with everything that it needs, come before step `i`:
    /// on its own, and after the other steps that it is in conflict with now
    fn reverse(&mut self, i: usize, p: TaskId, op: Op, clock: &VC) {
        let mut after = clock.clone();
        for j in i + 1..self.steps.len() {
            if let Some(s) = &self.steps[j] {
                if dependent(s.op, op) && !self.before(i, &s.clock) {
                    vc_join(&mut after, &s.clock)
                }
            }
        }
        self.lead_to(i, p, clock);
        if after != *clock {
            self.lead_to(i, p, &after)
        }
    }

    fn lead_to(&mut self, i: usize, p: TaskId, clock: &VC) {
        let mut initials: BTreeSet<TaskId> = BTreeSet::new();
        let needed: Vec<usize> = (i + 1..self.steps.len())
            .filter(|&j| self.steps[j].is_some() && self.before(j, clock))
            .collect();
        let mut seen: BTreeSet<TaskId> = BTreeSet::new();
        for (n, &j) in needed.iter().enumerate() {
            let s = self.steps[j].as_ref().unwrap();
            if seen.insert(s.task) && needed[..n].iter().all(|&k| !self.before(k, &s.clock)) {
                initials.insert(s.task);
            }
        }
        if needed.is_empty() {
            initials.insert(p);
        }
        let Node::Sched { enabled, backtrack, .. } = &mut self.nodes[i] else {
            unreachable!()
        };
        initials.retain(|t| enabled.iter().any(|e| e.0 == *t));
        if initials.is_empty() {
            backtrack.extend(enabled.iter().map(|e| e.0))
        } else if initials.is_disjoint(backtrack) {
            backtrack.extend(initials.first())
        }
    }

    fn sleep_after(&self) -> BTreeMap<TaskId, Op> {
        match self.nodes.last() {
            None => BTreeMap::new(),
            Some(Node::Choice { sleep, .. }) => sleep.clone(),
            Some(Node::Sched {
                sleep,
                chosen,
                enabled,
                ..
            }) => {
                let op = enabled.iter().find(|e| e.0 == *chosen).unwrap().1;
                sleep
                    .iter()
                    .filter(|(t, o)| **t != *chosen && !dependent(**o, op))
                    .map(|(t, o)| (*t, *o))
                    .collect()
            }
        }
    }

    fn cost(&self, t: TaskId, running: Option<TaskId>, default: TaskId, enabled: &[(TaskId, Op)]) -> usize {
        match self.mode {
            Mode::Deviations(_) => (t != default) as usize,
            _ => match running {
                Some(r) if r != t && enabled.iter().any(|e| e.0 == r) => 1,
                _ => 0,
            },
        }
    }

    fn preemptions_before(&self) -> usize {
        match self.nodes.last() {
            None => 0,
            Some(Node::Choice { preemptions, .. }) => *preemptions,
            Some(Node::Sched {
                preemptions,
                running,
                chosen,
                enabled,
                default,
                ..
            }) => *preemptions + self.cost(*chosen, *running, *default, enabled),
        }
    }

    /// Pick the next task and execute its pending operation
    fn schedule(&mut self, running: Option<TaskId>) -> Result<TaskId, Verdict> {
        let d = self.depth;
        // what led to the states before has been looked at when they were reached first
        if self.mode == Mode::Dpor && d >= self.nodes.len() {
            self.race_detection();
        }
        if let Some(why) = self.fair_rwlock_deadlock() {
            return Err(Verdict::Deadlock(why));
        }
        let enabled = self.enabled();
        if enabled.is_empty() {
            if self.tasks.iter().all(|t| t.done) {
                return Err(Verdict::Done);
            }
            return Err(Verdict::Deadlock(self.describe_blocked()));
        }
        if self.depth >= self.horizon {
            return Err(Verdict::Horizon);
        }
        if d < self.nodes.len() {
            let Node::Sched {
                enabled: en,
                chosen,
                ..
            } = &self.nodes[d]
            else {
                return Err(Verdict::Diverged(format!("step {d}: a choice became a schedule point")));
            };
            if *en != enabled {
                return Err(Verdict::Diverged(format!(
                    "step {d}: enabled {en:?} before, {enabled:?} now"
                )));
            }
            let t = *chosen;
            self.execute(t);
            return Ok(t);
        }
        // new node
        let sleep = self.sleep_after();
        let preemptions = self.preemptions_before();
        let runnable = |t: &TaskId| !sleep.contains_key(t);
        let chosen = match running {
            Some(r) if enabled.iter().any(|e| e.0 == r) && runnable(&r) => Some(r),
            _ => enabled.iter().map(|e| e.0).find(runnable),
        };
        let Some(chosen) = chosen else {
            return Err(Verdict::Redundant);
        };
        let mut backtrack = BTreeSet::new();
        backtrack.insert(chosen);
        let bound = match self.mode {
            Mode::Dpor => None,
            Mode::Naive { preemptions } => Some(preemptions.unwrap_or(usize::MAX)),
            Mode::Deviations(n) => Some(n),
        };
        if let Some(bound) = bound {
            for (t, _) in &enabled {
                if preemptions + self.cost(*t, running, chosen, &enabled) <= bound {
                    backtrack.insert(*t);
                } else {
                    self.bounded += 1;
                }
            }
        }
        self.nodes.push(Node::Sched {
            enabled,
            chosen,
            backtrack,
            done: BTreeSet::new(),
            sleep,
            running,
            default: chosen,
            preemptions,
        });
        self.fresh_states += 1;
        self.execute(chosen);
        Ok(chosen)
    }

    fn execute(&mut self, t: TaskId) {
        let op = self.tasks[t].pending.take().unwrap();
        let idx = self.depth;
        self.depth += 1;
        self.transitions += 1;
        debug_assert_eq!(idx, self.steps.len());
        let mut clock = std::mem::take(&mut self.tasks[t].clock);
        match op {
            Op::Start => self.tasks[t].started = true,
            Op::Yield => {}
            Op::Want(l) => {
                let rc = self.locks[l].read_clock.clone();
                vc_join(&mut clock, &rc)
            }
            Op::Release(l, wr) => {
                // failed attempts to acquire it
                let lk = &self.locks[l];
                vc_join(&mut clock, &lk.wclock.clone());
                if wr {
                    vc_join(&mut clock, &lk.rclock.clone());
                }
                self.tasks[t].clock = clock;
                self.free(t, l, wr);
                clock = std::mem::take(&mut self.tasks[t].clock);
            }
            Op::Join(c) => {
                let cc = self.tasks[c].clock.clone();
                vc_join(&mut clock, &cc)
            }
            _ => {
                let (l, wr) = lock_of(op).unwrap();
                let is_try = matches!(op, Op::TryRead(_) | Op::TryWrite(_));
                let lk = &self.locks[l];
                let free = lk.writer.is_none() && (!wr || lk.readers.is_empty());
                let on_worker = t != 0 || self.tasks[t].depth > 0;
                vc_join(&mut clock, &self.locks[l].wclock);
                if wr {
                    let rc = self.locks[l].rclock.clone();
                    vc_join(&mut clock, &rc)
                } else if !is_try {
                    let wc = self.locks[l].want_clock.clone();
                    vc_join(&mut clock, &wc)
                }
                if free {
                    let lk = &mut self.locks[l];
                    if wr {
                        lk.writer = Some(t)
                    } else {
                        lk.readers.push(t)
                    }
                    self.tasks[t].held.push((l, wr, on_worker));
                } else {
                    assert!(is_try);
                }
                self.tasks[t].try_result = free;
                if !is_try {
                    self.check_hazards(t, l, wr);
                }
            }
        }
        if clock.len() <= t {
            clock.resize(t + 1, 0);
        }
        clock[t] = idx as u32 + 1;
        match op {
            Op::Want(l) => vc_join(&mut self.locks[l].want_clock, &clock),
            Op::Release(l, wr) => {
                let lk = &mut self.locks[l];
                vc_join(if wr { &mut lk.wclock } else { &mut lk.rclock }, &clock)
            }
            _ => {
                if let Some((l, wr)) = lock_of(op) {
                    let lk = &mut self.locks[l];
                    if let Op::Read(_) = op {
                        vc_join(&mut lk.read_clock, &clock)
                    }
                    vc_join(if wr { &mut lk.wclock } else { &mut lk.rclock }, &clock)
                }
            }
        }
        self.tasks[t].clock = clock.clone();
        self.steps.push(Some(Step { task: t, op, clock }));
    }

    /// `t` acquires `l`: would that block for good had `t` been stolen by the waiting holder of `l`?
    fn check_hazards(&mut self, t: TaskId, l: LockId, wr: bool) {
        for (holder, locks, unstarted) in &self.hazards {
            if !locks.iter().any(|(m, ex)| *m == l && (wr || *ex)) {
                continue;
            }
            let mut a = Some(t);
            while let Some(x) = a {
                if unstarted.contains(&x) && x != *holder {
                    self.verdict.get_or_insert(Verdict::Deadlock(format!(
                        "task {holder} waits for a parallel section while it holds lock {l}; a pool thread that waits runs other tasks meanwhile, and task {x} needs this lock"
                    )));
                    return;
                }
                a = self.tasks[x].parent;
            }
        }
    }

    fn free(&mut self, t: TaskId, l: LockId, wr: bool) {
        let clock = self.tasks[t].clock.clone();
        let lk = self.lock_mut(l);
        if wr {
            lk.writer = None;
            vc_join(&mut lk.wclock, &clock);
        } else {
            if let Some(pos) = lk.readers.iter().position(|r| *r == t) {
                lk.readers.swap_remove(pos);
            } else {
                lk.readers.pop();
            }
            vc_join(&mut lk.rclock, &clock);
        }
        let held = &mut self.tasks[t].held;
        if let Some(pos) = held.iter().rposition(|h| h.0 == l && h.1 == wr) {
            held.remove(pos);
        }
    }
}

impl Shared {
    fn new_task(&self, st: &mut St, parent: Option<TaskId>, job: Box<dyn FnOnce() + Send>) -> TaskId {
        let id = st.tasks.len();
        let clock = parent.map(|p| st.tasks[p].clock.clone()).unwrap_or_default();
        st.tasks.push(Task {
            pending: Some(Op::Start),
            started: false,
            done: false,
            parent,
            job: Some(job),
            panic: None,
            clock,
            held: Vec::new(),
            depth: 0,
            try_result: false,
        });
        id
    }

    fn end(&self, st: &mut St, v: Verdict) {
        if !matches!(v, Verdict::Done) {
            self.abort.store(true, Ordering::SeqCst);
        }
        st.verdict.get_or_insert(v);
        self.done_cv.notify_all();
        for h in lock(&self.handles).iter().flatten() {
            h.unpark()
        }
    }

    /// hand the token to `t`
    fn switch(&self, t: TaskId) {
        self.cur.store(t, Ordering::SeqCst);
        if let Some(h) = lock(&self.handles).get(t).and_then(|h| h.as_ref()) {
            h.unpark();
        }
    }

    /// wait for the token; false if the execution was cut
    fn wait(&self, me: TaskId) -> bool {
        let mut spins = 0;
        loop {
            if self.abort.load(Ordering::SeqCst) {
                return false;
            }
            if self.cur.load(Ordering::SeqCst) == me {
                return true;
            }
            spins += 1;
            if spins < 64 {
                std::hint::spin_loop();
            } else {
                std::thread::park();
            }
        }
    }

    /// Announce a visible operation, and return once it has been executed
    fn visible(self: &Arc<Self>, me: TaskId, op: Op) {
        if self.abort.load(Ordering::SeqCst) {
            return self.bail();
        }
        let next = {
            let mut st = lock(&self.st);
            st.tasks[me].pending = Some(op);
            let r = st.schedule(Some(me));
            let r = match r {
                Ok(_) if st.verdict.is_some() => {
                    Err(st.verdict.take().unwrap())
                }
                r => r,
            };
            match r {
                Ok(t) => t,
                Err(v) => {
                    self.end(&mut st, v);
                    drop(st);
                    return self.bail();
                }
            }
        };
        if next != me {
            self.switch(next);
            if !self.wait(me) {
                self.bail()
            }
        }
    }

    fn bail(&self) {
        if !std::thread::panicking() {
            resume_unwind(Box::new(McAbort))
        }
    }

    /// body of a worker thread for task `me`
    fn run_task(self: &Arc<Self>, me: TaskId) {
        if !self.wait(me) {
            // never started
            let job = {
                let mut st = lock(&self.st);
                if st.tasks[me].started && !st.tasks[me].done {
                    st.tasks[me].done = true;
                }
                st.tasks[me].job.take()
            };
            drop(job);
            let mut st = lock(&self.st);
            st.tasks[me].done = true;
            st.live -= 1;
            self.done_cv.notify_all();
            return;
        }
        let job = lock(&self.st).tasks[me].job.take().unwrap();
        CTX.with(|c| *c.borrow_mut() = Some((self.clone(), me)));
        IN_MC.with(|c| c.set(true));
        QUIET.with(|c| c.set(true));
        LAST_PANIC.with(|p| *p.borrow_mut() = None);
        let r = catch_unwind(AssertUnwindSafe(job));
        QUIET.with(|c| c.set(false));
        IN_MC.with(|c| c.set(false));
        CTX.with(|c| *c.borrow_mut() = None);
        let mut st = lock(&self.st);
        st.tasks[me].done = true;
        if let Err(p) = r {
            if !p.is::<McAbort>() {
                if let Some(m) = LAST_PANIC.with(|l| l.borrow_mut().take()) {
                    st.first_panic.get_or_insert(m);
                }
                st.tasks[me].panic = Some(p);
            }
        }
        st.live -= 1;
        self.done_cv.notify_all();
        if self.abort.load(Ordering::SeqCst) {
            return;
        }
        match st.schedule(None) {
            Ok(_) if st.verdict.is_some() => {
                let v = st.verdict.take().unwrap();
                self.end(&mut st, v)
            }
            Ok(t) => {
                drop(st);
                self.switch(t)
            }
            Err(v) => self.end(&mut st, v),
        }
    }
}

/// Start a new task. The caller must join it before anything it borrows goes away.
///
/// # Safety
/// `job` may borrow data with lifetime `'a`; the caller has to keep it alive until [`join`] returns.
pub unsafe fn spawn<'a>(job: Box<dyn FnOnce() + Send + 'a>) -> TaskId {
    let job: Box<dyn FnOnce() + Send + 'static> = std::mem::transmute(job);
    let (sh, me) = ctx();
    let mut st = lock(&sh.st);
    let id = sh.new_task(&mut st, Some(me), job);
    if sh.abort.load(Ordering::SeqCst) {
        // will never run
        let job = st.tasks[id].job.take();
        st.tasks[id].done = true;
        drop(st);
        drop(job);
        return id;
    }
    st.live += 1;
    drop(st);
    pool::assign(&sh, id);
    id
}

/// Enter/leave a parallel construct (bookkeeping for locks held across waits)
pub fn enter_parallel(delta: isize) {
    let (sh, me) = ctx();
    let mut st = lock(&sh.st);
    let d = &mut st.tasks[me].depth;
    *d = d.checked_add_signed(delta).unwrap_or(0);
}

/// Wait for a task. Returns its panic, if any.
pub fn join(t: TaskId) -> Option<Payload> {
    let (sh, me) = ctx();
    if !sh.abort.load(Ordering::SeqCst) {
        {
            let mut st = lock(&sh.st);
            if !st.tasks[t].done {
                let held: Vec<(LockId, bool)> = st.tasks[me]
                    .held
                    .iter()
                    .filter(|h| h.2)
                    .map(|h| (h.0, h.1))
                    .collect();
                if !held.is_empty() {
                    let unstarted: Vec<TaskId> = (0..st.tasks.len())
                        .filter(|&x| !st.tasks[x].started && !st.tasks[x].done)
                        .collect();
                    st.hazards.push((me, held, unstarted));
                }
            }
        }
        let r = catch_unwind(AssertUnwindSafe(|| sh.visible(me, Op::Join(t))));
        if r.is_ok() && !sh.abort.load(Ordering::SeqCst) {
            // the hazards stay: a task that was stolen meanwhile would have been in the way
            let mut st = lock(&sh.st);
            return st.tasks[t].panic.take();
        }
    }
    // cut execution: the task may still unwind on its own thread, and borrows from our stack
    let mut st = lock(&sh.st);
    while !st.tasks[t].done {
        st = sh.done_cv.wait(st).unwrap_or_else(|e| e.into_inner());
    }
    let p = st.tasks[t].panic.take();
    drop(st);
    p.or_else(|| Some(Box::new(McAbort)))
}

/// Voluntary scheduling point
pub fn yield_now() {
    let (sh, me) = ctx();
    sh.visible(me, Op::Yield)
}

/// Nondeterministic choice of the environment: 0..n
pub fn choose(n: usize) -> usize {
    let (sh, _) = ctx();
    if sh.abort.load(Ordering::SeqCst) {
        sh.bail();
        return 0;
    }
    let mut st = lock(&sh.st);
    let d = st.depth;
    st.depth += 1;
    st.steps.push(None);
    if d < st.nodes.len() {
        if let Node::Choice { n: m, chosen, .. } = &st.nodes[d] {
            if *m == n {
                return *chosen;
            }
        }
        sh.end(&mut st, Verdict::Diverged(format!("step {d}: different choice")));
        drop(st);
        sh.bail();
        return 0;
    }
    let sleep = st.sleep_after();
    let preemptions = st.preemptions_before();
    st.nodes.push(Node::Choice {
        n,
        chosen: 0,
        sleep,
        preemptions,
    });
    st.fresh_states += 1;
    0
}

/// Tag stored in each lock: identifies it within one execution
pub struct LockTag(AtomicU64, AtomicUsize);
impl Default for LockTag {
    fn default() -> Self {
        Self::new()
    }
}
impl LockTag {
    pub const fn new() -> Self {
        LockTag(AtomicU64::new(0), AtomicUsize::new(0))
    }
    fn id(&self, sh: &Shared, st: &mut St) -> LockId {
        if self.0.load(Ordering::SeqCst) == sh.epoch {
            self.1.load(Ordering::SeqCst)
        } else {
            st.locks.push(Lock::default());
            let id = st.locks.len() - 1;
            self.1.store(id, Ordering::SeqCst);
            self.0.store(sh.epoch, Ordering::SeqCst);
            id
        }
    }
}

/// Acquire a lock
pub fn acquire(tag: &LockTag, exclusive: bool) {
    let (sh, me) = ctx();
    let (id, precise) = {
        let mut st = lock(&sh.st);
        if !exclusive && !st.tasks[me].held.is_empty() {
            // a writer that waits can block it
            st.need_precise = true
        }
        (tag.id(&sh, &mut st), st.precise)
    };
    if precise && exclusive {
        sh.visible(me, Op::Want(id))
    }
    sh.visible(me, if exclusive { Op::Write(id) } else { Op::Read(id) })
}

/// Try to acquire a lock
pub fn try_acquire(tag: &LockTag, exclusive: bool) -> bool {
    let (sh, me) = ctx();
    let id = {
        let mut st = lock(&sh.st);
        st.need_precise = true;
        tag.id(&sh, &mut st)
    };
    sh.visible(
        me,
        if exclusive {
            Op::TryWrite(id)
        } else {
            Op::TryRead(id)
        },
    );
    let st = lock(&sh.st);
    st.tasks[me].try_result
}

/// Release a lock
pub fn release(tag: &LockTag, exclusive: bool) {
    let (sh, me) = ctx();
    let mut st = lock(&sh.st);
    if tag.0.load(Ordering::SeqCst) == sh.epoch {
        let id = tag.1.load(Ordering::SeqCst);
        if st.precise && !sh.abort.load(Ordering::SeqCst) {
            drop(st);
            sh.visible(me, Op::Release(id, exclusive))
        } else {
            st.free(me, id, exclusive)
        }
    }
}

mod pool {
    //! OS threads, reused between executions of the same explorer thread
    use super::*;
    use std::sync::mpsc::{channel, Sender};

    type Work = (Arc<Shared>, TaskId);
    struct Worker {
        tx: Sender<Work>,
        thread: Thread,
    }
    pub struct Pool {
        workers: Vec<Worker>,
    }
    thread_local! {
        static MINE: RefCell<Option<Arc<Mutex<Pool>>>> = const { RefCell::new(None) };
    }

    pub fn get() -> Arc<Mutex<Pool>> {
        MINE.with(|m| {
            m.borrow_mut()
                .get_or_insert_with(|| Arc::new(Mutex::new(Pool { workers: vec![] })))
                .clone()
        })
    }

    pub fn assign(sh: &Arc<Shared>, id: TaskId) {
        let pool = get();
        let mut p = lock(&pool);
        while p.workers.len() <= id {
            let (tx, rx) = channel::<Work>();
            let pool2 = pool.clone();
            let h = std::thread::Builder::new()
                .name(format!("mc-{}", p.workers.len()))
                .stack_size(8 << 20)
                .spawn(move || {
                    MINE.with(|m| *m.borrow_mut() = Some(pool2));
                    while let Ok((sh, id)) = rx.recv() {
                        sh.run_task(id);
                    }
                })
                .expect("cannot start a thread");
            let thread = h.thread().clone();
            p.workers.push(Worker { tx, thread });
        }
        let w = &p.workers[id];
        {
            let mut hs = lock(&sh.handles);
            if hs.len() <= id {
                hs.resize(id + 1, None);
            }
            hs[id] = Some(w.thread.clone());
        }
        w.tx.send((sh.clone(), id)).expect("worker is gone");
    }
}

/// Install a panic hook that stays silent in explored executions and in [`quiet`] sections
pub fn install_panic_hook() {
    use std::sync::Once;
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
            if !QUIET.with(|c| c.get()) {
                old(info)
            }
        }));
    });
}

fn payload_msg(p: &Payload) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "panic".into())
}

/// Run `f`, catching panics silently
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    install_panic_hook();
    let old = QUIET.with(|c| c.replace(true));
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|c| c.set(old));
    match r {
        Ok(t) => Ok(t),
        Err(p) if p.is::<McAbort>() => resume_unwind(p),
        Err(p) => Err(LAST_PANIC
            .with(|l| l.borrow_mut().take())
            .unwrap_or_else(|| payload_msg(&p))),
    }
}

/// Counts the executions of all explorers
pub static HEARTBEAT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Depth-first exploration of all executions of a body
pub struct Explorer {
    pub mode: Mode,
    pub horizon: usize,
    pub threads: usize,
    pub max_executions: Option<u64>,
    pub deadline: Option<Instant>,
    /// a single step that takes longer than this counts as a hang
    pub step_timeout: Duration,
}

impl Default for Explorer {
    fn default() -> Self {
        Self {
            mode: Mode::Dpor,
            horizon: 5000,
            threads: 4,
            max_executions: None,
            deadline: None,
            step_timeout: Duration::from_secs(120),
        }
    }
}

/// A failed execution
#[derive(Debug, Clone)]
pub struct Failure {
    pub what: String,
    /// decisions: task ids at scheduling points, values at choices
    pub schedule: Vec<usize>,
    pub trace: Vec<String>,
}

/// The machinery failed (this is never a verdict on the code)
#[derive(Debug, Clone)]
pub struct EngineError(pub String);

impl Explorer {
    /// Explore all executions of `body`. `check` judges each complete execution; exploration stops
    /// at the first failure.
    pub fn explore<T: Send + 'static>(
        &self,
        body: impl Fn() -> T + Send + Sync + 'static,
        mut check: impl FnMut(End<T>) -> Result<(), String>,
    ) -> Result<(Stats, Option<Failure>), EngineError> {
        install_panic_hook();
        let body = Arc::new(body);
        let mut stats = Stats::default();
        let mut nodes: Vec<Node> = Vec::new();
        let mut precise = false;
        loop {
            let r = self.run_one(body.clone(), nodes, precise);
            if r.need_precise && !precise {
                // start again, with more operations
                precise = true;
                nodes = Vec::new();
                continue;
            }
            HEARTBEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            nodes = r.nodes;
            stats.states += r.fresh;
            stats.transitions += r.transitions;
            stats.bounded += r.bounded;
            stats.max_depth = stats.max_depth.max(nodes.len());
            stats.max_tasks = stats.max_tasks.max(r.ntasks);
            let end = match r.verdict {
                Verdict::Diverged(why) => return Err(EngineError(format!("replay diverged: {why}"))),
                Verdict::Redundant => {
                    stats.redundant += 1;
                    None
                }
                Verdict::Horizon => Some(End::Horizon),
                Verdict::Deadlock(why) => Some(End::Deadlock(why)),
                Verdict::Done => Some(match r.result {
                    Some(Ok(t)) => End::Ok(t),
                    Some(Err(p)) => End::Panic(p),
                    None => return Err(EngineError("the root task has no result".into())),
                }),
            };
            if let Some(end) = end {
                stats.executions += 1;
                if let Err(what) = check(end) {
                    let schedule = precise
                        .then_some(PRECISE)
                        .into_iter()
                        .chain(nodes.iter().map(|n| match n {
                            Node::Sched { chosen, .. } => *chosen,
                            Node::Choice { chosen, .. } => *chosen,
                        }))
                        .collect();
                    let trace = r.trace;
                    return Ok((
                        stats,
                        Some(Failure {
                            what,
                            schedule,
                            trace,
                        }),
                    ));
                }
            }
            // next execution
            let more = loop {
                let Some(last) = nodes.last_mut() else {
                    break false;
                };
                match last {
                    Node::Choice { n, chosen, .. } => {
                        if *chosen + 1 < *n {
                            *chosen += 1;
                            break true;
                        }
                    }
                    Node::Sched {
                        chosen,
                        backtrack,
                        done,
                        sleep,
                        enabled,
                        ..
                    } => {
                        done.insert(*chosen);
                        if self.mode == Mode::Dpor {
                            let op = enabled.iter().find(|e| e.0 == *chosen).unwrap().1;
                            sleep.insert(*chosen, op);
                        }
                        let next = backtrack
                            .iter()
                            .copied()
                            .find(|t| !done.contains(t) && !sleep.contains_key(t));
                        if let Some(t) = next {
                            *chosen = t;
                            break true;
                        }
                    }
                }
                nodes.pop();
            };
            if !more {
                return Ok((stats, None));
            }
            if self.max_executions.is_some_and(|m| stats.executions + stats.redundant >= m)
                || self.deadline.is_some_and(|d| Instant::now() > d)
            {
                stats.capped = true;
                return Ok((stats, None));
            }
        }
    }

    /// Run one given schedule (as recorded in a [`Failure`]); decisions beyond its end are default
    pub fn replay<T: Send + 'static>(
        &self,
        body: impl Fn() -> T + Send + Sync + 'static,
        schedule: &[usize],
    ) -> Result<End<T>, EngineError> {
        install_panic_hook();
        // force the decisions one after the other by growing the prefix
        let body = Arc::new(body);
        let mut nodes: Vec<Node> = Vec::new();
        let ex = Explorer {
            mode: Mode::Naive { preemptions: None },
            ..*self
        };
        let (mut precise, schedule) = match schedule {
            [PRECISE, rest @ ..] => (true, rest),
            _ => (false, schedule),
        };
        loop {
            let r = ex.run_one(body.clone(), nodes, precise);
            if r.need_precise && !precise {
                precise = true;
                nodes = Vec::new();
                continue;
            }
            nodes = r.nodes;
            // first node which differs from the schedule
            let mut differs = None;
            for (i, n) in nodes.iter().enumerate() {
                if i >= schedule.len() {
                    break;
                }
                let c = match n {
                    Node::Sched { chosen, .. } => *chosen,
                    Node::Choice { chosen, .. } => *chosen,
                };
                if c != schedule[i] {
                    differs = Some(i);
                    break;
                }
            }
            if let Some(i) = differs {
                nodes.truncate(i + 1);
                match &mut nodes[i] {
                    Node::Sched {
                        chosen, enabled, ..
                    } => {
                        if !enabled.iter().any(|e| e.0 == schedule[i]) {
                            return Err(EngineError(format!("replay: task {} is not enabled", schedule[i])));
                        }
                        *chosen = schedule[i]
                    }
                    Node::Choice { chosen, .. } => *chosen = schedule[i],
                }
                continue;
            }
            return Ok(match r.verdict {
                Verdict::Diverged(why) => return Err(EngineError(why)),
                Verdict::Redundant => return Err(EngineError("redundant replay".into())),
                Verdict::Horizon => End::Horizon,
                Verdict::Deadlock(w) => End::Deadlock(w),
                Verdict::Done => match r.result {
                    Some(Ok(t)) => End::Ok(t),
                    Some(Err(p)) => End::Panic(p),
                    None => return Err(EngineError("no result".into())),
                },
            });
        }
    }

    fn run_one<T: Send + 'static>(
        &self,
        body: Arc<impl Fn() -> T + Send + Sync + 'static>,
        nodes: Vec<Node>,
        precise: bool,
    ) -> OneRun<T> {
        let epoch = EPOCH.fetch_add(1, Ordering::SeqCst);
        let sh = Arc::new(Shared {
            st: Mutex::new(St {
                mode: self.mode,
                tasks: Vec::new(),
                locks: Vec::new(),
                nodes,
                steps: Vec::new(),
                depth: 0,
                horizon: self.horizon,
                verdict: None,
                live: 0,
                fresh_states: 0,
                transitions: 0,
                bounded: 0,
                threads: self.threads,
                hazards: Vec::new(),
                precise,
                need_precise: false,
                first_panic: None,
            }),
            cur: AtomicUsize::new(NOBODY),
            abort: AtomicBool::new(false),
            done_cv: Condvar::new(),
            epoch,
            handles: Mutex::new(Vec::new()),
        });
        let result: Arc<Mutex<Option<Result<T, String>>>> = Arc::new(Mutex::new(None));
        let res2 = result.clone();
        let root = Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(|| body()));
            match r {
                Ok(t) => *lock(&res2) = Some(Ok(t)),
                Err(p) if p.is::<McAbort>() => resume_unwind(p),
                Err(p) => {
                    let own = LAST_PANIC.with(|l| l.borrow_mut().take());
                    *lock(&res2) = Some(Err(own.unwrap_or_else(|| format!("{}{}", payload_msg(&p), FROM_CHILD))))
                }
            }
        });
        {
            let mut st = lock(&sh.st);
            sh.new_task(&mut st, None, root);
            st.live = 1;
        }
        pool::assign(&sh, 0);
        let first = {
            let mut st = lock(&sh.st);
            st.schedule(None)
        };
        match first {
            Ok(t) => sh.switch(t),
            Err(v) => {
                let mut st = lock(&sh.st);
                sh.end(&mut st, v)
            }
        }
        let mut st = lock(&sh.st);
        let mut last = (st.transitions, Instant::now());
        while st.verdict.is_none() || st.live > 0 {
            let (g, t) = sh
                .done_cv
                .wait_timeout(st, Duration::from_secs(1))
                .unwrap_or_else(|e| e.into_inner());
            st = g;
            if t.timed_out() {
                if st.transitions != last.0 {
                    last = (st.transitions, Instant::now());
                } else if last.1.elapsed() > self.step_timeout {
                    // The code under test does not come back from a step
                    return OneRun {
                        verdict: Verdict::Deadlock(format!(
                            "no progress for {:?}: a task runs without end",
                            self.step_timeout
                        )),
                        nodes: std::mem::take(&mut st.nodes),
                        result: None,
                        fresh: st.fresh_states,
                        transitions: st.transitions,
                        bounded: st.bounded,
                        ntasks: st.tasks.len(),
                        need_precise: false,
                        trace: vec![],
                    };
                }
            }
        }
        let trace = st
            .steps
            .iter()
            .flatten()
            .map(|s| format!("task {} {:?}", s.task, s.op))
            .collect();
        let verdict = st.verdict.take().unwrap();
        let out = OneRun {
            verdict,
            nodes: std::mem::take(&mut st.nodes),
            result: None,
            fresh: st.fresh_states,
            transitions: st.transitions,
            bounded: st.bounded,
            ntasks: st.tasks.len(),
            need_precise: st.need_precise,
            trace,
        };
        let first_panic = st.first_panic.take();
        drop(st);
        let mut result = lock(&result).take();
        if let (Some(Err(m)), Some(f)) = (&mut result, first_panic) {
            if m.ends_with(FROM_CHILD) {
                *m = f
            }
        }
        OneRun { result, ..out }
    }
}

struct OneRun<T> {
    verdict: Verdict,
    nodes: Vec<Node>,
    result: Option<Result<T, String>>,
    fresh: u64,
    transitions: u64,
    bounded: u64,
    ntasks: usize,
    need_precise: bool,
    trace: Vec<String>,
}
