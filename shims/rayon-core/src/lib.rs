//! The `rayon-core` 1.13 API on top of the scheduler of `mcsched`.
//!
//! Inside of an explored execution every parallel branch is a task of its own, so that all
//! interleavings of all branches are possible.  Otherwise everything runs sequentially, in program
//! order, on the calling thread.
use std::any::Any;
use std::error::Error;
use std::fmt;
use std::io;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

type Payload = Box<dyn Any + Send + 'static>;

static SEQ_THREADS: AtomicUsize = AtomicUsize::new(1);

/// Number of threads reported outside of explored executions
pub fn set_sequential_num_threads(n: usize) {
    SEQ_THREADS.store(n, Ordering::SeqCst)
}

pub fn max_num_threads() -> usize {
    usize::from(u16::MAX)
}

pub fn current_num_threads() -> usize {
    mcsched::num_threads().unwrap_or_else(|| SEQ_THREADS.load(Ordering::SeqCst))
}

pub fn current_thread_index() -> Option<usize> {
    mcsched::current_task()
}

pub fn current_thread_has_pending_tasks() -> Option<bool> {
    None
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}

pub fn yield_now() -> Option<Yield> {
    if mcsched::active() {
        mcsched::yield_now();
        Some(Yield::Executed)
    } else {
        Some(Yield::Idle)
    }
}

pub fn yield_local() -> Option<Yield> {
    yield_now()
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}

impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext {
            migrated,
            _marker: PhantomData,
        }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| oper_a(), |_| oper_b())
}

struct SendPtr<T>(*mut T);
unsafe impl<T> Send for SendPtr<T> {}
impl<T> SendPtr<T> {
    fn get(&self) -> *mut T {
        self.0
    }
}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if !mcsched::active() {
        let a = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(false))));
        let b = catch_unwind(AssertUnwindSafe(|| oper_b(FnContext::new(false))));
        return match (a, b) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(p), _) => resume_unwind(p),
            (_, Err(p)) => resume_unwind(p),
        };
    }
    mcsched::enter_parallel(1);
    let mut rb: Option<RB> = None;
    let slot = SendPtr(&mut rb as *mut Option<RB>);
    // SAFETY: joined below, before any borrow ends
    let task = unsafe {
        mcsched::spawn(Box::new(move || {
            let r = oper_b(FnContext::new(true));
            *slot.get() = Some(r);
        }))
    };
    let ra = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(true))));
    let pb = mcsched::join(task);
    mcsched::enter_parallel(-1);
    match (ra, pb) {
        (Ok(a), None) => (a, rb.expect("task has a result")),
        (Err(p), _) => resume_unwind(p),
        (_, Some(p)) => resume_unwind(p),
    }
}

struct ScopeBase<'scope> {
    children: Mutex<Vec<mcsched::TaskId>>,
    panic: Mutex<Option<Payload>>,
    marker: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}

impl<'scope> ScopeBase<'scope> {
    fn new() -> Self {
        Self {
            children: Mutex::new(Vec::new()),
            panic: Mutex::new(None),
            marker: PhantomData,
        }
    }

    fn note(&self, p: Payload) {
        self.panic
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .get_or_insert(p);
    }

    fn run<'a>(&self, job: Box<dyn FnOnce() + Send + 'a>) {
        if mcsched::active() {
            // SAFETY: the scope joins all its tasks
            let id = unsafe { mcsched::spawn(job) };
            self.children
                .lock()
                .unwrap_or_else(|e| e.into_inner())
                .push(id);
        } else if let Err(p) = catch_unwind(AssertUnwindSafe(job)) {
            self.note(p)
        }
    }

    fn complete<R>(&self, f: impl FnOnce() -> R) -> R {
        let active = mcsched::active();
        if active {
            mcsched::enter_parallel(1);
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        if active {
            loop {
                let next = self
                    .children
                    .lock()
                    .unwrap_or_else(|e| e.into_inner())
                    .pop();
                let Some(c) = next else { break };
                if let Some(p) = mcsched::join(c) {
                    self.note(p)
                }
            }
            mcsched::enter_parallel(-1);
        }
        let p = self
            .panic
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .take();
        match (r, p) {
            (Err(p), _) => resume_unwind(p),
            (_, Some(p)) => resume_unwind(p),
            (Ok(r), None) => r,
        }
    }
}

struct ScopePtr<T>(*const T);
unsafe impl<T: Sync> Send for ScopePtr<T> {}
unsafe impl<T: Sync> Sync for ScopePtr<T> {}
impl<T> ScopePtr<T> {
    unsafe fn as_ref(&self) -> &T {
        &*self.0
    }
}

pub struct Scope<'scope> {
    base: ScopeBase<'scope>,
}
pub struct ScopeFifo<'scope> {
    base: ScopeBase<'scope>,
}

impl<'scope> Scope<'scope> {
    pub fn spawn<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        let ptr = ScopePtr(self as *const Self);
        self.base
            .run(Box::new(move || body(unsafe { ptr.as_ref() })));
    }
    pub fn spawn_broadcast<BODY>(&self, body: BODY)
    where
        BODY: Fn(&Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        let body = Arc::new(body);
        let n = current_num_threads();
        for i in 0..n {
            let ptr = ScopePtr(self as *const Self);
            let body = body.clone();
            self.base.run(Box::new(move || {
                body(unsafe { ptr.as_ref() }, BroadcastContext::new(i, n))
            }));
        }
    }
}

impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&ScopeFifo<'scope>) + Send + 'scope,
    {
        let ptr = ScopePtr(self as *const Self);
        self.base
            .run(Box::new(move || body(unsafe { ptr.as_ref() })));
    }
    pub fn spawn_broadcast<BODY>(&self, body: BODY)
    where
        BODY: Fn(&ScopeFifo<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        let body = Arc::new(body);
        let n = current_num_threads();
        for i in 0..n {
            let ptr = ScopePtr(self as *const Self);
            let body = body.clone();
            self.base.run(Box::new(move || {
                body(unsafe { ptr.as_ref() }, BroadcastContext::new(i, n))
            }));
        }
    }
}

impl fmt::Debug for Scope<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Scope")
    }
}
impl fmt::Debug for ScopeFifo<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ScopeFifo")
    }
}

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope(op)
}

pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope_fifo(op)
}

pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let scope = Scope {
        base: ScopeBase::new(),
    };
    scope.base.complete(|| op(&scope))
}

pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    let scope = ScopeFifo {
        base: ScopeBase::new(),
    };
    scope.base.complete(|| op(&scope))
}

/// Detached tasks run at once
pub fn spawn<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    func()
}

pub fn spawn_fifo<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    func()
}

pub struct BroadcastContext<'a> {
    index: usize,
    num: usize,
    _marker: PhantomData<&'a mut dyn Fn()>,
}

impl BroadcastContext<'_> {
    fn new(index: usize, num: usize) -> Self {
        Self {
            index,
            num,
            _marker: PhantomData,
        }
    }
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.num
    }
}

impl fmt::Debug for BroadcastContext<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("BroadcastContext")
    }
}

pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    let mut res: Vec<Option<R>> = (0..n).map(|_| None).collect();
    in_place_scope(|s| {
        for (i, r) in res.iter_mut().enumerate() {
            let op = &op;
            s.spawn(move |_| *r = Some(op(BroadcastContext::new(i, n))));
        }
    });
    res.into_iter().map(|r| r.unwrap()).collect()
}

pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    let n = current_num_threads();
    for i in 0..n {
        op(BroadcastContext::new(i, n))
    }
}

#[derive(Debug)]
pub struct ThreadPool {
    n: usize,
}

impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        self.n
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        None
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        scope_fifo(op)
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        in_place_scope(op)
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        in_place_scope_fifo(op)
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        spawn(op)
    }
    pub fn spawn_fifo<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        spawn(op)
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast(op)
    }
    pub fn spawn_broadcast<OP>(&self, op: OP)
    where
        OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
    {
        spawn_broadcast(op)
    }
    pub fn yield_now(&self) -> Option<Yield> {
        yield_now()
    }
    pub fn yield_local(&self) -> Option<Yield> {
        yield_local()
    }
}

#[derive(Debug)]
pub struct ThreadPoolBuildError(String);
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl Error for ThreadPoolBuildError {}

pub struct ThreadBuilder {
    index: usize,
}
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadBuilder")
    }
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}

#[derive(Debug, Default)]
pub struct DefaultSpawn;
pub struct CustomSpawn<F>(#[allow(dead_code)] F);

pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    n: usize,
    spawn: PhantomData<S>,
}

impl<S> fmt::Debug for ThreadPoolBuilder<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPoolBuilder")
    }
}

impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        Self::new()
    }
}

impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self {
            n: 0,
            spawn: PhantomData,
        }
    }
}

impl<S> ThreadPoolBuilder<S> {
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn thread_name<F>(self, _: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        self
    }
    pub fn panic_handler<H>(self, _: H) -> Self
    where
        H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static,
    {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn start_handler<H>(self, _: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
    pub fn exit_handler<H>(self, _: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
    pub fn spawn_handler<F>(self, _: F) -> ThreadPoolBuilder<CustomSpawn<F>>
    where
        F: FnMut(ThreadBuilder) -> io::Result<()>,
    {
        ThreadPoolBuilder {
            n: self.n,
            spawn: PhantomData,
        }
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool {
            n: if self.n == 0 {
                current_num_threads()
            } else {
                self.n
            },
        })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
    pub fn build_scoped<W, F, R>(self, _wrapper: W, with_pool: F) -> Result<R, ThreadPoolBuildError>
    where
        W: Fn(ThreadBuilder) + Sync,
        F: FnOnce(&ThreadPool) -> R,
    {
        let pool = self.build()?;
        Ok(with_pool(&pool))
    }
}
