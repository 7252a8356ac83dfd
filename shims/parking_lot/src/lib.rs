//! The parts of the `parking_lot` 0.12 API that build on `lock_api`, with raw locks that report to
//! the scheduler of `mcsched`.  Outside of an explored execution the locks spin, and a lock that is
//! never released is reported by a panic.
use core::num::NonZeroUsize;
use core::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub use ::lock_api;
use mcsched::LockTag;

type GuardMarker = lock_api::GuardNoSend;

const WRITER: usize = usize::MAX;

/// Raw lock, shared or exclusive
pub struct RawRwLock {
    tag: LockTag,
    state: AtomicUsize,
}

fn spin(mut f: impl FnMut() -> bool) {
    let start = Instant::now();
    let mut n = 0u64;
    while !f() {
        n += 1;
        if n > 100 {
            std::thread::yield_now();
        }
        if n % 1000 == 0 {
            std::thread::sleep(Duration::from_millis(1));
            if start.elapsed() > Duration::from_secs(20) {
                panic!("deadlock: lock is not released");
            }
        }
    }
}

impl RawRwLock {
    const fn new() -> Self {
        Self {
            tag: LockTag::new(),
            state: AtomicUsize::new(0),
        }
    }
    fn try_w(&self) -> bool {
        self.state
            .compare_exchange(0, WRITER, Ordering::SeqCst, Ordering::SeqCst)
            .is_ok()
    }
    fn try_r(&self) -> bool {
        self.state
            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |s| {
                (s != WRITER).then(|| s + 1)
            })
            .is_ok()
    }
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock::new();
    type GuardMarker = GuardMarker;

    fn lock_shared(&self) {
        if mcsched::active() {
            mcsched::acquire(&self.tag, false);
            // the scheduler has granted the lock: only a cut execution can find it taken
            let _ = self.try_r();
        } else {
            spin(|| self.try_r())
        }
    }
    fn try_lock_shared(&self) -> bool {
        if mcsched::active() {
            mcsched::try_acquire(&self.tag, false) && self.try_r()
        } else {
            self.try_r()
        }
    }
    unsafe fn unlock_shared(&self) {
        let _ = self
            .state
            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |s| {
                (s != WRITER && s > 0).then(|| s - 1)
            });
        if mcsched::active() {
            mcsched::release(&self.tag, false)
        }
    }
    fn lock_exclusive(&self) {
        if mcsched::active() {
            mcsched::acquire(&self.tag, true);
            let _ = self.try_w();
        } else {
            spin(|| self.try_w())
        }
    }
    fn try_lock_exclusive(&self) -> bool {
        if mcsched::active() {
            mcsched::try_acquire(&self.tag, true) && self.try_w()
        } else {
            self.try_w()
        }
    }
    unsafe fn unlock_exclusive(&self) {
        self.state.store(0, Ordering::SeqCst);
        if mcsched::active() {
            mcsched::release(&self.tag, true)
        }
    }
    fn is_locked(&self) -> bool {
        self.state.load(Ordering::SeqCst) != 0
    }
    fn is_locked_exclusive(&self) -> bool {
        self.state.load(Ordering::SeqCst) == WRITER
    }
}

unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}

unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        // other tasks may come in between: an over-approximation
        lock_api::RawRwLock::unlock_exclusive(self);
        lock_api::RawRwLock::lock_shared(self);
    }
}

unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        lock_api::RawRwLock::lock_shared(self)
    }
    fn try_lock_shared_recursive(&self) -> bool {
        lock_api::RawRwLock::try_lock_shared(self)
    }
}

/// Upgradable locks are treated as exclusive ones
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        lock_api::RawRwLock::lock_exclusive(self)
    }
    fn try_lock_upgradable(&self) -> bool {
        lock_api::RawRwLock::try_lock_exclusive(self)
    }
    unsafe fn unlock_upgradable(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
    unsafe fn upgrade(&self) {}
    unsafe fn try_upgrade(&self) -> bool {
        true
    }
}

unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, _: Duration) -> bool {
        lock_api::RawRwLock::try_lock_shared(self)
    }
    fn try_lock_shared_until(&self, _: Instant) -> bool {
        lock_api::RawRwLock::try_lock_shared(self)
    }
    fn try_lock_exclusive_for(&self, _: Duration) -> bool {
        lock_api::RawRwLock::try_lock_exclusive(self)
    }
    fn try_lock_exclusive_until(&self, _: Instant) -> bool {
        lock_api::RawRwLock::try_lock_exclusive(self)
    }
}

/// Raw mutex
pub struct RawMutex(RawRwLock);

unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex(RawRwLock::new());
    type GuardMarker = GuardMarker;
    fn lock(&self) {
        lock_api::RawRwLock::lock_exclusive(&self.0)
    }
    fn try_lock(&self) -> bool {
        lock_api::RawRwLock::try_lock_exclusive(&self.0)
    }
    unsafe fn unlock(&self) {
        lock_api::RawRwLock::unlock_exclusive(&self.0)
    }
    fn is_locked(&self) -> bool {
        lock_api::RawRwLock::is_locked(&self.0)
    }
}

unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self)
    }
}

unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, _: Duration) -> bool {
        lock_api::RawMutex::try_lock(self)
    }
    fn try_lock_until(&self, _: Instant) -> bool {
        lock_api::RawMutex::try_lock(self)
    }
}

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type RawFairMutex = RawMutex;
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedFairMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;

/// Thread id for reentrant mutexes: the task inside of an explored execution
pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> NonZeroUsize {
        thread_local!(static KEY: u8 = const { 0 });
        KEY.with(|x| NonZeroUsize::new(x as *const _ as usize).unwrap())
    }
}
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;

pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
pub const fn const_fair_mutex<T>(val: T) -> FairMutex<T> {
    FairMutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}
pub const fn const_reentrant_mutex<T>(val: T) -> ReentrantMutex<T> {
    ReentrantMutex::const_new(
        <RawMutex as lock_api::RawMutex>::INIT,
        <RawThreadId as lock_api::GetThreadId>::INIT,
        val,
    )
}
