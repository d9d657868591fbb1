//! Verification model of rayon-core: the fork-join scheduler with every scheduling decision made
//! nondeterministic. `rayon` itself (bridge, splitters, adaptors, collect) is the real crate.
//!
//! `join_context(a, b)` in the real scheduler pushes `b` on the deque, runs `a`, then either pops
//! `b` back (same thread, not migrated) or waits for the thief that stole it (migrated). The two
//! closures share nothing but what `Sync` allows, so every concurrent execution is equivalent to
//! one of the sequential orders explored here; what the closures can observe of the schedule is
//! the order, the `migrated` flag and the number of threads, and all of these are chosen freely.
use std::cell::Cell;
use std::fmt;
use std::marker::PhantomData;

extern "C" {
    fn nd_choose_(n: u64) -> u64;
}

/// Upper bound for the number of threads (set by the harness before use); 0 = not chosen yet.
pub static mut MODEL_MAX_THREADS: u64 = 1;
pub static mut MODEL_THREADS: u64 = 0;
/// Number of joins executed and of stolen (migrated) halves, for the harness' coverage conditions.
pub static mut MODEL_JOINS: u64 = 0;
pub static mut MODEL_STEALS: u64 = 0;
pub static mut MODEL_B_FIRST: u64 = 0;
/// Joins whose schedule is chosen; further ones run a, then b, not stolen.
pub static mut MODEL_CHOICES_LEFT: u64 = u64::MAX;

pub fn max_num_threads() -> usize {
    0xffff
}

pub fn current_num_threads() -> usize {
    unsafe {
        if MODEL_THREADS == 0 {
            MODEL_THREADS = 1 + if MODEL_MAX_THREADS > 1 { nd_choose_(MODEL_MAX_THREADS) } else { 0 };
        }
        MODEL_THREADS as usize
    }
}

pub fn current_thread_index() -> Option<usize> {
    None
}

pub fn current_thread_has_pending_tasks() -> Option<bool> {
    None
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _p: PhantomData<*mut ()>,
}

impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

fn ctx(migrated: bool) -> FnContext {
    FnContext { migrated, _p: PhantomData }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let c = unsafe {
        MODEL_JOINS += 1;
        if MODEL_CHOICES_LEFT == 0 || current_num_threads() == 1 {
            0
        } else {
            MODEL_CHOICES_LEFT -= 1;
            nd_choose_(3)
        }
    };
    match c {
        0 => {
            let ra = a(ctx(false));
            let rb = b(ctx(false));
            (ra, rb)
        }
        1 => {
            unsafe { MODEL_STEALS += 1 };
            let ra = a(ctx(false));
            let rb = b(ctx(true));
            (ra, rb)
        }
        _ => {
            unsafe {
                MODEL_STEALS += 1;
                MODEL_B_FIRST += 1;
            }
            let rb = b(ctx(true));
            let ra = a(ctx(false));
            (ra, rb)
        }
    }
}

type Job<'scope> = Box<dyn FnOnce(&Scope<'scope>) + Send + 'scope>;

/// Spawned jobs run at the spawn point or at the end of the scope (chosen).
pub struct Scope<'scope> {
    later: Cell<Vec<Job<'scope>>>,
}

unsafe impl Sync for Scope<'_> {}

impl<'scope> Scope<'scope> {
    pub fn spawn<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        let now = unsafe {
            if MODEL_CHOICES_LEFT == 0 || current_num_threads() == 1 {
                true
            } else {
                MODEL_CHOICES_LEFT -= 1;
                nd_choose_(2) == 0
            }
        };
        if now {
            body(self)
        } else {
            let mut v = self.later.take();
            v.push(Box::new(body));
            self.later.set(v);
        }
    }
}

impl fmt::Debug for Scope<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Scope")
    }
}

pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope { later: Cell::new(Vec::new()) };
    let r = op(&s);
    loop {
        let v = s.later.take();
        if v.is_empty() {
            return r;
        }
        for j in v {
            j(&s)
        }
    }
}

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope(op)
}

// The rest of the public interface, not used by the code under test.
pub struct ScopeFifo<'scope>(PhantomData<&'scope ()>);
pub fn scope_fifo<'scope, OP, R>(_op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    unimplemented!()
}
pub fn in_place_scope_fifo<'scope, OP, R>(_op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    unimplemented!()
}
pub fn spawn<F: FnOnce() + Send + 'static>(_f: F) {
    unimplemented!()
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(_f: F) {
    unimplemented!()
}
pub struct BroadcastContext<'a>(PhantomData<&'a ()>);
pub fn broadcast<OP, R>(_op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    unimplemented!()
}
pub fn spawn_broadcast<OP>(_op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    unimplemented!()
}
#[derive(Debug)]
pub struct ThreadPool(());
#[derive(Debug)]
pub struct ThreadBuilder(());
#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("model")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Debug, Default)]
pub struct ThreadPoolBuilder(());
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    None
}
pub fn yield_local() -> Option<Yield> {
    None
}
