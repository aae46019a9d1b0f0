//! Stand-in for rayon-core: same interface, but the threads of the pool are
//! simulated threads. The real `rayon` crate (all iterator code, splitting,
//! consumers and producers) runs on top of it unmodified.
//!
//! `join` hands both closures to the simulator, which decides whether the
//! second one is stolen, by which worker and when. Everything else the crate
//! exports is given a legal sequential meaning.

use std::any::Any;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub struct SimHooks {
    /// Runs both closures, in any order and on any worker; the argument says
    /// whether the closure runs on another thread than the one that called.
    pub join: fn(&mut dyn FnMut(bool), &mut dyn FnMut(bool)),
    pub threads: fn() -> usize,
    pub index: fn() -> Option<usize>,
}

static mut HOOKS: Option<&'static SimHooks> = None;

pub fn sim_install(hooks: &'static SimHooks) {
    unsafe { HOOKS = Some(hooks) }
}

fn hooks() -> &'static SimHooks {
    unsafe { HOOKS.expect("simulator not installed") }
}

pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}

impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

type Caught<R> = Result<R, Box<dyn Any + Send>>;

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let (mut a, mut b) = (Some(oper_a), Some(oper_b));
    let (mut ra, mut rb): (Option<Caught<RA>>, Option<Caught<RB>>) = (None, None);
    let ctx = |migrated| FnContext { migrated, _marker: PhantomData };
    (hooks().join)(
        &mut |m| {
            let a = a.take().unwrap();
            ra = Some(catch_unwind(AssertUnwindSafe(|| a(ctx(m)))));
        },
        &mut |m| {
            let b = b.take().unwrap();
            rb = Some(catch_unwind(AssertUnwindSafe(|| b(ctx(m)))));
        },
    );
    match (ra.unwrap(), rb.unwrap()) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => resume_unwind(e),
    }
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| oper_a(), |_| oper_b())
}

pub fn current_num_threads() -> usize {
    (hooks().threads)()
}

pub fn current_thread_index() -> Option<usize> {
    (hooks().index)()
}

pub fn max_num_threads() -> usize {
    1 << 16
}

#[derive(Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}

pub fn yield_now() -> Option<Yield> {
    current_thread_index().map(|_| Yield::Idle)
}

pub fn yield_local() -> Option<Yield> {
    current_thread_index().map(|_| Yield::Idle)
}

pub struct Scope<'scope> {
    _marker: PhantomData<std::cell::Cell<&'scope ()>>,
}
unsafe impl Sync for Scope<'_> {}
unsafe impl Send for Scope<'_> {}

impl<'scope> Scope<'scope> {
    pub fn spawn<F>(&self, f: F)
    where
        F: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        f(self)
    }
}

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    op(&Scope { _marker: PhantomData })
}

pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    op(&Scope { _marker: PhantomData })
}

pub struct ScopeFifo<'scope> {
    _marker: PhantomData<std::cell::Cell<&'scope ()>>,
}
unsafe impl Sync for ScopeFifo<'_> {}
unsafe impl Send for ScopeFifo<'_> {}

impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<F>(&self, f: F)
    where
        F: FnOnce(&ScopeFifo<'scope>) + Send + 'scope,
    {
        f(self)
    }
}

pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    op(&ScopeFifo { _marker: PhantomData })
}

pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    op(&ScopeFifo { _marker: PhantomData })
}

pub fn spawn<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    f()
}

pub fn spawn_fifo<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    f()
}

pub struct BroadcastContext<'a> {
    index: usize,
    total: usize,
    _marker: PhantomData<&'a mut dyn Fn()>,
}

impl BroadcastContext<'_> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.total
    }
}

pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let total = current_num_threads();
    (0..total)
        .map(|index| op(BroadcastContext { index, total, _marker: PhantomData }))
        .collect()
}

pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;

impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("simulated")
    }
}
impl std::error::Error for ThreadPoolBuildError {}

pub struct ThreadBuilder;

/// A pool is a view of the one simulated pool.
#[derive(Debug)]
pub struct ThreadPool {
    _private: (),
}

impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
}

#[derive(Debug, Default)]
pub struct ThreadPoolBuilder {
    _private: (),
}

impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { _private: () })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
