//! Stands in for rayon-core when parallel iteration is executed symbolically.  The two halves of a join exchange data
//! only through their consumers, so running them one after the other in either order, with either half stolen or not
//! and any number of workers, gives every schedule in which a half is not preempted.
use std::sync::atomic::{AtomicUsize, Ordering};

unsafe extern "C-unwind" {
    fn sym_choice(n: u64) -> u64;
}

static WORKERS: AtomicUsize = AtomicUsize::new(1);
static JOINS: AtomicUsize = AtomicUsize::new(0);
static FREE: AtomicUsize = AtomicUsize::new(usize::MAX);
static REST: AtomicUsize = AtomicUsize::new(0);

pub mod model {
    use super::*;
    pub fn set_workers(n: usize) {
        WORKERS.store(n, Ordering::Relaxed);
    }
    /// Any outcome for the first `free` joins, `rest` for those after them.
    pub fn limit(free: usize, rest: u64) {
        FREE.store(free, Ordering::Relaxed);
        REST.store(rest as usize, Ordering::Relaxed);
    }
    pub fn joins() -> usize {
        JOINS.load(Ordering::Relaxed)
    }
}

pub struct FnContext {
    migrated: bool,
}
impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn current_num_threads() -> usize {
    WORKERS.load(Ordering::Relaxed)
}
pub fn max_num_threads() -> usize {
    65535
}
pub fn current_thread_index() -> Option<usize> {
    None
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let nth = JOINS.fetch_add(1, Ordering::Relaxed);
    // order, and which halves run on another worker than the caller's
    let how = if nth < FREE.load(Ordering::Relaxed) { unsafe { sym_choice(6) } } else { REST.load(Ordering::Relaxed) as u64 };
    let ctx = |m: bool| FnContext { migrated: m };
    let (ma, mb) = match how / 2 {
        0 => (false, false),
        1 => (false, true),
        _ => (true, true),
    };
    if how % 2 == 0 {
        let x = a(ctx(ma));
        (x, b(ctx(mb)))
    } else {
        let y = b(ctx(mb));
        (a(ctx(ma)), y)
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

pub struct Scope<'s>(std::marker::PhantomData<&'s ()>);
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        f(self)
    }
}
pub type ScopeFifo<'s> = Scope<'s>;
pub fn in_place_scope<'s, F: FnOnce(&Scope<'s>) -> R, R>(f: F) -> R {
    f(&Scope(std::marker::PhantomData))
}
pub use in_place_scope as scope;
pub use in_place_scope as in_place_scope_fifo;
pub use in_place_scope as scope_fifo;

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
pub use spawn as spawn_fifo;

pub struct BroadcastContext;
pub fn broadcast() {}
pub fn spawn_broadcast() {}
pub struct ThreadBuilder;
pub struct ThreadPool;
#[derive(Debug)]
pub struct ThreadPoolBuildError;
pub struct ThreadPoolBuilder;
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_local() -> Option<Yield> {
    None
}
pub fn yield_now() -> Option<Yield> {
    None
}
