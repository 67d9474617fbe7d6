//! Threads that interleave at the operations of the pointer kind.  One runs at a time; at every point the running
//! thread may be preempted, up to a bound, in favour of any other.
use crate::kind::hook;
use crate::sym::*;

struct Sched {
    n: u64,
    done: u64,
    cur: u64,
    preempt: u64,
    /// the executor's numbers of the threads
    ids: [u64; 4],
}
static mut S: Sched = Sched { n: 0, done: 0, cur: 0, preempt: 0, ids: [0; 4] };
#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { &mut S }
}

/// One of the threads other than the running one that have not ended; at the end, the first.
fn other() -> u64 {
    let s = s();
    let mut v = [0; 4];
    let mut n = 0;
    for t in 0..s.n {
        if t != s.cur && s.done >> t & 1 == 0 {
            v[n] = t;
            n += 1;
        }
    }
    if n == 0 { 0 } else { v[choice(n as u64) as usize] }
}

fn point() {
    let s = s();
    if s.preempt == 0 || s.done.count_ones() as u64 + 1 >= s.n || choice(2) == 0 {
        return;
    }
    s.preempt -= 1;
    s.cur = other();
    switch_to(s.ids[s.cur as usize]);
}

struct Job<'a> {
    f: &'a dyn Fn(u64),
    me: u64,
}

extern "C-unwind" fn go(d: *mut u8) {
    let j = unsafe { &*(d as *const Job) };
    (j.f)(j.me);
    let s = s();
    s.done |= 1 << s.cur;
    s.cur = other();
    exit_to(s.ids[s.cur as usize]);
}

/// Runs `f(0)` here and `f(1)`, .. `f(n - 1)` on threads of their own, in every order with at most `preempt`
/// preemptions.
pub fn concurrently(n: u64, preempt: u64, f: &dyn Fn(u64)) {
    let s = s();
    *s = Sched { n, done: 0, cur: 0, preempt, ids: [0; 4] };
    let mut jobs = Vec::with_capacity(n as usize);
    for t in 1..n {
        jobs.push(Job { f, me: t });
        let j = jobs.last().unwrap() as *const Job as *mut u8;
        s.ids[t as usize] = spawn(go, j);
    }
    hook().f = Some(point);
    f(0);
    s.done |= 1;
    if s.done.count_ones() as u64 != n {
        s.cur = other();
        switch_to(s.ids[s.cur as usize]);
    }
    check(s.done.count_ones() as u64 == n, 9201);
    hook().f = None;
}
