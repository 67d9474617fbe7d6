//! Stack use of long lists.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::kind::*;
use crate::sched::*;
use crate::sym::*;
use archery::*;
use rpds::*;
use std::hash::BuildHasher;

/// The rest of what goes through every element.
trait Whole: Coll + std::hash::Hash + Ord + std::fmt::Display {
    fn walk(&self) -> (usize, usize, usize, bool);
    fn gather(n: u64) -> Self;
}
macro_rules! whole {
    ($($t:ident)*) => {$(
        impl<P: SharedPointerKind> Whole for $t<K, P> {
            fn walk(&self) -> (usize, usize, usize, bool) {
                let mut n = 0;
                self.iter().for_each(|_| {
                    g().depth();
                    n += 1
                });
                let m = self.iter().fold(0, |i, _| {
                    g().depth();
                    i + 1
                });
                let seen = |_: &K| {
                    g().depth();
                    true
                };
                let k = Coll::len(self);
                check(self.iter().nth(k).is_none() && (k == 0 || self.iter().nth(k - 1).is_some()) && self.iter().skip(k / 2).step_by(3).count() <= k, 142);
                (n, m, self.iter().filter(|k| seen(k)).count(), self.iter().inspect(|k| drop(seen(k))).last().is_some() && self.iter().all(seen))
            }
            fn gather(n: u64) -> Self {
                (0..n).map(K::e).collect()
            }
        }
    )*};
}
whole!(List Stack Queue);

struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
impl std::fmt::Display for K {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        g().depth();
        f.write_str("x")
    }
}

fn empty_universe() -> Universe {
    Universe { keys: Vec::new(), used: 0 }
}

fn build<C: Coll>(n: u64, how: u64) -> C {
    let u = empty_universe();
    let mut c = C::make(0);
    for i in 0..n {
        c.run_mut(Op { kind: 0, arg: 0, mark: i }, &u);
        if how == 1 && i == n / 2 {
            // for a queue: both halves are filled
            c.run_mut(Op { kind: 1, arg: 0, mark: 0 }, &u);
        }
    }
    c
}

/// One way of using a collection of n elements, to the end of its life.
fn life<C: Whole>(n: u64, how: u64, sharing: u64, act: u64) {
    let u = empty_universe();
    let mut c: C = build(n, how);
    let mut held: Vec<C> = Vec::new();
    match sharing {
        0 => {}
        1 => held.push(c.clone()),
        2 => {
            // a version that holds only the second half
            let mut d = c.clone();
            for _ in 0..n / 2 {
                d.run_mut(Op { kind: 1, arg: 0, mark: 0 }, &u);
            }
            held.push(d);
        }
        _ => {
            // a version that extends this one
            let mut d = c.clone();
            for i in 0..n / 2 {
                d.run_mut(Op { kind: 0, arg: 0, mark: n + i }, &u);
            }
            held.push(d);
        }
    }
    match act {
        0 => {}
        1 => while c.run_mut(Op { kind: 1, arg: 0, mark: 0 }, &u) == 1 {},
        2 => {
            c.run_mut(Op { kind: C::NOPS - 1, arg: 0, mark: 5 }, &u);
        }
        3 => {
            if let Some(Some(d)) = c.run_pers(Op { kind: C::NOPS - 1, arg: 0, mark: 5 }, &u) {
                held.push(d);
            }
        }
        4 => {
            let d = c.clone();
            check(d == c, 130);
            drop(d);
            let other: C = build(n, how);
            check(other == c, 131);
        }
        5 => {
            // persistent pops, every version kept
            let mut d = c.clone();
            while let Some(Some(e)) = d.run_pers(Op { kind: 1, arg: 0, mark: 0 }, &u) {
                held.push(std::mem::replace(&mut d, e));
            }
        }
        6 => {
            let n = Coll::len(&c);
            check(c.walk() == (n, n, n, true), 138);
        }
        7 => {
            let d: C = build(n, how);
            check(d.cmp(&c).is_eq() && d.partial_cmp(&c).is_some_and(|o| o.is_eq()), 139);
            let mut h = BH::default().build_hasher();
            c.hash(&mut h);
        }
        8 => {
            use std::fmt::Write;
            let mut s = Sink(0);
            check(write!(s, "{c}").is_ok() && s.0 > 3 * (Coll::len(&c) - 1), 140);
        }
        9 => {
            let mut d = C::gather(n);
            d.clone_from(&c);
            let e = C::gather(n);
            check(Coll::len(&d) == Coll::len(&c) && Coll::len(&e) as u64 == n, 141);
        }
        _ => check(c.contents().len() == Coll::len(&c), 132),
    }
    if choice(2) == 0 {
        drop(c);
        drop(held);
    } else {
        while let Some(h) = held.pop() {
            drop(h);
        }
        drop(c);
    }
}

fn peak(f: impl Fn()) -> u64 {
    g().peak = 0;
    g().track_stack = true;
    f();
    g().track_stack = false;
    g().peak
}

/// As peak, but following every call and not only those of user code.
fn deep_peak(f: impl Fn()) -> u64 {
    follow_stack();
    f();
    deepest()
}

/// The longer one may not go deeper than the shorter one does, but for a constant.
const SLACK: u64 = 4096;

fn deep<C: Whole>() {
    let (small, large) = (param(2), param(3));
    let (how, sharing, act) = (choice(2), choice(4), choice(11));
    cover(1);
    let p1 = deep_peak(|| life::<C>(small, how, sharing, act));
    let p2 = deep_peak(|| life::<C>(large, how, sharing, act));
    check(p2 <= p1 + SLACK, 133);
}

fn dispatch<P: SharedPointerKind>() {
    match param(0) {
        0 => deep::<List<K, P>>(),
        1 => deep::<Stack<K, P>>(),
        _ => deep::<Queue<K, P>>(),
    }
}

/// params: collection (list, stack, queue), kind, short and long length.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p20_depth() {
    match param(1) {
        0 => dispatch::<RcK>(),
        1 => dispatch::<ArcTK>(),
        2 => dispatch::<ArcK>(),
        _ => dispatch::<TK>(),
    }
    check(g().alive() == 0, 134);
}

/// Keys of one hash are kept in a list.
fn bucket<P: SharedPointerKind>(n: u64, act: u64) {
    let u = Universe { keys: vec![(0, 77); n as usize], used: n as usize };
    let mut c: HashTrieMap<K, K, P, BH> = Coll::make(0);
    for i in 0..n {
        c.run_mut(Op { kind: 0, arg: i, mark: i }, &u);
    }
    match act {
        0 => drop(c),
        1 => {
            let d = c.clone();
            for i in [n - 1, n / 2, 0] {
                check(c.run_mut(Op { kind: 1, arg: i, mark: 0 }, &u) == 1, 143);
            }
            drop(c);
            check(d.get(&u.key(0, 0)).is_some(), 144);
        }
        2 => {
            let d = c.insert(u.key(n as usize / 2, 9), K::e(9));
            check(d != c, 145);
            drop((c, d));
        }
        3 => {
            check(c.iter().count() as u64 == n && c.keys().last().is_some() && c.values().fold(0, |i, _| i + 1) == n, 146);
        }
        4 => {
            let (_, v) = (0, c.get_mut(&u.key(0, 0)));
            check(v.is_some(), 147);
            check(c.get(&u.key(n as usize - 1, 0)).is_some(), 148);
        }
        _ => {
            let d = c.clone();
            check(c.get_mut(&u.key(0, 0)).is_some() && !c.run_pers(Op { kind: 1, arg: 0, mark: 0 }, &u).flatten().is_none_or(|e| e.size() as u64 != n - 1), 149);
            drop(d);
        }
    }
}

/// params: kind, short and long length.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p20_bucket() {
    let act = choice(6);
    let run = |n| match param(0) {
        0 => deep_peak(|| bucket::<RcK>(n, act)),
        1 => deep_peak(|| bucket::<ArcTK>(n, act)),
        _ => deep_peak(|| bucket::<TK>(n, act)),
    };
    let (p1, p2) = (run(param(1)), run(param(2)));
    check(p2 <= p1 + SLACK, 250);
    check(g().alive() == 0, 251);
    cover(2);
}

/// Peak stack of: n elements, a handle for each thread (whole or a tail), all dropped at once.
fn race(n: u64, threads: u64, preempt: u64, skip: &[u64]) -> u64 {
    let mut l: List<K, TK> = List::new_with_ptr_kind();
    for i in 0..n {
        l.push_front_mut(K::e(i));
    }
    let mut v: Vec<Option<List<K, TK>>> = Vec::new();
    for t in 0..threads {
        let mut h = l.clone();
        for _ in 0..skip[t as usize] {
            h.drop_first_mut();
        }
        v.push(Some(h));
    }
    drop(l);
    let base = v.as_mut_ptr() as usize;
    peak(|| {
        concurrently(threads, preempt, &|t| {
            let h = unsafe { (*(base as *mut Option<List<K, TK>>).add(t as usize)).take() };
            drop(h);
        })
    })
}

/// params: threads, preemptions, length, -, most elements a thread's handle leaves out.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p20_race() {
    let (threads, preempt, n) = (param(0), param(1), param(2));
    let mut skip = [0; 4];
    for t in 0..threads as usize {
        skip[t] = choice(param(4) + 1);
    }
    let p1 = race(4, threads, 0, &skip);
    let p2 = race(n, threads, preempt, &skip);
    check(p2 <= p1 + SLACK, 135);
    check(g().alive() == 0, 136);
    check(hook().handles == 0 && hook().blocks == 0, 137);
    cover(1);
}

entries!(p20_depth, p20_bucket, p20_race);
