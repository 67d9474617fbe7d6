//! Harness parts shared by several properties.
use crate::coll::*;
use crate::common::*;
use crate::sym::*;

/// Parameters every history harness starts with: which collection, pointer kind, cfg (bits or degree), number of
/// symbolic keys, low and high symbolic hash bits, number of concrete keys, then harness-specific ones from 7 on, and
/// from 12 on the concrete history that reaches the starting state (kind * 64 + argument).
pub struct Start<C: Coll> {
    pub c: C,
    pub m: C::M,
    pub u: Universe,
}

pub const PREFIX: u32 = 12;
/// In the prefix: a whole history of one of a few patterns and any length.
pub const LONG: u64 = 1 << 20;

/// The hash of a key of the starting state; from `lo` = 100 on they are concrete: spread over all 64 bits, over two
/// values of each of the lowest five-bit groups, over four values, over runs of equal low bits.
pub fn start_hash(i: u64, lo: u32, hi: u32) -> u64 {
    match lo {
        100 => (i + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15),
        101 => (0..6).map(|b| (i >> b & 1) << (5 * b)).sum(),
        102 => (i & 1) | (i & 2) << 62,
        103 => i << (4 * (i % 16)),
        _ => any_hash(lo, hi),
    }
}

/// The steps of a long pattern: (kind, argument).
fn long_steps(pattern: u64, n: u64, keyed: bool) -> Vec<(u64, u64)> {
    let mut v = Vec::new();
    let add = |v: &mut Vec<(u64, u64)>, i: u64| v.push((0, i));
    match pattern {
        // in order
        0 => (0..n).for_each(|i| add(&mut v, i)),
        // more, then some go
        1 if keyed => {
            (0..n).rev().for_each(|i| add(&mut v, i));
            (0..n).filter(|i| i % 3 == 1).for_each(|i| v.push((1, i)));
        }
        1 => {
            (0..n + n / 2).for_each(|i| add(&mut v, i));
            (0..n / 2).for_each(|_| v.push((1, 0)));
        }
        // scattered, with removals and reinsertions between
        _ if keyed => {
            for i in 0..n {
                add(&mut v, i * 7 % n);
                if i % 4 == 3 {
                    v.push((1, (i - 2) * 7 % n));
                }
                if i % 8 == 7 {
                    add(&mut v, (i - 2) * 7 % n);
                }
            }
        }
        _ => {
            (0..n / 2 + 1).for_each(|i| add(&mut v, i));
            v.push((1, 0));
            (n / 2..n).for_each(|i| add(&mut v, i));
        }
    }
    v
}

/// Runs the concrete history of the parameters from PREFIX on.
pub fn run_prefix<C: Coll>(mut f: impl FnMut(Op)) {
    let mut i = 0;
    loop {
        let p = param(PREFIX + i);
        if p == 0 {
            break;
        }
        if p >= LONG {
            for (j, (kind, arg)) in long_steps(p / LONG - 1, p % LONG, C::KEYED).into_iter().enumerate() {
                f(Op { kind, arg, mark: 5000 + j as u64 });
            }
        } else {
            f(Op { kind: (p - 1) / 64, arg: (p - 1) % 64, mark: 5000 + i as u64 });
        }
        i += 1;
    }
}

/// The keys the parameters ask for; those of the starting state are used already.
pub fn start_universe<C: Coll>() -> Universe {
    let (m, lo, hi, nk) = (param(3) as usize, param(4) as u32, param(5) as u32, param(6) as usize);
    let mut u;
    if C::HASHED {
        u = Universe { keys: Vec::new(), used: nk };
        for i in 0..nk + m {
            u.keys.push((0, if i < nk { start_hash(i as u64, lo, hi) } else { any_hash(if lo >= 100 { 3 } else { lo }, if lo >= 100 { 1 } else { hi }) }));
        }
    } else {
        u = Universe::concrete(nk);
        if C::ORDERED {
            for _ in 0..m {
                u.add_ordered(8);
            }
        }
    }
    u
}

pub fn start<C: Coll>() -> Start<C> {
    let u = start_universe::<C>();
    let mut c = C::make(param(2));
    let mut model = C::model();
    run_prefix::<C>(|o| {
        let want = C::run_model(&mut model, o);
        let got = c.run_mut(o, &u);
        check(got == 2 || got == want, 10);
    });
    Start { c, m: model, u }
}

/// Any history of `param(7)` operations; everything observable is compared with the model at the end
/// (param(8) = 1: after every operation).
pub fn hist<C: Coll>() {
    let mut s = start::<C>();
    let (ops, every) = (param(7), param(8) == 1);
    if every {
        s.c.verify(&s.m, &s.u);
    }
    for i in 0..ops {
        step(&mut s.c, &mut s.m, &mut s.u, 100 + 10 * i);
        if every {
            s.c.verify(&s.m, &s.u);
        }
    }
    s.c.verify(&s.m, &s.u);
    s.c.missing(&s.m, &s.u);
    observe(s.c.len() as u64);
    cover(1);
}

/// As hist, with the persistent forms where there are any.
pub fn hist_pers<C: Coll>() {
    let mut s = start::<C>();
    for i in 0..param(7) {
        let kind = choice(C::NOPS);
        let arg = C::pick(&s.m, kind, &mut s.u);
        let o = Op { kind, arg, mark: 100 + 10 * i };
        let mut m2 = s.m.clone();
        let want = C::run_model(&mut m2, o);
        match s.c.run_pers(o, &s.u) {
            None => {
                let got = s.c.run_mut(o, &s.u);
                check(got == 2 || got == want, 10);
                s.m = m2;
            }
            Some(None) => {
                check(want == 0, 10);
            }
            Some(Some(c)) => {
                check(want == 1 || C::KEYED, 10);
                s.c = c;
                s.m = m2;
            }
        }
    }
    s.c.verify(&s.m, &s.u);
    s.c.missing(&s.m, &s.u);
    observe(s.c.len() as u64);
    cover(1);
}

/// Which end comes next: any for up to 10 elements; for more, a few of the possible numbers of steps at one end and then all at the other,
/// or turns.
pub struct Turns {
    first: u64,
    then: u64,
    taken: usize,
    turn_at: usize,
}
impl Turns {
    pub fn new(n: usize) -> Turns {
        if n <= 10 {
            return Turns { first: 9, then: 9, taken: 0, turn_at: 0 };
        }
        let first = choice(3);
        if first == 2 {
            return Turns { first: 0, then: 8, taken: 0, turn_at: choice(2) as usize };
        }
        let at = [0, 1, n / 2, n - 1, n];
        Turns { first, then: 1 - first, taken: 0, turn_at: at[choice(5) as usize] }
    }
    pub fn next(&mut self) -> u64 {
        self.taken += 1;
        let now = if self.taken <= self.turn_at { self.first } else { self.then };
        match now {
            9 => choice(2),
            8 => (self.taken % 2) as u64,
            d => d,
        }
    }
}

/// Consumes `it` from both ends in every interleaving; `jumps` adds nth, nth_back and the consuming adaptors.
pub fn both_ends<T>(
    mut it: impl DoubleEndedIterator<Item = T> + ExactSizeIterator,
    want: &[(u64, u64, u64)],
    f: impl Fn(T) -> (u64, u64, u64),
    jumps: bool,
) {
    let (mut lo, mut hi) = (0usize, want.len());
    let mut over = 0;
    let mut turns = Turns::new(want.len());
    loop {
        check(it.len() == hi - lo, 31);
        check(it.size_hint() == (hi - lo, Some(hi - lo)), 32);
        let what = if jumps { choice(8) } else { turns.next() };
        let left = hi - lo;
        match what {
            0 => {
                let got = it.next().map(&f);
                check(got == if left > 0 { Some(want[lo]) } else { None }, 33);
                lo += (left > 0) as usize;
            }
            1 => {
                let got = it.next_back().map(&f);
                check(got == if left > 0 { Some(want[hi - 1]) } else { None }, 34);
                hi -= (left > 0) as usize;
            }
            2 => {
                let k = [1, if left > 2 { 2 } else { usize::MAX }][choice(2) as usize];
                let got = it.nth(k).map(&f);
                check(got == if left > k { Some(want[lo + k]) } else { None }, 35);
                lo += left.min(k.saturating_add(1));
            }
            3 => {
                let k = [1, if left > 2 { 2 } else { usize::MAX }][choice(2) as usize];
                let got = it.nth_back(k).map(&f);
                check(got == if left > k { Some(want[hi - 1 - k]) } else { None }, 36);
                hi -= left.min(k.saturating_add(1));
            }
            4 => {
                let got = it.last().map(&f);
                check(got == if left > 0 { Some(want[hi - 1]) } else { None }, 37);
                return;
            }
            5 => {
                check(it.count() == left, 38);
                return;
            }
            6 => {
                let n = it.fold(lo, |i, e| {
                    check(i < hi && f(e) == want[i], 39);
                    i + 1
                });
                check(n == hi, 40);
                return;
            }
            _ => {
                let n = it.rev().fold(hi, |i, e| {
                    check(i > lo && f(e) == want[i - 1], 41);
                    i - 1
                });
                check(n == lo, 42);
                return;
            }
        }
        if left == 0 {
            over += 1;
            if over == 2 {
                return;
            }
        }
    }
}

/// The model in key order.
pub fn sorted(m: &Assoc, u: &Universe) -> Assoc {
    let mut v = m.clone();
    for i in 1..v.len() {
        let mut j = i;
        while j > 0 && u.keys[v[j - 1].0 as usize].0 > u.keys[v[j].0 as usize].0 {
            v.swap(j - 1, j);
            j -= 1;
        }
    }
    v
}
