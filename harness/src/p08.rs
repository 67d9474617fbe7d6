//! Range queries.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;
use archery::*;
use rpds::*;
use std::ops::Bound::{self, *};

fn bound(kind: u64, k: &K) -> Bound<&K> {
    match kind {
        0 => Included(k),
        1 => Excluded(k),
        _ => Unbounded,
    }
}

fn walk<T>(mut it: impl DoubleEndedIterator<Item = T>, want: &[(u64, u64, u64)], f: impl Fn(T) -> (u64, u64, u64)) {
    let (mut lo, mut hi) = (0usize, want.len());
    let mut over = 0;
    let mut turns = Turns::new(want.len());
    loop {
        let left = hi - lo;
        if turns.next() == 0 {
            let got = it.next().map(&f);
            check(got == if left > 0 { Some(want[lo]) } else { None }, 33);
            lo += (left > 0) as usize;
        } else {
            let got = it.next_back().map(&f);
            check(got == if left > 0 { Some(want[hi - 1]) } else { None }, 34);
            hi -= (left > 0) as usize;
        }
        if left == 0 {
            over += 1;
            if over == 2 {
                return;
            }
        }
    }
}

/// Bounds with any 8-bit places in the order, any kinds.
struct Query {
    sk: u64,
    ek: u64,
    a: K,
    b: K,
}

/// With param 8, places further apart: on a key and between keys by turns.
fn place(bits: u32) -> u64 {
    let x = any(bits);
    let s = param(8);
    if s == 0 { x } else { x << s | x & 1 }
}

fn query(bits: u32) -> Query {
    let (sk, ek) = (choice(3), choice(3));
    let (x, y) = (if sk < 2 { place(bits) } else { 0 }, if ek < 2 { place(bits) } else { 0 });
    // equality of keys is by idx: give the bounds their place as identity
    Query { sk, ek, a: K::new(1000 + x, x, 0, 0), b: K::new(1000 + y, y, 0, 0) }
}

impl Query {
    fn bad(&self) -> bool {
        if self.sk == 2 || self.ek == 2 {
            return false;
        }
        self.a.ord > self.b.ord || (self.a.ord == self.b.ord && self.sk == 1 && self.ek == 1)
    }
    fn holds(&self, o: u64) -> bool {
        let lo = match self.sk {
            0 => o >= self.a.ord,
            1 => o > self.a.ord,
            _ => true,
        };
        let hi = match self.ek {
            0 => o <= self.b.ord,
            1 => o < self.b.ord,
            _ => true,
        };
        lo && hi
    }
}

fn sorted(m: &Assoc, u: &Universe) -> Vec<(u64, (u64, u64, u64))> {
    let mut v: Vec<_> = m.iter().map(|e| (u.keys[e.0 as usize].0, *e)).collect();
    v.sort_by_key(|e| e.0);
    v
}

/// Prefix, then one query.  Keys sit at 1, 3, 5, ...; bounds are any `param(7)`-bit places.
fn map_range<P: SharedPointerKind>() {
    let s = start::<RedBlackTreeMap<K, K, P>>();
    let q = query(param(7) as u32);
    let mut made = false;
    let r = attempt(|| {
        let it = s.c.range::<K, _>((bound(q.sk, &q.a), bound(q.ek, &q.b)));
        made = true;
        it
    });
    check(made != q.bad(), 30);
    if let Some(it) = r {
        let mut want = vec![];
        for (o, e) in sorted(&s.m, &s.u) {
            if q.holds(o) {
                want.push(e);
            }
        }
        cover(if want.is_empty() { 2 } else { 1 });
        walk(it, &want, |(k, v)| (k.idx, k.tag, v.tag));
        observe(want.len() as u64);
    } else {
        cover(3);
    }
}

fn set_range<P: SharedPointerKind>() {
    let s = start::<RedBlackTreeSet<K, P>>();
    let q = query(param(7) as u32);
    let r = attempt(|| s.c.range::<K, _>((bound(q.sk, &q.a), bound(q.ek, &q.b))));
    check(r.is_some() != q.bad(), 30);
    if let Some(it) = r {
        let mut want = vec![];
        for (o, e) in sorted(&s.m, &s.u) {
            if q.holds(o) {
                want.push(e);
            }
        }
        cover(1);
        walk(it, &want, |k| (k.idx, k.tag, 0));
        observe(want.len() as u64);
    }
}

/// The range operators, with keys of a type of their own.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p08_sugar() {
    let n = param(0);
    let mut m: RedBlackTreeMap<u64, u64> = RedBlackTreeMap::new();
    for i in 0..n {
        m.insert_mut(10 * i + 10, i);
    }
    let (a, b) = (any(8), any(8));
    let ent = |(k, v): (&u64, &u64)| (*k, *v, 0);
    let sel = |f: &dyn Fn(u64) -> bool| -> Vec<(u64, u64, u64)> {
        let mut w = vec![];
        for i in 0..n {
            if f(10 * i + 10) {
                w.push((10 * i + 10, i, 0));
            }
        }
        w
    };
    match choice(6) {
        0 => walk(m.range(..), &sel(&|_| true), ent),
        1 => walk(m.range(a..), &sel(&|k| k >= a), ent),
        2 => walk(m.range(..b), &sel(&|k| k < b), ent),
        3 => walk(m.range(..=b), &sel(&|k| k <= b), ent),
        4 => match attempt(|| m.range(a..b)) {
            Some(it) => {
                check(a <= b, 30);
                walk(it, &sel(&|k| a <= k && k < b), ent)
            }
            None => check(a > b, 30),
        },
        _ => match attempt(|| m.range(a..=b)) {
            Some(it) => {
                check(a <= b, 30);
                walk(it, &sel(&|k| a <= k && k <= b), ent)
            }
            None => check(a > b, 30),
        },
    }
    cover(1);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p08_map() {
    match param(1) {
        0 => map_range::<RcK>(),
        _ => map_range::<ArcTK>(),
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p08_set() {
    match param(1) {
        0 => set_range::<RcK>(),
        _ => set_range::<ArcTK>(),
    }
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p08_long() {
    if param(0) == 5 { map_range::<RcK>() } else { set_range::<RcK>() }
}

entries!(p08_map, p08_set, p08_long, p08_sugar);
