//! Parallel iteration, over every way of splitting and ordering the work.
use crate::common::*;
use crate::r#gen::start_hash;
use crate::sym::*;
use archery::*;
use rayon::iter::plumbing::*;
use rayon::iter::{IntoParallelIterator, ParallelIterator};
use rpds::HashTrieMap;

type Map = HashTrieMap<K, K, ArcTK, BH>;
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

/// What all folders of a run share.
struct Log {
    seen: Vec<u64>, // by key: how often
    total: u64,
    full: bool,
    /// how the consumer may fill up: never; any time
    fills: bool,
}
#[derive(Clone, Copy)]
struct Shared(*mut Log);
impl Shared {
    fn log(&self) -> &'static mut Log {
        unsafe { &mut *self.0 }
    }
    fn may_fill(&self) {
        let l = self.log();
        if l.fills && !l.full && choice(2) == 1 {
            l.full = true;
        }
    }
    fn is_full(&self) -> bool {
        self.may_fill();
        self.log().full
    }
}

struct Cons(Shared);
struct Fold(Shared, u64);
struct Red;
impl<'a> Consumer<(&'a K, &'a K)> for Cons {
    type Folder = Fold;
    type Reducer = Red;
    type Result = u64;
    fn split_at(self, _: usize) -> (Self, Self, Red) {
        check(false, 300);
        (Cons(self.0), self, Red)
    }
    fn into_folder(self) -> Fold {
        Fold(self.0, 0)
    }
    fn full(&self) -> bool {
        self.0.is_full()
    }
}
impl<'a> UnindexedConsumer<(&'a K, &'a K)> for Cons {
    fn split_off_left(&self) -> Self {
        Cons(self.0)
    }
    fn to_reducer(&self) -> Red {
        Red
    }
}
impl Reducer<u64> for Red {
    fn reduce(self, a: u64, b: u64) -> u64 {
        a + b
    }
}
impl<'a> Folder<(&'a K, &'a K)> for Fold {
    type Result = u64;
    fn consume(self, (k, v): (&'a K, &'a K)) -> Fold {
        let l = self.0.log();
        // nothing is handed to a consumer that is full
        check(!l.full, 301);
        k.touch();
        v.touch();
        check((k.idx as usize) < l.seen.len(), 302);
        check(v.idx == 1000 + k.idx, 303);
        l.seen[k.idx as usize] += 1;
        check(l.seen[k.idx as usize] == 1, 304);
        l.total += 1;
        self.0.may_fill();
        Fold(self.0, self.1 + 1)
    }
    fn complete(self) -> u64 {
        self.1
    }
    fn full(&self) -> bool {
        self.0.is_full()
    }
}

fn keys(n: usize) -> Universe {
    // params: 0 keys, 1 degree, 2 and 3 symbolic low and high hash bits, 4 workers, 5 keys removed again
    if param(2) >= 100 {
        return Universe { keys: (0..n).map(|i| (0, start_hash(i as u64, param(2) as u32, 0))).collect(), used: n };
    }
    Universe::hashed(n, param(2) as u32, param(3) as u32)
}

fn build(u: &Universe, n: usize, gone: usize) -> Map {
    let mut m: Map = HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(BH::default(), param(1) as u8);
    for i in 0..n {
        m.insert_mut(u.key(i, i as u64), K::e(1000 + i as u64));
    }
    for i in 0..gone {
        check(m.remove_mut(&u.key(i, 0)), 305);
    }
    m
}

/// A consumer that records what it is given, filling up at any moment or never.
/// param 7: how many joins may go either way (0: all of them).
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p24_consumer() {
    let (n, gone) = (param(0) as usize, param(5) as usize);
    rayon_core::model::set_workers(param(4) as usize);
    if param(7) > 0 {
        rayon_core::model::limit(param(7) as usize, choice(6));
    }
    let u = keys(n);
    let m = build(&u, n, gone);
    let mut log = Log { seen: vec![0; n], total: 0, full: false, fills: param(6) == 1 };
    let r = (&m).into_par_iter().drive_unindexed(Cons(Shared(&mut log)));
    check(r == log.total, 306);
    for i in 0..n {
        if i < gone {
            check(log.seen[i] == 0, 307);
        } else if !log.full {
            check(log.seen[i] == 1, 308);
        }
    }
    if log.full {
        cover(2);
    } else {
        check(log.total == m.size() as u64, 309);
        cover(1);
    }
    if rayon_core::model::joins() > 1 {
        cover(3);
    }
    observe(rayon_core::model::joins() as u64);
    drop(m);
    check(g().alive() == 0, 310);
}

/// The adaptors users call.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p24_adaptors() {
    let (n, gone) = (param(0) as usize, param(5) as usize);
    rayon_core::model::set_workers(param(4) as usize);
    let u = keys(n);
    let m = build(&u, n, gone);
    let it = (&m).into_par_iter();
    let left = (n - gone) as u64;
    // any subset of the keys
    let set = any(n as u32 + 1);
    let has = |k: &K| set >> k.idx & 1 == 1;
    let mut wanted = 0;
    for i in gone..n {
        wanted += set >> i & 1;
    }
    match choice(9) {
        0 => check(it.count() as u64 == left, 320),
        1 => {
            let s: u64 = it.map(|(k, v)| (1 << (8 * k.idx)) + (v.idx - v.idx)).sum();
            let mut want = 0;
            for i in gone..n {
                want += 1 << (8 * i);
            }
            check(s == want, 321);
        }
        2 => {
            let v: Vec<(&K, &K)> = it.collect();
            check(v.len() as u64 == left, 322);
            let mut seen = 0u64;
            for (k, v) in v {
                check(v.idx == 1000 + k.idx && seen >> k.idx & 1 == 0, 323);
                seen |= 1 << k.idx;
            }
        }
        3 => match it.find_any(|(k, _)| has(k)) {
            Some((k, v)) => check(has(k) && k.idx as usize >= gone && v.idx == 1000 + k.idx, 324),
            None => check(wanted == 0, 325),
        },
        4 => check(it.any(|(k, _)| has(k)) == (wanted > 0), 326),
        5 => check(it.all(|(k, _)| has(k)) == (wanted == left), 327),
        6 => check(it.filter(|(k, _)| has(k)).count() as u64 == wanted, 328),
        7 => {
            let r = it.map(|(k, _)| k.idx).reduce(|| 0, u64::max);
            check(r == if left > 0 { n as u64 - 1 } else { 0 }, 329);
        }
        _ => {
            let log = Log { seen: vec![0; n], total: 0, full: false, fills: false };
            let mut log = log;
            let s = Shared(&mut log);
            it.for_each(move |(k, _)| {
                let s = s;
                s.log().seen[k.idx as usize] += 1;
            });
            for i in 0..n {
                check(log.seen[i] == (i >= gone) as u64, 330);
            }
        }
    }
    cover(4);
    drop(m);
    check(g().alive() == 0, 310);
}

entries!(p24_consumer, p24_adaptors);
