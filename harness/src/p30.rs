//! Nodes visited by each operation, against the documented complexity.
use crate::coll::*;
use crate::common::*;
use crate::kind::*;
use crate::r#gen::*;
use crate::sym::*;
use rpds::*;

/// What may be visited by anything that is to take constant time.
const CONST: u64 = 12;
/// For each element, by anything that walks over all of them.
const EACH: u64 = 12;

fn visits<T>(f: impl FnOnce() -> T) -> u64 {
    let before = hook().visits;
    let r = f();
    let n = hook().visits - before;
    drop(r);
    n
}

fn log2_up(n: u64) -> u64 {
    64 - n.leading_zeros() as u64
}

/// Every element touched once, by one way or another of iterating.
fn whole<'a, T: 'a>(it: impl Iterator<Item = T>, how: u64) {
    match how {
        0 => it.for_each(|x| drop(x)),
        _ => {
            let mut it = it;
            while it.next().is_some() {}
        }
    }
}

trait Costs: Coll {
    /// Visits that a read at one place may take.
    fn look(n: u64, cfg: u64) -> u64;
    /// Visits that an update of this kind may take.
    fn update(n: u64, cfg: u64, kind: u64) -> u64;
    /// All reads, with the element (or key) at `at` where one is named; but for walks over everything.
    fn reads(&self, at: u64, u: &Universe, cfg: u64);
    fn walks(&self, cfg: u64);
}

macro_rules! sized {
    ($c:ident, $len:ident) => {
        check(visits(|| $c.$len()) <= CONST, 140);
        check(visits(|| $c.is_empty()) <= CONST, 141);
        check(visits(|| $c.clone()) <= CONST, 142);
    };
}

macro_rules! walk {
    ($it:expr, $n:expr, $make:expr, $step:expr) => {
        check(visits(|| $it) <= $make, 143);
        let mut it = $it;
        check(visits(|| it.next().is_some()) <= $make + $step, 144);
        check(visits(|| it.size_hint()) <= CONST, 145);
        for how in 0..2 {
            check(visits(|| whole($it, how)) <= EACH * ($n + 4) + $make, 146);
        }
    };
}
macro_rules! back {
    ($it:expr, $n:expr, $make:expr, $step:expr) => {
        let mut it = $it;
        check(visits(|| it.next_back().is_some()) <= $make + $step, 147);
        check(visits(|| it.next().is_some()) <= $make + $step, 148);
        for how in 0..2 {
            check(visits(|| whole($it.rev(), how)) <= EACH * ($n + 4) + $make, 149);
        }
    };
}

impl Costs for Vector<K, TK> {
    fn look(n: u64, cfg: u64) -> u64 {
        let bits = if cfg == 0 { 5 } else { cfg };
        4 * (log2_up(n).div_ceil(bits) + 2)
    }
    fn update(n: u64, cfg: u64, kind: u64) -> u64 {
        // extend puts in two
        Self::look(n, cfg) * if kind == 4 { 4 } else { 2 }
    }
    fn reads(&self, at: u64, _: &Universe, cfg: u64) {
        sized!(self, len);
        let n = Vector::len(self) as u64;
        let l = Self::look(n, cfg);
        check(visits(|| self.get(at as usize).is_some()) <= l, 150);
        check(visits(|| self.first().is_some()) <= l, 151);
        check(visits(|| self.last().is_some()) <= l, 152);
    }
    fn walks(&self, cfg: u64) {
        let n = Vector::len(self) as u64;
        let l = Self::look(n, cfg);
        walk!(self.iter(), n, CONST, l);
        back!(self.iter(), n, CONST, l);
    }
}

impl Costs for List<K, TK> {
    fn look(_: u64, _: u64) -> u64 {
        CONST
    }
    fn update(n: u64, _: u64, kind: u64) -> u64 {
        if kind == 2 { EACH * (n + 4) } else { CONST }
    }
    fn reads(&self, _: u64, _: &Universe, _: u64) {
        sized!(self, len);
        check(visits(|| self.first().is_some()) <= CONST, 151);
        check(visits(|| self.last().is_some()) <= CONST, 152);
    }
    fn walks(&self, _: u64) {
        let n = List::len(self) as u64;
        walk!(self.iter(), n, CONST, CONST);
    }
}

impl Costs for Stack<K, TK> {
    fn look(_: u64, _: u64) -> u64 {
        CONST
    }
    fn update(_: u64, _: u64, _: u64) -> u64 {
        CONST
    }
    fn reads(&self, _: u64, _: &Universe, _: u64) {
        sized!(self, size);
        check(visits(|| self.peek().is_some()) <= CONST, 151);
    }
    fn walks(&self, _: u64) {
        let n = self.size() as u64;
        walk!(self.iter(), n, CONST, CONST);
    }
}

impl Costs for Queue<K, TK> {
    fn look(_: u64, _: u64) -> u64 {
        CONST
    }
    fn update(n: u64, _: u64, kind: u64) -> u64 {
        if kind == 0 { CONST } else { EACH * (n + 4) }
    }
    fn reads(&self, _: u64, _: &Universe, _: u64) {
        sized!(self, len);
        check(visits(|| self.peek().is_some()) <= CONST, 151);
    }
    fn walks(&self, _: u64) {
        let n = Queue::len(self) as u64;
        walk!(self.iter(), n, CONST, EACH * n);
    }
}

/// Levels, and the keys that may collide with one.
fn trie(cfg: u64) -> u64 {
    let bits = if cfg == 0 { 6 } else { log2_up(cfg) - 1 };
    4 * (64u64.div_ceil(bits) + 6)
}

macro_rules! keyed_reads {
    ($self:ident, $q:ident, $l:ident, $has:ident) => {
        check(visits(|| $self.get(&$q).is_some()) <= $l, 150);
        check(visits(|| $self.$has(&$q)) <= $l, 151);
    };
}

impl Costs for HashTrieMap<K, K, TK, BH> {
    fn look(_: u64, cfg: u64) -> u64 {
        trie(cfg)
    }
    fn update(_: u64, cfg: u64, _: u64) -> u64 {
        2 * trie(cfg)
    }
    fn reads(&self, at: u64, u: &Universe, cfg: u64) {
        sized!(self, size);
        let (l, q) = (trie(cfg), u.key(at as usize, 0));
        keyed_reads!(self, q, l, contains_key);
        check(visits(|| self.get_key_value(&q).is_some()) <= l, 152);
    }
    fn walks(&self, cfg: u64) {
        let n = self.size() as u64;
        let l = Self::look(n, cfg);
        walk!(self.iter(), n, l, l);
        walk!(self.keys(), n, l, l);
        walk!(self.values(), n, l, l);
    }
}
impl Costs for HashTrieSet<K, TK, BH> {
    fn look(_: u64, cfg: u64) -> u64 {
        trie(cfg)
    }
    fn update(_: u64, cfg: u64, _: u64) -> u64 {
        2 * trie(cfg)
    }
    fn reads(&self, at: u64, u: &Universe, cfg: u64) {
        sized!(self, size);
        let (l, q) = (trie(cfg), u.key(at as usize, 0));
        keyed_reads!(self, q, l, contains);
    }
    fn walks(&self, cfg: u64) {
        let n = self.size() as u64;
        let l = Self::look(n, cfg);
        walk!(self.iter(), n, l, l);
    }
}

fn tree(n: u64) -> u64 {
    4 * (2 * log2_up(n) + 3)
}

impl Costs for RedBlackTreeMap<K, K, TK> {
    fn look(n: u64, _: u64) -> u64 {
        tree(n)
    }
    fn update(n: u64, _: u64, _: u64) -> u64 {
        2 * tree(n)
    }
    fn reads(&self, at: u64, u: &Universe, _: u64) {
        sized!(self, size);
        let (n, q) = (self.size() as u64, u.key(at as usize, 0));
        let l = tree(n);
        keyed_reads!(self, q, l, contains_key);
        check(visits(|| self.get_key_value(&q).is_some()) <= l, 152);
        check(visits(|| self.range(q.clone()..).next().is_some()) <= 3 * l, 155);
        check(visits(|| self.range(..q.clone()).next_back().is_some()) <= 3 * l, 156);
        check(visits(|| self.first().is_some()) <= l, 153);
        check(visits(|| self.last().is_some()) <= l, 154);
    }
    fn walks(&self, cfg: u64) {
        let n = self.size() as u64;
        let l = Self::look(n, cfg);
        walk!(self.iter(), n, 2 * l, l);
        back!(self.iter(), n, 2 * l, l);
        walk!(self.keys(), n, 2 * l, l);
        back!(self.values(), n, 2 * l, l);
    }
}
impl Costs for RedBlackTreeSet<K, TK> {
    fn look(n: u64, _: u64) -> u64 {
        tree(n)
    }
    fn update(n: u64, _: u64, _: u64) -> u64 {
        2 * tree(n)
    }
    fn reads(&self, at: u64, u: &Universe, _: u64) {
        sized!(self, size);
        let (n, q) = (self.size() as u64, u.key(at as usize, 0));
        let l = tree(n);
        keyed_reads!(self, q, l, contains);
        check(visits(|| self.range(q.clone()..).next().is_some()) <= 3 * l, 155);
        check(visits(|| self.range(..q.clone()).next_back().is_some()) <= 3 * l, 156);
        check(visits(|| self.first().is_some()) <= l, 153);
        check(visits(|| self.last().is_some()) <= l, 154);
    }
    fn walks(&self, cfg: u64) {
        let n = self.size() as u64;
        let l = Self::look(n, cfg);
        walk!(self.iter(), n, 2 * l, l);
        back!(self.iter(), n, 2 * l, l);
    }
}

/// Any place: one of a few keys that have been there, or a new one.
fn place<C: Coll>(s: &Start<C>, old: u64) -> u64 {
    let k = choice(4 + if C::KEYED { s.u.keys.len() as u64 - old } else { 1 });
    if k < 4 { old * k / 4 } else { old + k - 4 }
}

/// A long starting state of param(6) elements, held by others or not, and any operation (param 7 of them) or read at any of a few
/// old places or a symbolic new one, or a walk over everything.
fn cost<C: Costs>() {
    let mut s = start::<C>();
    let (cfg, old) = (param(2), if C::KEYED { param(6) } else { s.c.len() as u64 });
    s.u.used = s.u.keys.len();
    let held = if choice(2) == 0 { Some(s.c.clone()) } else { None };
    match choice(3) {
        0 => {
            for i in 0..param(7) {
                let n = s.c.len() as u64 + 2;
                let kind = choice(C::NOPS);
                let o = Op { kind, arg: place(&s, old), mark: 100 + 10 * i };
                let most = C::update(n, cfg, kind);
                if choice(2) == 0 {
                    let c = &mut s.c;
                    check(visits(|| c.run_mut(o, &s.u)) <= most, 160);
                } else {
                    let mut d = None;
                    let c = &s.c;
                    check(visits(|| d = c.run_pers(o, &s.u)) <= most, 161);
                    if let Some(Some(d)) = d {
                        s.c = d;
                    }
                }
            }
        }
        1 => s.c.reads(place(&s, old), &s.u, cfg),
        _ => {
            // after one update at an old place, or a new one
            let arg = if C::KEYED { old * choice(3) / 2 } else { 0 };
            s.c.run_mut(Op { kind: choice(2), arg, mark: 100 }, &s.u);
            s.c.walks(cfg);
        }
    }
    drop(held);
    cover(1);
    observe(s.c.len() as u64);
}

/// Phases of any number (of a few) of elements put in or taken out of a queue: constant time on the average.
fn amortised() {
    let mut q: Queue<K, TK> = Queue::new_with_ptr_kind();
    let (mut ops, mut n, before) = (1, 0u64, hook().visits);
    for i in 0..param(1) {
        let k = [1, 5, 40][choice(3) as usize];
        for j in 0..k {
            if i % 2 == 0 {
                q.enqueue_mut(K::e(100 * i + j));
                n += 1;
            } else {
                check(q.dequeue_mut() == (n > 0), 162);
                n = n.saturating_sub(1);
            }
            ops += 1;
        }
        check(hook().visits - before <= CONST * ops, 163);
    }
    cover(1);
    observe(n);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p30_cost() {
    match param(0) {
        0 => cost::<Vector<K, TK>>(),
        1 => cost::<List<K, TK>>(),
        2 => cost::<Queue<K, TK>>(),
        3 => cost::<Stack<K, TK>>(),
        4 => cost::<HashTrieMap<K, K, TK, BH>>(),
        5 => cost::<RedBlackTreeMap<K, K, TK>>(),
        6 => cost::<HashTrieSet<K, TK, BH>>(),
        _ => cost::<RedBlackTreeSet<K, TK>>(),
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p30_queue() {
    amortised()
}

entries!(p30_cost, p30_queue);
