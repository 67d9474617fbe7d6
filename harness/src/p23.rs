//! Building from iterators.
use crate::coll::*;
use crate::r#gen::start_universe;
use crate::common::*;
use crate::sym::*;
use archery::*;
use rpds::*;

const MANY: u64 = 1000;

/// `n` items, and any legal size hint.
struct Src<T, F: FnMut(u64) -> T> {
    i: u64,
    n: u64,
    lo: u64,
    hi: u64,
    f: F,
}
impl<T, F: FnMut(u64) -> T> Iterator for Src<T, F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i == self.n {
            return None;
        }
        self.i += 1;
        Some((self.f)(self.i - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = (self.n - self.i) as usize;
        let lo = match self.lo {
            0 => 0,
            1 => left,
            _ => left / 2,
        };
        let hi = match self.hi {
            0 => None,
            1 => Some(left),
            2 => Some(left + 7),
            3 => Some(1 << 60),
            _ => Some(usize::MAX),
        };
        (lo, hi)
    }
}
fn src<T, F: FnMut(u64) -> T>(n: u64, f: F) -> Src<T, F> {
    Src { i: 0, n, lo: choice(3), hi: choice(5), f }
}

fn seq<C: Coll + FromIterator<K>>() {
    let n = if param(7) >= MANY { param(7) - MANY } else { choice(param(7) + 1) };
    let c: C = src(n, |i| K::e(100 + i)).collect();
    let got = c.contents();
    check(Coll::len(&c) as u64 == n && got.len() as u64 == n, 180);
    for (i, e) in got.iter().enumerate() {
        check(e.0 == 100 + i as u64, 181);
    }
    check(g().alive() == n, 182);
    drop(c);
    check(g().alive() == 0, 183);
    cover(1);
}

/// param 2: bits; 8: elements before; 9: a handle that shares them.
fn extend<P: SharedPointerKind>() {
    let n = if param(7) >= MANY { param(7) - MANY } else { choice(param(7) + 1) };
    let before = param(8);
    let mut v: Vector<K, P> = Coll::make(param(2));
    for i in 0..before {
        v.push_back_mut(K::e(i));
    }
    let w = if param(9) == 1 { Some(v.clone()) } else { None };
    v.extend(src(n, |i| K::e(before + i)));
    check(v.len() as u64 == before + n, 184);
    for (i, e) in v.contents().iter().enumerate() {
        check(e.0 == i as u64, 185);
    }
    for i in 0..before + n {
        check(v.get(i as usize).is_some_and(|k| k.idx == i), 186);
    }
    if let Some(w) = w {
        check(w.len() as u64 == before, 187);
        for (i, e) in w.contents().iter().enumerate() {
            check(e.0 == i as u64, 188);
        }
    }
    cover(2);
}

fn keyed<C: Coll>(build: impl Fn(u64, &dyn Fn(u64) -> (K, K)) -> C) {
    // from MANY on: that many items with repeats, of concrete keys
    let many = param(7) >= MANY;
    let (keys, u, n) = if many {
        (param(6), start_universe::<C>(), param(7) - MANY)
    } else {
        let mut u = universe::<C>(param(3) as usize, param(4) as u32, param(5) as u32);
        u.used = u.keys.len();
        (param(3), u, choice(param(7) + 1))
    };
    let mut which = Vec::new();
    let mut m = C::model();
    for i in 0..n {
        let k = if many { i * 7 % keys } else { choice(keys) };
        which.push(k);
        C::run_model(&mut m, Op { kind: 0, arg: k, mark: 100 + i });
    }
    let c = build(n, &|i| (u.key(which[i as usize] as usize, 100 + i), K::e(100 + i)));
    c.verify(&m, &u);
    // as inserting them one by one
    let mut d = C::make(0);
    for i in 0..n {
        d.run_mut(Op { kind: 0, arg: which[i as usize], mark: 100 + i }, &u);
    }
    check(c == d && d == c, 189);
    cover(3);
}

fn map<C: Coll + FromIterator<(K, K)>>() {
    keyed::<C>(|n, f| src(n, |i| f(i)).collect());
}
fn set<C: Coll + FromIterator<K>>() {
    keyed::<C>(|n, f| src(n, |i| f(i).0).collect());
}

fn which<P: SharedPointerKind>() {
    match param(0) {
        0 => seq::<Vector<K, P>>(),
        1 => seq::<List<K, P>>(),
        2 => seq::<Queue<K, P>>(),
        3 => seq::<Stack2<P>>(),
        4 => map::<HashTrieMap<K, K, P, BH>>(),
        5 => map::<RedBlackTreeMap<K, K, P>>(),
        6 => set::<HashTrieSet<K, P, BH>>(),
        7 => set::<RedBlackTreeSet<K, P>>(),
        _ => extend::<P>(),
    }
}

type Stack2<P> = Stack<K, P>;

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p23_from() {
    match param(1) {
        0 => which::<RcK>(),
        1 => which::<ArcTK>(),
        _ => which::<ArcK>(),
    }
}

/// The construction macros, with any byte values.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p23_macros() {
    let (a, b, c) = (any(8), any(8), any(8));
    fn is(it: impl Iterator<Item = u64>, want: &[u64]) {
        let mut n = 0;
        for v in it {
            check(n < want.len() && v == want[n], 190);
            n += 1;
        }
        check(n == want.len(), 191);
    }
    match param(0) {
        0 => {
            is(vector![a, b, c].iter().copied(), &[a, b, c]);
            is(vector![a].iter().copied(), &[a]);
            is(vector_sync![a, b, c].iter().copied(), &[a, b, c]);
            let e: Vector<u64> = vector![];
            is(e.iter().copied(), &[]);
        }
        1 => {
            is(list![a, b, c].iter().copied(), &[a, b, c]);
            is(list![a, b].iter().copied(), &[a, b]);
            is(list_sync![a, b, c].iter().copied(), &[a, b, c]);
            check(list![a, b, c].last() == Some(&c) && list![a, b, c].first() == Some(&a), 192);
            let e: List<u64> = list![];
            is(e.iter().copied(), &[]);
        }
        2 => {
            is(queue![a, b, c].iter().copied(), &[a, b, c]);
            is(queue_sync![a, b, c].iter().copied(), &[a, b, c]);
            check(queue![a, b, c].peek() == Some(&a), 193);
            let e: Queue<u64> = queue![];
            is(e.iter().copied(), &[]);
        }
        3 => {
            // the last one is the top
            is(stack![a, b, c].iter().copied(), &[c, b, a]);
            is(stack_sync![a, b, c].iter().copied(), &[c, b, a]);
            check(stack![a, b, c].peek() == Some(&c), 194);
            let e: Stack<u64> = stack![];
            is(e.iter().copied(), &[]);
        }
        4 => {
            let want = |k: u64| if k == c { Some(3) } else if k == b { Some(2) } else if k == a { Some(1) } else { None };
            let n = 1 + (a != b) as usize + (c != a && c != b) as usize;
            let q = any(8);
            let m = rbt_map![a => 1, b => 2, c => 3];
            check(m.get(&q).copied() == want(q) && m.size() == n, 195);
            let m = rbt_map_sync![a => 1, b => 2, c => 3];
            check(m.get(&q).copied() == want(q) && m.size() == n, 196);
            let s = rbt_set![a, b, c];
            check(s.contains(&q) == want(q).is_some() && s.size() == n, 197);
            let s = rbt_set_sync![a, b, c];
            check(s.contains(&q) == want(q).is_some() && s.size() == n, 198);
        }
        _ => {
            // hashing is the standard hasher's: concrete keys
            let m = ht_map![1u64 => a, 2 => b, 1 => c];
            check(m.get(&1) == Some(&c) && m.get(&2) == Some(&b) && m.get(&3).is_none() && m.size() == 2, 199);
            let m = ht_map_sync![1u64 => a, 2 => b, 1 => c];
            check(m.get(&1) == Some(&c) && m.get(&2) == Some(&b) && m.get(&3).is_none() && m.size() == 2, 200);
            let s = ht_set![1u64, 2, 1];
            check(s.contains(&1) && s.contains(&2) && !s.contains(&3) && s.size() == 2, 201);
            let s = ht_set_sync![1u64, 2, 1];
            check(s.contains(&1) && s.contains(&2) && !s.contains(&3) && s.size() == 2, 202);
        }
    }
    cover(4);
}

entries!(p23_from, p23_macros);
