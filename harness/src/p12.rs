//! Iteration over hash tries.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;
use archery::*;
use rpds::*;

/// Every wanted triple once, remaining length exact, then None for good.
fn walk<T>(mut it: impl ExactSizeIterator<Item = T>, want: &[(u64, u64, u64)], f: impl Fn(T) -> (u64, u64, u64)) {
    let n = want.len();
    let mut seen = 0u64;
    for i in 0..n {
        check(it.len() == n - i, 31);
        check(it.size_hint() == (n - i, Some(n - i)), 32);
        match it.next() {
            Some(e) => {
                let e = f(e);
                match want.iter().position(|w| *w == e) {
                    Some(p) => {
                        check(seen >> p & 1 == 0, 33);
                        seen |= 1 << p;
                    }
                    None => check(false, 34),
                }
            }
            None => check(false, 35),
        }
    }
    check(it.len() == 0, 36);
    check(it.next().is_none(), 37);
    check(it.next().is_none(), 37);
}

/// Of many places, the first, the last and some between.
fn few(i: usize, n: usize) -> bool {
    n <= 6 || i < 2 || i + 2 > n || i == n / 2 || i == n / 3
}

/// Steps of next() and then another way to consume the rest: still every wanted triple once.
fn consume<T, I: ExactSizeIterator<Item = T>>(make: impl Fn() -> I, want: &[(u64, u64, u64)], f: impl Fn(T) -> (u64, u64, u64)) {
    let n = want.len();
    let mark = |seen: u64, e: T| {
        let e = f(e);
        match want.iter().position(|w| *w == e) {
            Some(p) => {
                check(seen >> p & 1 == 0, 45);
                seen | 1 << p
            }
            None => {
                check(false, 46);
                seen
            }
        }
    };
    for skip in (0..=n).filter(|i| few(*i, n)) {
        let some = |it: &mut I| {
            let mut seen = 0;
            for _ in 0..skip {
                seen = mark(seen, it.next().expect("entry"));
            }
            seen
        };
        let all = (1u64 << n) - 1;
        let mut it = make();
        let seen = some(&mut it);
        check(it.fold(seen, &mark) == all, 47);
        let mut it = make();
        let seen = some(&mut it);
        // the last one is the one that repeated next() yields last
        let mut jt = make();
        let mut end = seen;
        some(&mut jt);
        let mut at = None;
        while let Some(e) = jt.next() {
            let now = mark(end, e);
            at = Some(now & !end);
            end = now;
        }
        check(end == all, 48);
        check(it.last().map(|e| mark(0, e)) == at, 49);
        for far in (0..=n - skip).filter(|i| few(*i, n - skip)).chain([usize::MAX]) {
            let to = skip.saturating_add(far);
            let mut it = make();
            let seen = some(&mut it);
            let e = it.nth(far);
            check(e.is_some() == (to < n), 50);
            let seen = e.map_or(seen, |e| mark(seen, e));
            let left = n.saturating_sub(to.saturating_add(1));
            check(it.len() == left, 51);
            let seen = it.fold(seen, &mark);
            check((all & !seen).count_ones() as usize == if to < n { far } else { n - skip }, 52);
        }
        let mut it = make();
        let seen = some(&mut it);
        let rest: Vec<T> = it.collect();
        check(rest.len() == n - skip, 53);
        check(rest.into_iter().fold(seen, &mark) == all, 54);
    }
}

fn iters<P: SharedPointerKind>() {
    let mut s = start::<HashTrieMap<K, K, P, BH>>();
    for i in 0..param(7) {
        step(&mut s.c, &mut s.m, &mut s.u, 100 + 10 * i);
    }
    let c = &s.c;
    walk(c.iter(), &s.m, |(k, v)| {
        k.touch();
        v.touch();
        (k.idx, k.tag, v.tag)
    });
    let keys: Assoc = s.m.iter().map(|e| (e.0, e.1, 0)).collect();
    walk(c.keys(), &keys, |k| (k.idx, k.tag, 0));
    // every entry carries a mark of its own
    let vals: Assoc = s.m.iter().map(|e| (0, 0, e.2)).collect();
    walk(c.values(), &vals, |v| (0, 0, v.tag));
    walk(c.into_iter(), &s.m, |(k, v)| (k.idx, k.tag, v.tag));
    consume(|| c.iter(), &s.m, |(k, v)| (k.idx, k.tag, v.tag));
    consume(|| c.keys(), &keys, |k| (k.idx, k.tag, 0));
    consume(|| c.values(), &vals, |v| (0, 0, v.tag));
    for skip in 0..=s.m.len() {
        let mut it = c.iter();
        for _ in 0..skip {
            it.next();
        }
        check(it.count() == s.m.len() - skip, 42);
        let mut it = c.keys();
        for _ in 0..skip {
            it.next();
        }
        check(it.fold(0, |a, _| a + 1) == s.m.len() - skip, 43);
        check(c.iter().nth(skip).is_some() == (skip < s.m.len()), 44);
    }
    observe(s.m.len() as u64);
    cover(1);
}

fn set_iters<P: SharedPointerKind>() {
    let mut s = start::<HashTrieSet<K, P, BH>>();
    for i in 0..param(7) {
        step(&mut s.c, &mut s.m, &mut s.u, 100 + 10 * i);
    }
    walk(s.c.iter(), &s.m, |k| {
        k.touch();
        (k.idx, k.tag, 0)
    });
    walk((&s.c).into_iter(), &s.m, |k| (k.idx, k.tag, 0));
    consume(|| s.c.iter(), &s.m, |k| (k.idx, k.tag, 0));
    observe(s.m.len() as u64);
    cover(1);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p12_map() {
    match param(1) {
        0 => iters::<RcK>(),
        _ => iters::<ArcTK>(),
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p12_set() {
    match param(1) {
        0 => set_iters::<RcK>(),
        _ => set_iters::<ArcTK>(),
    }
}

entries!(p12_map, p12_set);
