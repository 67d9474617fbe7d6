//! Panics in user code.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;

/// A version for every step of the prefix and one more, all held; one operation on the last whose user calls run out
/// at some point.
/// param 7: last position of the panic; 8: 0 in-place, 1 persistent, 2 lookups, 3 comparisons of two versions;
/// 9: operations before it (by choice).
fn faults<C: Coll>() {
    let mut s = start::<C>();
    let mut held: Vec<(C, C::M)> = vec![(s.c.clone(), s.m.clone())];
    for i in 0..param(9) {
        step(&mut s.c, &mut s.m, &mut s.u, 100 + 10 * i);
        held.push((s.c.clone(), s.m.clone()));
    }
    // or with no other holder at all
    if choice(2) == 0 {
        held.clear();
    }
    let at = 1 + choice(param(7));
    let mode = param(8);
    let (kind, arg) = if mode < 2 {
        let kind = choice(C::NOPS);
        (kind, C::pick(&s.m, kind, &mut s.u))
    } else {
        (0, 0)
    };
    let o = Op { kind, arg, mark: 900 };
    let mut m2 = s.m.clone();
    C::run_model(&mut m2, o);
    let twin = s.c.clone();
    let twin = if mode == 0 { None } else { Some(twin) };
    g().blown = false;
    g().fuse = at;
    let mut made = None;
    let c = &mut s.c;
    let (m, u) = (&s.m, &s.u);
    let p = panics(|| match mode {
        0 => {
            c.run_mut(o, u);
        }
        1 => made = c.run_pers(o, u).flatten(),
        2 => c.verify(m, u),
        _ => check(*c == *twin.as_ref().unwrap(), 141),
    });
    g().fuse = 0;
    check(p == g().blown, 142);
    cover(p as u64);
    for (c, m) in &held {
        c.verify(m, &s.u);
    }
    if mode == 0 {
        if !p {
            s.c.verify(&m2, &s.u);
        }
    } else {
        s.c.verify(&s.m, &s.u);
    }
    if let Some(c) = made {
        c.verify(&m2, &s.u);
    }
    if let Some(c) = twin {
        c.verify(&s.m, &s.u);
    }
    // what was left of the one being modified can still be used and dropped
    if mode == 0 && p {
        panics(|| {
            s.c.contents();
        });
        g().blown = false;
        panics(|| {
            s.c.run_mut(Op { kind: 0, arg, mark: 950 }, &s.u);
        });
    }
    drop(s.c);
    for (c, m) in &held {
        c.verify(m, &s.u);
    }
    drop(held);
    // whatever is left over has leaked, which is safe
    observe(p as u64);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p21_faults() {
    with_coll!(param(0), param(1), faults());
}

/// An iterator that panics instead of giving its `at`-th item.
struct Bomb {
    i: u64,
    n: u64,
    at: u64,
}
impl Iterator for Bomb {
    type Item = K;
    fn next(&mut self) -> Option<K> {
        if self.i == self.at {
            panic!("source panics");
        }
        if self.i == self.n {
            return None;
        }
        self.i += 1;
        Some(K::e(self.i))
    }
}

fn sources<C: Coll + FromIterator<K>>() {
    let n = param(7);
    let at = choice(n + 2);
    let r = attempt(|| Bomb { i: 0, n, at }.collect::<C>());
    check(r.is_some() == (at > n), 143);
    if let Some(c) = r {
        check(c.contents().len() as u64 == n, 144);
    }
    check(g().alive() == 0, 145);
    cover(2);
}

/// Vector::extend with a source that panics; a version that shares everything is held.
fn extends<P: archery::SharedPointerKind>() {
    let n = param(7);
    let mut v: rpds::Vector<K, P> = rpds::Vector::new_with_bits(param(2) as u8);
    for i in 0..param(8) {
        v.push_back_mut(K::e(100 + i));
    }
    let w = v.clone();
    let before = w.contents();
    let at = choice(n + 2);
    let p = panics(|| v.extend(Bomb { i: 0, n, at }));
    check(p == (at <= n), 146);
    check(w.contents() == before, 147);
    check(p || v.len() as u64 == param(8) + n, 148);
    panics(|| {
        v.contents();
    });
    drop(v);
    check(w.contents() == before, 149);
    cover(3);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p21_sources() {
    use rpds::*;
    match param(0) {
        0 => sources::<Vector<K>>(),
        1 => sources::<List<K>>(),
        2 => sources::<Queue<K>>(),
        3 => sources::<Stack<K>>(),
        4 => sources::<HashTrieSet<K, archery::RcK, BH>>(),
        5 => sources::<RedBlackTreeSet<K>>(),
        6 => extends::<archery::RcK>(),
        _ => extends::<archery::ArcTK>(),
    }
}

entries!(p21_faults, p21_sources);
