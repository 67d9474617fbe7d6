//! RedBlackTreeSet against a set.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;
use archery::*;
use rpds::*;

/// Two sets over param(3) keys in any order, second of another pointer kind.
fn relate<P: SharedPointerKind, PO: SharedPointerKind>() {
    let m = param(3) as usize;
    let u = Universe::ordered(m, 8);
    let mut a: RedBlackTreeSet<K, P> = RedBlackTreeSet::new_with_ptr_kind();
    let mut b: RedBlackTreeSet<K, PO> = RedBlackTreeSet::new_with_ptr_kind();
    let (mut ma, mut mb) = (0u64, 0u64);
    for i in 0..m {
        let w = choice(4);
        if w & 1 != 0 {
            a.insert_mut(u.key(i, 1));
            ma |= 1 << i;
        }
        if w & 2 != 0 {
            b.insert_mut(u.key(i, 2));
            mb |= 1 << i;
        }
    }
    check(a.is_subset(&b) == (ma & !mb == 0), 60);
    check(b.is_subset(&a) == (mb & !ma == 0), 61);
    check(a.is_superset(&b) == (mb & !ma == 0), 62);
    check(b.is_superset(&a) == (ma & !mb == 0), 63);
    check(a.is_disjoint(&b) == (ma & mb == 0), 64);
    check(b.is_disjoint(&a) == (ma & mb == 0), 65);
    cover(1);
    observe(ma);
}

fn versions<P: SharedPointerKind>() {
    let mut s = start::<RedBlackTreeSet<K, P>>();
    let (c, m) = (s.c.clone(), s.m.clone());
    for i in 0..param(7) {
        step(&mut s.c, &mut s.m, &mut s.u, 100 + 10 * i);
    }
    let sub = |x: &Assoc, y: &Assoc| x.iter().all(|e| mfind(y, e.0).is_some());
    let meet = |x: &Assoc, y: &Assoc| x.iter().any(|e| mfind(y, e.0).is_some());
    check(c.is_subset(&s.c) == sub(&m, &s.m), 60);
    check(s.c.is_subset(&c) == sub(&s.m, &m), 61);
    check(c.is_superset(&s.c) == sub(&s.m, &m), 62);
    check(s.c.is_superset(&c) == sub(&m, &s.m), 63);
    check(c.is_disjoint(&s.c) == !meet(&m, &s.m), 64);
    check((c == s.c) == (sub(&m, &s.m) && sub(&s.m, &m)), 65);
    // one and the same
    let d = s.c.clone();
    for x in [&d, &s.c] {
        check(s.c.is_subset(x) && s.c.is_superset(x), 66);
        check(s.c.is_disjoint(x) == s.m.is_empty(), 67);
        check(s.c == *x, 68);
    }
    cover(1);
}

/// Iteration from both ends after a history.
fn ends<P: SharedPointerKind>() {
    let mut s = start::<RedBlackTreeSet<K, P>>();
    for i in 0..param(7) {
        step(&mut s.c, &mut s.m, &mut s.u, 100 + 10 * i);
    }
    let want = sorted(&s.m, &s.u);
    both_ends(
        s.c.iter(),
        &want,
        |k| {
            k.touch();
            (k.idx, k.tag, 0)
        },
        param(9) == 1,
    );
    cover(1);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p14_hist() {
    with_coll!(7, param(1), hist());
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p14_pers() {
    with_coll!(7, param(1), hist_pers());
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p14_relate() {
    match param(1) {
        0 => relate::<RcK, RcK>(),
        1 => relate::<ArcTK, RcK>(),
        _ => relate::<RcK, ArcTK>(),
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p14_versions() {
    match param(1) {
        0 => versions::<RcK>(),
        _ => versions::<ArcTK>(),
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p14_ends() {
    match param(1) {
        0 => ends::<RcK>(),
        _ => ends::<ArcTK>(),
    }
}

entries!(p14_hist, p14_pers, p14_relate, p14_versions, p14_ends);
