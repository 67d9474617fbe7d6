//! HashTrieSet against a set.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;
use archery::*;
use rpds::*;
use std::hash::{BuildHasher, Hasher};

/// Another hasher of the same keys.
#[derive(Clone, Default)]
struct Other(u64);
struct OtherHasher(u64, u64);
impl BuildHasher for Other {
    type Hasher = OtherHasher;
    fn build_hasher(&self) -> OtherHasher {
        OtherHasher(0, self.0)
    }
}
impl Hasher for OtherHasher {
    fn finish(&self) -> u64 {
        match self.1 {
            0 => self.0,
            1 => !self.0,
            2 => self.0.rotate_left(60),
            _ => 7,
        }
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 << 8) ^ *x as u64;
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 ^= v;
    }
}

/// Two sets over param(3) keys with any hashes (param 4, 5), degrees param 2 and 6, the second's hasher param 7.
fn relate<P: SharedPointerKind>() {
    let m = param(3) as usize;
    let u = Universe::hashed(m, param(4) as u32, param(5) as u32);
    let mut a: HashTrieSet<K, P, BH> = HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(BH::default(), param(2) as u8);
    let mut b: HashTrieSet<K, P, Other> =
        HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(Other(param(7)), param(6) as u8);
    let (mut ma, mut mb) = (0u64, 0u64);
    for i in 0..m {
        let w = choice(4);
        if w & 1 != 0 {
            a.insert_mut(u.key(i, 1));
            ma |= 1 << i;
        }
        if w & 2 != 0 {
            b.insert_mut(u.key(i, 2));
            mb |= 1 << i;
        }
    }
    check(a.is_subset(&b) == (ma & !mb == 0), 60);
    check(b.is_subset(&a) == (mb & !ma == 0), 61);
    check(a.is_superset(&b) == (mb & !ma == 0), 62);
    check(b.is_superset(&a) == (ma & !mb == 0), 63);
    check(a.is_disjoint(&b) == (ma & mb == 0), 64);
    check(b.is_disjoint(&a) == (ma & mb == 0), 65);
    cover(1);
    observe(ma);
}

/// Two versions of one set, related after further operations on one of them.
fn versions<P: SharedPointerKind>() {
    let mut s = start::<HashTrieSet<K, P, BH>>();
    let (c, m) = (s.c.clone(), s.m.clone());
    for i in 0..param(7) {
        step(&mut s.c, &mut s.m, &mut s.u, 100 + 10 * i);
    }
    let sub = |x: &Assoc, y: &Assoc| x.iter().all(|e| mfind(y, e.0).is_some());
    let meet = |x: &Assoc, y: &Assoc| x.iter().any(|e| mfind(y, e.0).is_some());
    check(c.is_subset(&s.c) == sub(&m, &s.m), 60);
    check(s.c.is_subset(&c) == sub(&s.m, &m), 61);
    check(c.is_superset(&s.c) == sub(&s.m, &m), 62);
    check(s.c.is_superset(&c) == sub(&m, &s.m), 63);
    check(c.is_disjoint(&s.c) == !meet(&m, &s.m), 64);
    check((c == s.c) == (sub(&m, &s.m) && sub(&s.m, &m)), 65);
    // one and the same
    let d = s.c.clone();
    for x in [&d, &s.c] {
        check(s.c.is_subset(x) && s.c.is_superset(x), 66);
        check(s.c.is_disjoint(x) == s.m.is_empty(), 67);
        check(s.c == *x, 68);
    }
    cover(1);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p13_hist() {
    with_coll!(6, param(1), hist());
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p13_pers() {
    with_coll!(6, param(1), hist_pers());
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p13_relate() {
    match param(1) {
        0 => relate::<RcK>(),
        _ => relate::<ArcTK>(),
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p13_versions() {
    match param(1) {
        0 => versions::<RcK>(),
        _ => versions::<ArcTK>(),
    }
}

entries!(p13_hist, p13_pers, p13_relate, p13_versions);
