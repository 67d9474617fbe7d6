//! Pointer equality.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;
use archery::*;
use rpds::*;

trait Same: Coll {
    fn same(&self, o: &Self) -> bool;
}
impl<P: SharedPointerKind> Same for HashTrieMap<K, K, P, BH> {
    fn same(&self, o: &Self) -> bool {
        self.ptr_eq(o)
    }
}
impl<P: SharedPointerKind> Same for RedBlackTreeMap<K, K, P> {
    fn same(&self, o: &Self) -> bool {
        self.ptr_eq(o)
    }
}
impl<P: SharedPointerKind> Same for HashTrieSet<K, P, BH> {
    fn same(&self, o: &Self) -> bool {
        self.ptr_eq(o)
    }
}
impl<P: SharedPointerKind> Same for RedBlackTreeSet<K, P> {
    fn same(&self, o: &Self) -> bool {
        self.ptr_eq(o)
    }
}

fn equal_models(a: &Assoc, b: &Assoc) -> bool {
    a.len() == b.len() && a.iter().all(|e| b.contains(e))
}

fn relate<C: Same<M = Assoc>>(v: &[(C, Assoc)], u: &Universe) {
    for (i, (a, ma)) in v.iter().enumerate() {
        check(a.same(a), 230);
        let c = a.clone();
        check(a.same(&c) && c.same(a), 231);
        for (j, (b, mb)) in v.iter().enumerate() {
            let s = a.same(b);
            if s {
                if i != j {
                    cover(2);
                }
                check(equal_models(ma, mb), 232);
                check(a.len() == b.len() && *a == *b, 233);
            }
            check(s == b.same(a), 234);
        }
        a.verify(ma, u);
    }
}

/// param 7: steps; every version is kept.
fn versions<C: Same<M = Assoc>>() {
    let mut s = start::<C>();
    let mut v: Vec<(C, Assoc)> = vec![(s.c, s.m)];
    for i in 0..param(7) {
        let who = choice(v.len() as u64) as usize;
        let kind = choice(C::NOPS);
        let arg = C::pick(&v[who].1, kind, &mut s.u);
        let o = Op { kind, arg, mark: 100 + 10 * i };
        let mut m = v[who].1.clone();
        let changed = C::run_model(&mut m, o) == 1;
        match choice(2) {
            0 => {
                let mut c = v[who].0.clone();
                check(c.same(&v[who].0), 235);
                c.run_mut(o, &s.u);
                v.push((c, m));
            }
            _ => {
                if let Some(Some(c)) = v[who].0.run_pers(o, &s.u) {
                    if !changed {
                        // removing what is not there
                        check(c.same(&v[who].0), 236);
                        cover(3);
                    }
                    v.push((c, m));
                }
            }
        }
    }
    relate(&v, &s.u);
    cover(1);
}

fn which<P: SharedPointerKind>() {
    match param(0) {
        4 => versions::<HashTrieMap<K, K, P, BH>>(),
        5 => versions::<RedBlackTreeMap<K, K, P>>(),
        6 => versions::<HashTrieSet<K, P, BH>>(),
        _ => versions::<RedBlackTreeSet<K, P>>(),
    }
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p26_versions() {
    match param(1) {
        0 => which::<RcK>(),
        1 => which::<ArcTK>(),
        _ => which::<ArcK>(),
    }
}

/// Separately built collections, of any two pointer kinds, never are the same content unless there is none.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p26_apart() {
    let n = choice(param(7) + 1);
    let mut u = Universe { keys: Vec::new(), used: n as usize };
    for _ in 0..n {
        u.keys.push((u.keys.len() as u64, any_hash(64, 0)));
    }
    fn fill<C: Coll>(n: u64, u: &Universe) -> C {
        let mut c = C::make(0);
        for i in 0..n {
            c.run_mut(Op { kind: 0, arg: i, mark: i }, u);
        }
        c
    }
    if param(0) == 4 {
        let a: HashTrieMap<K, K, RcK, BH> = fill(n, &u);
        let b: HashTrieMap<K, K, ArcTK, BH> = fill(n, &u);
        let c: HashTrieMap<K, K, RcK, BH> = fill(n, &u);
        check(!a.ptr_eq(&b) || (n == 0 && a == b), 237);
        check(!a.ptr_eq(&c) || (n == 0 && a == c), 238);
        check(a == b && a == c && b == a, 239);
    } else {
        let a: RedBlackTreeMap<K, K, RcK> = fill(n, &u);
        let b: RedBlackTreeMap<K, K, ArcTK> = fill(n, &u);
        let c: RedBlackTreeMap<K, K, RcK> = fill(n, &u);
        check(!a.ptr_eq(&b) || n == 0, 237);
        check(!a.ptr_eq(&c) || n == 0, 238);
        check(a == b && a == c && b == a, 239);
    }
    cover(4);
}

entries!(p26_versions, p26_apart);
