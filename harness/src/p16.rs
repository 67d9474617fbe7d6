//! Ordering and hashing.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;
use archery::*;
use rpds::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// Records what it is fed.
#[derive(Clone)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}

fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y)
}

/// A collection with an order, made from a sequence by one of several histories.
trait Ordd: Sized + Clone + Hash + PartialEq {
    type E: Clone;
    fn from(v: &[Self::E], how: u64) -> Self;
    /// The sequence it stands for.
    fn norm(v: &[Self::E]) -> Vec<Self::E>;

}

macro_rules! seqs {
    ($($t:ident $push:ident $pop:ident $rev:expr, $other:expr;)*) => {$(
        impl<T: Clone + Hash + Eq, P: SharedPointerKind> Ordd for $t<T, P> {
            type E = T;
            fn from(v: &[T], how: u64) -> Self {
                let mut c = if how == 0 { $t::new_with_ptr_kind() } else { $other };
                let mut w = v.to_vec();
                if $rev {
                    w.reverse();
                }
                if how == 1 {
                    // removals on the way
                    if let Some(x) = w.first() {
                        c.$push(x.clone());
                        c.$push(x.clone());
                        c.$pop();
                        c.$pop();
                    }
                }
                for x in w {
                    c.$push(x);
                }
                if how == 1 && stringify!($t) != "Queue" {
                    if let Some(x) = v.first() {
                        c.$push(x.clone());
                        let d = c.clone();
                        c.$pop();
                        drop(d);
                    }
                }
                c
            }
            fn norm(v: &[T]) -> Vec<T> {
                v.to_vec()
            }
        }
    )*};
}
seqs! {
    Vector push_back_mut drop_last_mut false, Vector::new_with_bits(1);
    List push_front_mut drop_first_mut true, List::new_with_ptr_kind();
    Queue enqueue_mut dequeue_mut false, Queue::new_with_ptr_kind();
    Stack push_mut pop_mut true, Stack::new_with_ptr_kind();
}

impl<P: SharedPointerKind> Ordd for RedBlackTreeMap<u64, u64, P> {
    type E = (u64, u64);
    fn from(v: &[(u64, u64)], how: u64) -> Self {
        let mut c = RedBlackTreeMap::new_with_ptr_kind();
        if how == 0 {
            for (k, x) in v {
                c.insert_mut(*k, *x);
            }
        } else {
            if !v.iter().any(|e| e.0 == 77) {
                c.insert_mut(77, 1);
            }
            for (k, x) in v.iter().rev() {
                if !c.contains_key(k) {
                    c.insert_mut(*k, *x);
                }
            }
            if !v.iter().any(|e| e.0 == 77) {
                c.remove_mut(&77);
            }
        }
        c
    }
    fn norm(v: &[(u64, u64)]) -> Vec<(u64, u64)> {
        let mut w: Vec<(u64, u64)> = vec![];
        for (k, x) in v {
            match w.iter().position(|e| e.0 >= *k) {
                Some(p) if w[p].0 == *k => w[p].1 = *x,
                Some(p) => w.insert(p, (*k, *x)),
                None => w.push((*k, *x)),
            }
        }
        w
    }
}
impl<P: SharedPointerKind> Ordd for RedBlackTreeSet<u64, P> {
    type E = u64;
    fn from(v: &[u64], how: u64) -> Self {
        let mut c = RedBlackTreeSet::new_with_ptr_kind();
        if how == 0 {
            for k in v {
                c.insert_mut(*k);
            }
        } else {
            if !v.contains(&77) {
                c.insert_mut(77);
            }
            for k in v.iter().rev() {
                c.insert_mut(*k);
            }
            if !v.contains(&77) {
                c.remove_mut(&77);
            }
        }
        c
    }
    fn norm(v: &[u64]) -> Vec<u64> {
        let mut w: Vec<u64> = vec![];
        for k in v {
            match w.iter().position(|e| *e >= *k) {
                Some(p) if w[p] == *k => {}
                Some(p) => w.insert(p, *k),
                None => w.push(*k),
            }
        }
        w
    }
}

trait AnyValue {
    fn any(bits: u32) -> Self;
}
impl AnyValue for u64 {
    fn any(bits: u32) -> u64 {
        any(bits)
    }
}
impl AnyValue for (u64, u64) {
    fn any(bits: u32) -> (u64, u64) {
        (any(bits), any(bits))
    }
}

/// Up to n elements of `bits` bits each.
fn some<E: AnyValue>(n: u64, bits: u32) -> Vec<E> {
    let k = choice(n + 1);
    let mut v = vec![];
    for _ in 0..k {
        v.push(E::any(bits));
    }
    v
}

/// Up to param 3 and param 4 elements of param 2 bits.
fn order<A: Ordd, B: Ordd<E = A::E>>()
where
    A::E: Ord + AnyValue,
    A: Ord + PartialOrd<B> + PartialEq<B>,
    B: PartialOrd<A> + PartialEq<A>,
{
    let x = some::<A::E>(param(3), param(2) as u32);
    let y = some::<A::E>(param(4), param(2) as u32);
    let (h, i) = (choice(2), choice(2));
    let a = A::from(&x, h);
    let a2 = A::from(&y, i);
    let b = B::from(&y, i);
    let want = A::norm(&x).cmp(&A::norm(&y));
    check(a.partial_cmp(&b) == Some(want), 80);
    check(b.partial_cmp(&a) == Some(want.reverse()), 81);
    check(a.cmp(&a2) == want, 82);
    check(a2.cmp(&a) == want.reverse(), 83);
    check((a == b) == (want == Ordering::Equal), 84);
    check((a == a2) == (want == Ordering::Equal), 84);
    check((a < b) == (want == Ordering::Less), 85);
    check((a <= b) == (want != Ordering::Greater), 85);
    check((a > b) == (want == Ordering::Greater), 85);
    check((a >= b) == (want != Ordering::Less), 85);
    let big = a.clone().max(a2.clone());
    check(big == if want == Ordering::Greater { a.clone() } else { a2.clone() }, 86);
    cover(if want == Ordering::Equal { 1 } else { 2 });
    observe(want as i8 as u8 as u64);
}

/// A value that may compare with nothing, not even itself.
#[derive(Clone, Copy)]
struct Odd(u64);
impl PartialEq for Odd {
    fn eq(&self, o: &Odd) -> bool {
        self.0 == o.0 && self.0 != 3
    }
}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Odd) -> Option<Ordering> {
        if self.0 == 3 || o.0 == 3 { None } else { Some(self.0.cmp(&o.0)) }
    }
}

fn odd<'a, C: PartialOrd>(mk: impl Fn(&[Odd]) -> C) {
    let n = param(3);
    let x: Vec<Odd> = some::<u64>(n, 2).into_iter().map(Odd).collect();
    let y: Vec<Odd> = some::<u64>(n, 2).into_iter().map(Odd).collect();
    let (a, b) = (mk(&x), mk(&y));
    let want = x.partial_cmp(&y);
    check(a.partial_cmp(&b) == want, 80);
    check((a == b) == (x == y), 84);
    check((a < b) == (want == Some(Ordering::Less)), 85);
    cover(1);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p16_odd() {
    match param(0) {
        0 => odd(|v| v.iter().copied().collect::<Vector<Odd>>()),
        1 => odd(|v| v.iter().copied().collect::<List<Odd>>()),
        2 => odd(|v| v.iter().copied().collect::<Queue<Odd>>()),
        3 => odd(|v| {
            let mut s = Stack::new();
            for x in v.iter().rev() {
                s.push_mut(*x);
            }
            s
        }),
        _ => odd(|v| {
            let mut s = RedBlackTreeMap::new();
            for (i, x) in v.iter().enumerate() {
                s.insert_mut(i, *x);
            }
            s
        }),
    }
}

/// Two collections hashed one after the other against two others.
fn feed<A: Ordd>()
where
    A::E: Ord + AnyValue,
{
    let (n, bits) = (param(3), param(2) as u32);
    let (w, x, y, z) = (some::<A::E>(n, bits), some::<A::E>(n, bits), some::<A::E>(n, bits), some::<A::E>(n, bits));
    let h = choice(2);
    let mut l = Rec(vec![]);
    let mut r = Rec(vec![]);
    A::from(&w, h).hash(&mut l);
    A::from(&x, h).hash(&mut l);
    A::from(&y, 1 - h).hash(&mut r);
    A::from(&z, 1 - h).hash(&mut r);
    let want = A::norm(&w) == A::norm(&y) && A::norm(&x) == A::norm(&z);
    check(same(&l.0, &r.0) == want, 90);
    cover(if want { 1 } else { 2 });
}

macro_rules! pick {
    ($f:ident) => {
        match (param(0), param(1)) {
            (0, 0) => $f::<Vector<u64, RcK>, Vector<u64, RcK>>(),
            (0, _) => $f::<Vector<u64, ArcTK>, Vector<u64, RcK>>(),
            (1, 0) => $f::<List<u64, RcK>, List<u64, RcK>>(),
            (1, _) => $f::<List<u64, ArcTK>, List<u64, RcK>>(),
            (2, 0) => $f::<Queue<u64, RcK>, Queue<u64, RcK>>(),
            (2, _) => $f::<Queue<u64, ArcTK>, Queue<u64, RcK>>(),
            (3, 0) => $f::<Stack<u64, RcK>, Stack<u64, RcK>>(),
            (3, _) => $f::<Stack<u64, ArcTK>, Stack<u64, RcK>>(),
            (4, 0) => $f::<RedBlackTreeMap<u64, u64, RcK>, RedBlackTreeMap<u64, u64, RcK>>(),
            (4, _) => $f::<RedBlackTreeMap<u64, u64, ArcTK>, RedBlackTreeMap<u64, u64, RcK>>(),
            (_, 0) => $f::<RedBlackTreeSet<u64, RcK>, RedBlackTreeSet<u64, RcK>>(),
            (_, _) => $f::<RedBlackTreeSet<u64, ArcTK>, RedBlackTreeSet<u64, RcK>>(),
        }
    };
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p16_order() {
    pick!(order)
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p16_hash() {
    match param(0) {
        0 => feed::<Vector<u64>>(),
        1 => feed::<List<u64>>(),
        2 => feed::<Queue<u64>>(),
        3 => feed::<Stack<u64>>(),
        4 => feed::<RedBlackTreeMap<u64, u64>>(),
        _ => feed::<RedBlackTreeSet<u64>>(),
    }
}

/// What a model stands for, in the order its collection has.
trait Listed: Clone {
    fn listed(&self, u: &Universe) -> Vec<(u64, u64)>;
}
impl Listed for Vec<(u64, u64)> {
    fn listed(&self, _: &Universe) -> Vec<(u64, u64)> {
        self.iter().map(|e| (e.0, 0)).collect()
    }
}
impl Listed for Assoc {
    fn listed(&self, u: &Universe) -> Vec<(u64, u64)> {
        sorted(self, u).iter().map(|e| (u.keys[e.0 as usize].0, e.2)).collect()
    }
}

fn moves<C: Coll>(c: &mut C, m: &mut C::M, u: &mut Universe, n: u64) {
    for _ in 0..n {
        let kind = choice(C::NOPS);
        let arg = C::pick(m, kind, u);
        // two values only, so that equal contents are reached by different histories
        let o = Op { kind, arg, mark: 1 + choice(2) };
        C::run_model(m, o);
        c.run_mut(o, u);
    }
}

/// Any two histories of param 7 and param 8 operations, from the starting state and (param 9 = 1) from nothing with bits param 10 or (0) a
/// clone of it.
fn hists<A, B>()
where
    A: Coll + Hash + Ord + PartialOrd<B> + PartialEq<B>,
    B: Coll<M = A::M> + Hash + PartialOrd<A> + PartialEq<A>,
    A::M: Listed,
{
    let mut s = start::<A>();
    let (mut a2, mut b, mut mb);
    let apart = param(9) == 1;
    (a2, b, mb) = (A::make(param(2)), B::make(param(10)), A::model());
    if !apart {
        a2 = s.c.clone();
        mb = s.m.clone();
    }
    moves(&mut s.c, &mut s.m, &mut s.u, param(7));
    if apart {
        moves(&mut b, &mut mb, &mut s.u, param(8));
    } else {
        moves(&mut a2, &mut mb, &mut s.u, param(8));
    }
    let (mut la, mut lb) = (s.m.listed(&s.u), mb.listed(&s.u));
    if param(0) == 1 || param(0) == 3 {
        // models of lists and stacks have the front at the end
        la.reverse();
        lb.reverse();
    }
    let want = la.cmp(&lb);
    let mut l = Rec(vec![]);
    let mut r = Rec(vec![]);
    s.c.hash(&mut l);
    if apart {
        check(s.c.partial_cmp(&b) == Some(want), 80);
        check(b.partial_cmp(&s.c) == Some(want.reverse()), 81);
        check((s.c == b) == (want == Ordering::Equal), 84);
        b.hash(&mut r);
    } else {
        check(s.c.cmp(&a2) == want, 82);
        check(a2.cmp(&s.c) == want.reverse(), 83);
        check((s.c == a2) == (want == Ordering::Equal), 84);
        a2.hash(&mut r);
    }
    if want == Ordering::Equal {
        check(same(&l.0, &r.0), 91);
    } else if !A::KEYED {
        check(!same(&l.0, &r.0), 92);
    }
    cover(if want == Ordering::Equal { 3 } else { 4 });
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p16_hist() {
    match (param(0), param(1)) {
        (0, 0) => hists::<Vector<K, RcK>, Vector<K, RcK>>(),
        (0, _) => hists::<Vector<K, ArcTK>, Vector<K, RcK>>(),
        (1, 0) => hists::<List<K, RcK>, List<K, RcK>>(),
        (1, _) => hists::<List<K, ArcTK>, List<K, RcK>>(),
        (2, 0) => hists::<Queue<K, RcK>, Queue<K, RcK>>(),
        (2, _) => hists::<Queue<K, ArcTK>, Queue<K, RcK>>(),
        (3, 0) => hists::<Stack<K, RcK>, Stack<K, RcK>>(),
        (3, _) => hists::<Stack<K, ArcTK>, Stack<K, RcK>>(),
        (5, 0) => hists::<RedBlackTreeMap<K, K, RcK>, RedBlackTreeMap<K, K, RcK>>(),
        (5, _) => hists::<RedBlackTreeMap<K, K, ArcTK>, RedBlackTreeMap<K, K, RcK>>(),
        (_, 0) => hists::<RedBlackTreeSet<K, RcK>, RedBlackTreeSet<K, RcK>>(),
        (_, _) => hists::<RedBlackTreeSet<K, ArcTK>, RedBlackTreeSet<K, RcK>>(),
    }
}

entries!(p16_order, p16_odd, p16_hash, p16_hist);
