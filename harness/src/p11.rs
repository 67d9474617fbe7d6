//! Iteration over sequences.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;
use archery::*;
use rpds::*;

/// The parts of sequence iteration that Coll does not give.
trait Seqs: Coll<M = Vec<(u64, u64)>> {
    fn walk(&self, want: &[(u64, u64, u64)], into: bool);
    const FRONT_IS_LAST: bool;
}

fn val(k: &K) -> (u64, u64, u64) {
    k.touch();
    (k.idx, k.tag, 0)
}

/// Steps to the end; the remaining length is exact all along, and nth, count, last and fold agree.
fn forward<'a>(mut it: impl Iterator<Item = &'a K>, want: &[(u64, u64, u64)]) {
    let mut lo = 0;
    let hi = want.len();
    let mut over = 0;
    loop {
        check(it.size_hint() == (hi - lo, Some(hi - lo)), 32);
        let left = hi - lo;
        match if param(9) == 1 { choice(5) } else { 0 } {
            0 => {
                let got = it.next().map(val);
                check(got == if left > 0 { Some(want[lo]) } else { None }, 33);
                lo += (left > 0) as usize;
            }
            1 => {
                let k = [1, if left > 2 { 2 } else { usize::MAX }][choice(2) as usize];
                let got = it.nth(k).map(val);
                check(got == if left > k { Some(want[lo + k]) } else { None }, 35);
                lo += left.min(k.saturating_add(1));
            }
            2 => {
                let got = it.last().map(val);
                check(got == if left > 0 { Some(want[hi - 1]) } else { None }, 37);
                return;
            }
            3 => {
                check(it.count() == left, 38);
                return;
            }
            _ => {
                let n = it.fold(lo, |i, e| {
                    check(i < hi && val(e) == want[i], 39);
                    i + 1
                });
                check(n == hi, 40);
                return;
            }
        }
        if left == 0 {
            over += 1;
            if over == 2 {
                return;
            }
        }
    }
}

impl<P: SharedPointerKind> Seqs for Vector<K, P> {
    fn walk(&self, want: &[(u64, u64, u64)], into: bool) {
        if into {
            both_ends(self.into_iter(), want, val, param(9) == 1)
        } else {
            both_ends(self.iter(), want, val, param(9) == 1)
        }
    }
    const FRONT_IS_LAST: bool = false;
}
macro_rules! fwd {
    ($t:ident, $f:expr, $l:expr) => {
        impl<P: SharedPointerKind> Seqs for $t<K, P> {
            fn walk(&self, want: &[(u64, u64, u64)], into: bool) {
                ($l)(self, want.len());
                if into { forward(self.into_iter(), want) } else { forward(self.iter(), want) }
            }
            const FRONT_IS_LAST: bool = $f;
        }
    };
}
fwd!(List, true, |l: &List<K, P>, n| {
    let mut it = l.iter();
    for i in 0..=n {
        check(it.len() == n - i, 31);
        it.next();
    }
    check(it.len() == 0, 31);
});
fwd!(Stack, true, |l: &Stack<K, P>, n| {
    let mut it = l.iter();
    for i in 0..=n {
        check(it.len() == n - i, 31);
        it.next();
    }
    check(it.len() == 0, 31);
});
fwd!(Queue, false, |_: &Queue<K, P>, _: usize| {});

/// param 7: symbolic operations after the prefix; 9: 1 adds nth, last, count, fold.
fn seq<C: Seqs>() {
    let mut s = start::<C>();
    for i in 0..param(7) {
        step(&mut s.c, &mut s.m, &mut s.u, 100 + 10 * i);
    }
    let mut want: Vec<_> = s.m.iter().map(|e| (e.0, e.1, 0)).collect();
    if C::FRONT_IS_LAST {
        want.reverse();
    }
    s.c.walk(&want, param(10) == 1);
    observe(want.len() as u64);
    cover(1);
}

/// A vector of param(3) elements, bits param(2): any front steps, any back steps, then the middle.
fn slab<P: SharedPointerKind>() {
    let n = param(3) as usize;
    let mut v: Vector<u64, P> = if param(2) == 0 { Vector::new_with_ptr_kind() } else { Vector::new_with_bits(param(2) as u8) };
    for i in 0..n {
        v.push_back_mut(i as u64);
    }
    let a = concrete_below(n + 1);
    let b = concrete_below(n - a + 1);
    let mut it = v.iter();
    // the two ends take turns until each has made its steps
    let (mut i, mut j) = (0, 0);
    while i < a || j < b {
        if i < a {
            check(it.next() == Some(&(i as u64)), 33);
            i += 1;
        }
        if j < b {
            check(it.next_back() == Some(&((n - 1 - j) as u64)), 34);
            j += 1;
        }
        check(it.len() == n - i - j, 31);
    }
    let mut k = a;
    if choice(2) == 0 {
        for e in it.by_ref() {
            check(*e == k as u64, 35);
            k += 1;
        }
        check(k == n - b, 36);
    } else {
        let mut k = n - b;
        for e in it.by_ref().rev() {
            k -= 1;
            check(*e == k as u64, 35);
        }
        check(k == a, 36);
    }
    check(it.next().is_none() && it.next_back().is_none() && it.len() == 0, 37);
    cover(1);
}

fn concrete_below(n: usize) -> usize {
    choice(n as u64) as usize
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p11_seq() {
    match param(0) {
        0 => with_kind!(param(1), seq, Vector[K][]()),
        1 => with_kind!(param(1), seq, List[K][]()),
        2 => with_kind!(param(1), seq, Queue[K][]()),
        _ => with_kind!(param(1), seq, Stack[K][]()),
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p11_slab() {
    match param(1) {
        0 => slab::<RcK>(),
        _ => slab::<ArcTK>(),
    }
}

entries!(p11_seq, p11_slab);
