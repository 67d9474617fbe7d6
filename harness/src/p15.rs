//! Equality.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;
use archery::*;
use rpds::*;

trait Same {
    fn same(&self, o: &Self) -> bool;
}
impl Same for Vec<(u64, u64)> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.0 == b.0)
    }
}
impl Same for Assoc {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|e| mfind(o, e.0).is_some_and(|p| o[p].2 == e.2))
    }
}

fn run<C: Coll>(c: &mut C, m: &mut C::M, u: &mut Universe, n: u64) {
    for _ in 0..n {
        let kind = choice(C::NOPS);
        let arg = C::pick(m, kind, u);
        // two values only, so that equal contents are reached by different histories
        let o = Op { kind, arg, mark: 1 + choice(2) };
        let want = C::run_model(m, o);
        let got = c.run_mut(o, u);
        check(got == 2 || got == want, 10);
    }
}

fn compare<A: Coll + PartialEq<B>, B: Coll<M = A::M> + PartialEq<A>>(a: &A, ma: &A::M, b: &B, mb: &A::M)
where
    A::M: Same,
{
    let want = ma.same(mb);
    check((a == b) == want, 70);
    check((b == a) == want, 71);
    check((a != b) != want, 72);
    let (x, y) = (a.clone(), b.clone());
    check(*a == x && *b == y, 73);
    check((x == y) == want, 74);
    cover(if want { 1 } else { 2 });
}

/// Two histories from nothing: param 7 operations, param 8 operations; param 9 is the second's bits or degree.
fn pair<A: Coll + PartialEq<B>, B: Coll<M = A::M> + PartialEq<A>>()
where
    A::M: Same,
{
    let mut u = universe::<A>(param(3) as usize, param(4) as u32, param(5) as u32);
    let (mut a, mut ma) = (A::make(param(2)), A::model());
    run(&mut a, &mut ma, &mut u, param(7));
    let (mut b, mut mb) = (B::make(param(9)), B::model());
    run(&mut b, &mut mb, &mut u, param(8));
    compare(&a, &ma, &b, &mb);
}

/// Versions that share memory: a clone, param 7 operations on one and param 8 on the other.
fn shared<C: Coll>()
where
    C::M: Same,
{
    let mut s = start::<C>();
    let (mut b, mut mb) = (s.c.clone(), s.m.clone());
    run(&mut s.c, &mut s.m, &mut s.u, param(7));
    run(&mut b, &mut mb, &mut s.u, param(8));
    compare(&s.c, &s.m, &b, &mb);
}

macro_rules! pairs {
    ($t:ident [$($pre:ty),*] [$($post:ty),*]) => {
        match param(1) {
            0 => pair::<$t<$($pre,)* RcK $(,$post)*>, $t<$($pre,)* RcK $(,$post)*>>(),
            1 => pair::<$t<$($pre,)* ArcTK $(,$post)*>, $t<$($pre,)* RcK $(,$post)*>>(),
            _ => pair::<$t<$($pre,)* ArcK $(,$post)*>, $t<$($pre,)* ArcTK $(,$post)*>>(),
        }
    };
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p15_pair() {
    match param(0) {
        0 => pairs!(Vector[K][]),
        1 => pairs!(List[K][]),
        2 => pairs!(Queue[K][]),
        3 => pairs!(Stack[K][]),
        4 => pairs!(HashTrieMap[K, K][BH]),
        5 => pairs!(RedBlackTreeMap[K, K][]),
        6 => pairs!(HashTrieSet[K][BH]),
        _ => pairs!(RedBlackTreeSet[K][]),
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p15_shared() {
    with_coll!(param(0), param(1), shared());
}

entries!(p15_pair, p15_shared);
