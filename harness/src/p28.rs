//! Pointer kinds.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::kind::*;
use crate::sym::*;
use archery::*;
use rpds::*;

/// One history on collections of two kinds, with everything that is said and the contents compared, order included.
/// param 7: operations; 8: hold a clone of each version.
fn alike<A: Coll + PartialEq<B>, B: Coll<M = A::M> + PartialEq<A>>() {
    let mut u = start_universe::<A>();
    let mut a = A::make(param(2));
    g().seeds = 0;
    let mut b = B::make(param(2));
    let mut model = A::model();
    run_prefix::<A>(|o| {
        A::run_model(&mut model, o);
        check(a.run_mut(o, &u) == b.run_mut(o, &u), 250);
    });
    let mut held = Vec::new();
    for i in 0..param(7) {
        if param(8) == 1 {
            held.push((a.clone(), b.clone(), model.clone()));
        }
        let kind = choice(A::NOPS);
        let arg = A::pick(&model, kind, &mut u);
        let o = Op { kind, arg, mark: 100 + 10 * i };
        if choice(2) == 0 {
            A::run_model(&mut model, o);
            check(a.run_mut(o, &u) == b.run_mut(o, &u), 251);
        } else {
            match (a.run_pers(o, &u), b.run_pers(o, &u)) {
                (Some(Some(x)), Some(Some(y))) => {
                    A::run_model(&mut model, o);
                    a = x;
                    b = y;
                }
                (x, y) => check(x.is_none() == y.is_none() && x.flatten().is_none() && y.flatten().is_none(), 252),
            }
        }
    }
    a.verify(&model, &u);
    b.verify(&model, &u);
    check(a.contents() == b.contents(), 253);
    check(a == b && b == a, 254);
    for (x, y, m) in &held {
        x.verify(m, &u);
        y.verify(m, &u);
        check(x == y, 255);
        check((*x == b) == (*x == a), 256);
    }
    cover(1);
}

macro_rules! pair {
    ($A:ty, $B:ty) => {
        match param(0) {
            0 => alike::<Vector<K, $A>, Vector<K, $B>>(),
            1 => alike::<List<K, $A>, List<K, $B>>(),
            2 => alike::<Queue<K, $A>, Queue<K, $B>>(),
            3 => alike::<Stack<K, $A>, Stack<K, $B>>(),
            4 => alike::<HashTrieMap<K, K, $A, BH>, HashTrieMap<K, K, $B, BH>>(),
            5 => alike::<RedBlackTreeMap<K, K, $A>, RedBlackTreeMap<K, K, $B>>(),
            6 => alike::<HashTrieSet<K, $A, BH>, HashTrieSet<K, $B, BH>>(),
            _ => alike::<RedBlackTreeSet<K, $A>, RedBlackTreeSet<K, $B>>(),
        }
    };
}

/// param 1: which two kinds.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p28_alike() {
    match param(1) {
        0 => pair!(RcK, TK),
        1 => pair!(ArcTK, TK),
        _ => pair!(ArcK, RcK),
    }
    check(hook().handles == 0 && hook().blocks == 0, 257);
    check(g().alive() == 0, 258);
}

/// One operation on everything that every way of making the collection gave: all are told the same, and equal.
macro_rules! twins {
    ($first:expr $(, $other:expr)* $(,)?; |$c:ident| $seen:expr) => {{
        let mut a = $first;
        let seen = { let $c = &mut a; $seen };
        $({
            let mut b = $other;
            check({ let $c = &mut b; $seen } == seen, 260);
            check(a == b && b == a, 261);
        })*
    }};
}

/// Every constructor, for every kind there is one for.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p28_make() {
    let (x, y) = (any(8), any(8));
    match param(0) {
        0 => twins!(Vector::<u64>::new(), VectorSync::<u64>::new_sync(), Vector::<u64, RcK>::default(), Vector::<u64, ArcTK>::default(),
                Vector::<u64, TK>::new_with_ptr_kind(), Vector::<u64, ArcK>::new_with_bits(1), Vector::<u64, TK>::default();
                |c| { for i in 0..40 { c.push_back_mut(x + i); } (c.len(), c.get(39).copied(), c.drop_last_mut(), c.set_mut(3, y), c.last().copied()) }),
        1 => twins!(List::<u64>::new(), ListSync::<u64>::new_sync(), List::<u64, RcK>::default(), List::<u64, ArcTK>::default(),
                List::<u64, TK>::new_with_ptr_kind(), List::<u64, TK>::default();
                |c| { c.push_front_mut(x); c.push_front_mut(y); (c.len(), c.first().copied(), c.last().copied()) }),
        2 => twins!(Queue::<u64>::new(), QueueSync::<u64>::new_sync(), Queue::<u64, RcK>::default(), Queue::<u64, ArcTK>::default(),
                Queue::<u64, TK>::new_with_ptr_kind(), Queue::<u64, TK>::default();
                |c| { c.enqueue_mut(x); c.enqueue_mut(y); (c.len(), c.peek().copied()) }),
        3 => twins!(Stack::<u64>::new(), StackSync::<u64>::new_sync(), Stack::<u64, RcK>::default(), Stack::<u64, ArcTK>::default(),
                Stack::<u64, TK>::new_with_ptr_kind(), Stack::<u64, TK>::default();
                |c| { c.push_mut(x); c.push_mut(y); (c.size(), c.peek().copied()) }),
        // the standard hasher's keys are concrete
        4 => twins!(HashTrieMap::<u64, u64>::new(), HashTrieMapSync::<u64, u64>::new_sync(), HashTrieMap::<u64, u64, RcK>::default(),
                HashTrieMap::<u64, u64, ArcTK>::default(), HashTrieMap::<u64, u64, TK>::default(), HashTrieMap::<u64, u64>::new_with_degree(8),
                HashTrieMapSync::<u64, u64>::new_sync_with_degree(8);
                |c| { c.insert_mut(1, x); c.insert_mut(2, y); (c.size(), c.get(&1).copied(), c.get(&3).copied(), c.remove_mut(&9)) }),
        5 => twins!(RedBlackTreeMap::<u64, u64>::new(), RedBlackTreeMapSync::<u64, u64>::new_sync(), RedBlackTreeMap::<u64, u64, RcK>::default(),
                RedBlackTreeMap::<u64, u64, ArcTK>::default(), RedBlackTreeMap::<u64, u64, TK>::new_with_ptr_kind(), RedBlackTreeMap::<u64, u64, TK>::default();
                |c| { c.insert_mut(x, x); c.insert_mut(y, y + 1); (c.size(), c.get(&x).copied(), c.get(&y).copied(), c.first().map(|e| *e.0)) }),
        6 => twins!(HashTrieSet::<u64>::new(), HashTrieSetSync::<u64>::new_sync(), HashTrieSet::<u64, RcK>::default(),
                HashTrieSet::<u64, ArcTK>::default(), HashTrieSet::<u64, TK>::default(), HashTrieSet::<u64>::new_with_degree(8),
                HashTrieSetSync::<u64>::new_with_degree_sync(8);
                |c| { c.insert_mut(1); c.insert_mut(2); (c.size(), c.contains(&1), c.contains(&3), c.remove_mut(&9)) }),
        8 => twins!(HashTrieMap::<u64, u64, TK, BH>::default(), HashTrieMap::<u64, u64, ArcK, BH>::new_with_hasher_and_ptr_kind(BH::default()),
                HashTrieMap::<u64, u64, TK, BH>::new_with_hasher_and_degree_and_ptr_kind(BH::default(), 2);
                |c| { c.insert_mut(x, y); c.insert_mut(y, x); (c.size(), c.get(&x).copied(), c.get(&3).copied(), c.remove_mut(&9)) }),
        7 => twins!(HashTrieSet::<u64, TK, BH>::default(), HashTrieSet::<u64, ArcK, BH>::new_with_hasher_with_ptr_kind(BH::default()),
                HashTrieSet::<u64, TK, BH>::new_with_hasher_and_degree_and_ptr_kind(BH::default(), 2);
                |c| { c.insert_mut(x); c.insert_mut(y); (c.size(), c.contains(&x), c.contains(&3), c.remove_mut(&9)) }),
        _ => twins!(RedBlackTreeSet::<u64>::new(), RedBlackTreeSetSync::<u64>::new_sync(), RedBlackTreeSet::<u64, RcK>::default(),
                RedBlackTreeSet::<u64, ArcTK>::default(), RedBlackTreeSet::<u64, TK>::new_with_ptr_kind(), RedBlackTreeSet::<u64, TK>::default();
                |c| { c.insert_mut(x); c.insert_mut(y); (c.size(), c.contains(&x), c.first().copied(), c.last().copied()) }),
    }
    cover(2);
}

/// Every branching factor or degree: refused for every kind or for none.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p28_degree() {
    let d = any(8) as u8;
    fn ok(f: impl FnOnce()) -> bool {
        !panics(f)
    }
    if param(0) == 0 {
        let a = ok(|| drop(Vector::<u64, RcK>::new_with_bits(d)));
        check(ok(|| drop(Vector::<u64, ArcTK>::new_with_bits(d))) == a, 262);
        check(ok(|| drop(Vector::<u64, TK>::new_with_bits(d))) == a, 262);
    } else {
        let a = ok(|| drop(HashTrieMap::<u64, u64>::new_with_degree(d)));
        check(ok(|| drop(HashTrieMapSync::<u64, u64>::new_sync_with_degree(d))) == a, 263);
        check(ok(|| drop(HashTrieMap::<u64, u64, TK, BH>::new_with_hasher_and_degree_and_ptr_kind(BH::default(), d))) == a, 263);
        check(ok(|| drop(HashTrieSet::<u64>::new_with_degree(d))) == a, 263);
        check(ok(|| drop(HashTrieSetSync::<u64>::new_with_degree_sync(d))) == a, 263);
        check(ok(|| drop(HashTrieSet::<u64, ArcK, BH>::new_with_hasher_and_degree_and_ptr_kind(BH::default(), d))) == a, 263);
    }
    cover(3);
}

entries!(p28_alike, p28_make, p28_degree);
