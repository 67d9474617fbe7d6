//! Versions used by several threads at once.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::kind::*;
use crate::sched::*;
use crate::sym::*;
use rpds::*;

struct Part<C: Coll> {
    c: Option<C>,
    m: C::M,
    u: Universe,
    ops: Vec<(Op, u64)>,
}

/// Every thread has a version of its own (a clone, or the result of one operation on the shared state), does its
/// operations, looks, and drops it.  param 1: threads, 2: bits or degree, 7: operations per thread, 8: preemptions,
/// 9: 1 when a further handle stays with the main thread.
fn threads<C: Coll>() {
    let s = start::<C>();
    let n = param(1);
    let held = if param(9) == 1 { Some((s.c.clone(), s.m.clone())) } else { None };
    let mut parts: Vec<Part<C>> = Vec::new();
    for t in 0..n {
        let mut u = Universe { keys: s.u.keys.clone(), used: s.u.used };
        let mut ops = Vec::new();
        let mut m = s.m.clone();
        for i in 0..param(7) {
            let kind = choice(C::NOPS);
            let arg = C::pick(&m, kind, &mut u);
            let o = Op { kind, arg, mark: 100 + 100 * t + 10 * i };
            C::run_model(&mut m, o);
            ops.push((o, choice(2)));
        }
        parts.push(Part { c: Some(s.c.clone()), m: s.m.clone(), u, ops });
    }
    let (c, m, u) = (s.c, s.m, s.u);
    drop(c);
    let base = parts.as_mut_ptr() as usize;
    concurrently(n, param(8), &|t| {
        let p = unsafe { &mut *(base as *mut Part<C>).add(t as usize) };
        let mut c = p.c.take().unwrap();
        for (o, how) in &p.ops {
            if *how == 0 {
                let want = C::run_model(&mut p.m, *o);
                let got = c.run_mut(*o, &p.u);
                check(got == 2 || got == want, 260);
            } else if let Some(Some(d)) = c.run_pers(*o, &p.u) {
                C::run_model(&mut p.m, *o);
                c = d;
            }
        }
        c.verify(&p.m, &p.u);
        drop(c);
    });
    drop(parts);
    if let Some((c, hm)) = held {
        c.verify(&hm, &u);
    }
    drop((m, u));
    cover(1);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p29_threads() {
    match param(0) {
        0 => threads::<Vector<K, TK>>(),
        1 => threads::<List<K, TK>>(),
        2 => threads::<Queue<K, TK>>(),
        3 => threads::<Stack<K, TK>>(),
        4 => threads::<HashTrieMap<K, K, TK, BH>>(),
        5 => threads::<RedBlackTreeMap<K, K, TK>>(),
        6 => threads::<HashTrieSet<K, TK, BH>>(),
        _ => threads::<RedBlackTreeSet<K, TK>>(),
    }
    check(g().alive() == 0, 261);
    check(hook().handles == 0 && hook().blocks == 0, 262);
}

entries!(p29_threads);
