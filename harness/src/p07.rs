//! Both-ended iteration over a RedBlackTreeMap.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;
use archery::*;
use rpds::*;

/// param 7: operations after the prefix; 8: which iterator; 9: 1 adds nth, nth_back and consuming adaptors.
fn iters<P: SharedPointerKind>() {
    let mut s = start::<RedBlackTreeMap<K, K, P>>();
    for i in 0..param(7) {
        step(&mut s.c, &mut s.m, &mut s.u, 100 + 10 * i);
    }
    let want = sorted(&s.m, &s.u);
    let jumps = param(9) == 1;
    match param(8) {
        0 => both_ends(s.c.iter(), &want, |(k, v)| (k.idx, k.tag, v.tag), jumps),
        1 => {
            let want: Assoc = want.iter().map(|e| (e.0, e.1, 0)).collect();
            both_ends(s.c.keys(), &want, |k| (k.idx, k.tag, 0), jumps);
        }
        2 => {
            let want: Assoc = want.iter().map(|e| (0, 0, e.2)).collect();
            both_ends(s.c.values(), &want, |v| (0, 0, v.tag), jumps);
        }
        _ => both_ends((&s.c).into_iter(), &want, |(k, v)| (k.idx, k.tag, v.tag), jumps),
    }
    cover(1);
    observe(want.len() as u64);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p07_iter() {
    match param(1) {
        0 => iters::<RcK>(),
        _ => iters::<ArcTK>(),
    }
}

entries!(p07_iter);
