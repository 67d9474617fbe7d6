//! What a collection holds on to depends on what it contains, not on how it came about.
use crate::coll::*;
use crate::common::*;
use crate::kind::*;
use crate::r#gen::*;
use crate::sym::*;
use rpds::*;

/// Blocks a collection may hold beyond those of a fresh one with the same contents.
const SLACK: u64 = 2;

/// A fresh collection of these contents; its blocks are counted.
fn fresh<C: Coll>(at: &[(u64, u64, u64)], u: &Universe) -> u64 {
    let before = hook().blocks;
    // the hasher of the other one
    g().seeds = 0;
    let mut c = C::make(param(2));
    for e in at {
        c.run_mut(Op { kind: 0, arg: if C::KEYED { e.0 } else { 0 }, mark: 900 }, u);
    }
    let n = hook().blocks - before;
    drop(c);
    check(hook().blocks == before, 130);
    n
}

/// A starting state, any history of param(7) operations while some earlier versions live, and then either that version, or
/// what is left after all but at most one element has been removed from it.
fn storage<C: Coll>() {
    let mut s = start::<C>();
    let mut old: Vec<C> = Vec::new();
    for i in 0..param(7) {
        let kind = choice(C::NOPS);
        let arg = C::pick(&s.m, kind, &mut s.u);
        let o = Op { kind, arg, mark: 100 + 10 * i };
        match choice(3) {
            0 => {
                s.c.run_mut(o, &s.u);
            }
            1 => {
                old.push(s.c.clone());
                s.c.run_mut(o, &s.u);
            }
            _ => match s.c.run_pers(o, &s.u) {
                Some(Some(d)) => old.push(std::mem::replace(&mut s.c, d)),
                Some(None) => {}
                None => {
                    s.c.run_mut(o, &s.u);
                }
            },
        }
    }
    if choice(2) == 0 {
        drop(std::mem::take(&mut old));
    }
    // take out nothing, all but one, or all
    let keep = [usize::MAX, 1, 0][choice(3) as usize];
    if keep <= 1 {
        if C::KEYED {
            let mut left: Vec<u64> = s.c.contents().iter().map(|e| e.0).collect();
            if keep == 1 && !left.is_empty() {
                let stays = choice(if left.len() > 4 { 4 } else { left.len() as u64 }) as usize;
                left.swap_remove(stays);
            }
            if choice(2) == 0 {
                left.reverse();
            }
            for k in left {
                s.c.run_mut(Op { kind: 1, arg: k, mark: 0 }, &s.u);
            }
        } else {
            while s.c.len() > keep {
                s.c.run_mut(Op { kind: 1, arg: 0, mark: 0 }, &s.u);
            }
        }
        check(s.c.len() <= keep, 131);
    }
    drop(old);
    let have = hook().blocks;
    let c = s.c.contents();
    check(have <= fresh::<C>(&c, &s.u) + SLACK, 132);
    drop(s.c);
    check(hook().blocks == 0 && hook().handles == 0, 133);
    cover(1);
    observe(c.len() as u64);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p31_storage() {
    match param(0) {
        0 => storage::<Vector<K, TK>>(),
        1 => storage::<List<K, TK>>(),
        2 => storage::<Queue<K, TK>>(),
        3 => storage::<Stack<K, TK>>(),
        4 => storage::<HashTrieMap<K, K, TK, BH>>(),
        5 => storage::<RedBlackTreeMap<K, K, TK>>(),
        6 => storage::<HashTrieSet<K, TK, BH>>(),
        _ => storage::<RedBlackTreeSet<K, TK>>(),
    }
}

entries!(p31_storage);
