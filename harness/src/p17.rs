//! Comparisons made by the red-black trees.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;
use rpds::*;

/// c <= 2 log2(n + 1)
fn lookup_ok(c: u64, n: u64) -> bool {
    c < 60 && (1u64 << c) <= (n + 1) * (n + 1)
}

/// What an insert or remove may need on top.
const MORE: u64 = 4;

fn update_ok(c: u64, n: u64) -> bool {
    c <= MORE || lookup_ok(c - MORE, n)
}

fn counted<T>(f: impl FnOnce() -> T) -> u64 {
    // comparing is comparing, by Ord or by PartialEq
    (g().cmps, g().eqs) = (0, 0);
    let r = f();
    let c = g().cmps.max(g().eqs);
    drop(r);
    c
}

/// Any key: one there is, or one with any place in the order.
fn any_key(u: &mut Universe, bits: u32) -> K {
    let x = any(bits);
    // a key equal to one that exists is that key
    for (i, (o, _)) in u.keys.iter().enumerate() {
        if *o == x {
            return u.key(i, 7);
        }
    }
    u.keys.push((x, 0));
    u.key(u.keys.len() - 1, 7)
}

fn costs(m: &mut RedBlackTreeMap<K, K>, u: &mut Universe, bits: u32, again: bool) {
    let n = m.size() as u64;
    let q = any_key(u, bits);
    check(lookup_ok(counted(|| m.get(&q).is_some()), n), 100);
    check(lookup_ok(counted(|| m.contains_key(&q)), n), 101);
    check(lookup_ok(counted(|| m.get_key_value(&q).is_some()), n), 102);
    let mut c = m.clone();
    check(lookup_ok(counted(|| c.get_mut(&q).is_some()), n), 103);
    match choice(2) {
        0 => {
            check(update_ok(counted(|| m.remove_mut(&q)), n), 104);
        }
        _ => {
            let v = K::e(1);
            check(update_ok(counted(|| m.insert_mut(q, v)), n), 105);
        }
    }
    let n = m.size() as u64;
    if again {
        let q = any_key(u, bits);
        check(lookup_ok(counted(|| m.get(&q).is_some()), n), 106);
    }
    cover(1);
    observe(n);
}

fn map_shape() {
    let mut s = start::<RedBlackTreeMap<K, K, archery::RcK>>();
    costs(&mut s.c, &mut s.u, param(7) as u32, true);
}

fn set_shape() {
    let mut s = start::<RedBlackTreeSet<K, archery::RcK>>();
    let n = s.c.size() as u64;
    let q = any_key(&mut s.u, param(7) as u32);
    check(lookup_ok(counted(|| s.c.get(&q).is_some()), n), 100);
    check(lookup_ok(counted(|| s.c.contains(&q)), n), 101);
    if choice(2) == 0 {
        check(update_ok(counted(|| s.c.remove_mut(&q)), n), 104);
    } else {
        check(update_ok(counted(|| s.c.insert_mut(q)), n), 105);
    }
    cover(1);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p17_map() {
    map_shape()
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p17_set() {
    set_shape()
}

/// A long regular history: pattern param 0, size param 1; then any lookup and update.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p17_long() {
    let n = param(1) as usize;
    let mut m: RedBlackTreeMap<K, K> = RedBlackTreeMap::new();
    let mut u = Universe { keys: Vec::new(), used: 0 };
    let mut worst_i = true;
    let mut worst_r = true;
    for i in 0..n {
        u.keys.push((2 * i as u64 + 1, 0));
    }
    let mut put = |m: &mut RedBlackTreeMap<K, K>, i: usize| {
        let k = u.key(i, 1);
        let v = K::e(1);
        let s = m.size() as u64;
        worst_i &= update_ok(counted(|| m.insert_mut(k, v)), s);
    };
    let mut del = |m: &mut RedBlackTreeMap<K, K>, i: usize| {
        let k = u.key(i, 1);
        let s = m.size() as u64;
        worst_r &= update_ok(counted(|| m.remove_mut(&k)), s);
    };
    match param(0) {
        // ascending, descending, from both ends, from the middle out
        0 => (0..n).for_each(|i| put(&mut m, i)),
        1 => (0..n).rev().for_each(|i| put(&mut m, i)),
        2 => (0..n).for_each(|i| put(&mut m, if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 })),
        3 => (0..n).for_each(|i| put(&mut m, if i % 2 == 0 { n / 2 + i / 2 } else { n / 2 - 1 - i / 2 })),
        // a window that slides up, or down
        4 => {
            let w = param(2) as usize;
            for i in 0..n {
                put(&mut m, i);
                if i >= w {
                    del(&mut m, i - w);
                }
            }
        }
        5 => {
            let w = param(2) as usize;
            for i in (0..n).rev() {
                put(&mut m, i);
                if i + w < n {
                    del(&mut m, i + w);
                }
            }
        }
        // fill, then thin out: ascending, descending, every k-th stays
        6 => {
            let k = param(2) as usize;
            (0..n).for_each(|i| put(&mut m, i));
            (0..n).filter(|i| i % k != 0).for_each(|i| del(&mut m, i));
        }
        7 => {
            let k = param(2) as usize;
            (0..n).rev().for_each(|i| put(&mut m, i));
            (0..n).rev().filter(|i| i % k != 0).for_each(|i| del(&mut m, i));
        }
        // fill scattered, empty the low half from the top, fill again
        8 => {
            let k = param(2) as usize;
            (0..n).for_each(|i| put(&mut m, i * k % n));
            (0..n / 2).rev().for_each(|i| del(&mut m, i));
            (0..n / 4).for_each(|i| put(&mut m, i));
            (n / 2..n).step_by(3).for_each(|i| del(&mut m, i));
        }
        // remove the root-ish middle again and again
        _ => {
            (0..n).for_each(|i| put(&mut m, i));
            for i in 0..n / 3 {
                del(&mut m, n / 2 + i);
                if i < n / 3 {
                    del(&mut m, n / 2 - 1 - i);
                }
            }
        }
    }
    check(worst_i, 107);
    check(worst_r, 108);
    costs(&mut m, &mut u, 12, false);
}

entries!(p17_map, p17_set, p17_long);
