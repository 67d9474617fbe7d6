//! Vector against a growable array.
use crate::coll::*;
use crate::common::*;
use crate::sym::*;
use archery::*;
use rpds::Vector;

fn grow<P: SharedPointerKind>(bits: u64, n: u64) -> (Vector<K, P>, Vec<(u64, u64)>) {
    let mut v = Vector::<K, P>::make(bits);
    let mut m = Vec::new();
    for i in 0..n {
        v.push_back_mut(K::e(i));
        m.push((i, i));
    }
    (v, m)
}

/// params: pointer kind, bits (0: default), length before, operations, 1 to share the tree with a clone
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p01_hist() {
    fn run<P: SharedPointerKind>() {
        let (bits, n, ops, share) = (param(1), param(2), param(3), param(4));
        let (mut v, mut m) = grow::<P>(bits, n);
        let mut u = universe::<Vector<K, P>>(0, 0, 0);
        let keep = if share == 1 { Some((v.clone(), m.clone())) } else { None };
        for i in 0..ops {
            step(&mut v, &mut m, &mut u, 1000 + 10 * i);
            v.verify(&m, &u);
        }
        if let Some((v, m)) = keep {
            v.verify(&m, &u);
        }
        observe(v.len() as u64);
        cover(1);
    }
    match param(0) {
        0 => run::<RcK>(),
        1 => run::<ArcTK>(),
        _ => run::<ArcK>(),
    }
}

/// Ends only: longer histories of push, drop, set at either end and growth by two, from any length.
/// params: pointer kind, bits, length before, operations
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p01_ends() {
    let (bits, n, ops) = (param(1), param(2), param(3));
    let (mut v, mut m) = grow::<RcK>(bits, n);
    let mut u = universe::<Vector<K, RcK>>(0, 0, 0);
    let mut kept = Vec::new();
    for i in 0..ops {
        let mark = 10000 + 10 * i;
        let last = (m.len() as u64).saturating_sub(1);
        let o = match choice(6) {
            0 => Op { kind: 0, arg: 0, mark },
            1 => Op { kind: 1, arg: 0, mark },
            2 => Op { kind: 2, arg: last, mark },
            3 => Op { kind: 3, arg: 0, mark },
            4 => Op { kind: 4, arg: 0, mark },
            _ => {
                kept.push((v.clone(), m.clone()));
                continue;
            }
        };
        let want = Vector::<K, RcK>::run_model(&mut m, o);
        let got = v.run_mut(o, &u);
        check(got == 2 || got == want, 10);
    }
    u.used = 0;
    v.verify(&m, &u);
    for (v, m) in &kept {
        v.verify(m, &u);
    }
    observe(v.len() as u64);
    cover(1);
}

/// Reads and one write at a fully symbolic index.
/// params: bits, length
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p01_index() {
    let (bits, n) = (param(0), param(1));
    let mut v: Vector<u64, RcK> =
        if bits == 0 { Vector::new_with_ptr_kind() } else { Vector::new_with_bits(bits as u8) };
    for i in 0..n {
        v.push_back_mut(7 * i + 1);
    }
    let i = any(64) as usize;
    match choice(5) {
        0 => {
            let want = if (i as u64) < n { Some(7 * i as u64 + 1) } else { None };
            check(v.get(i).copied() == want, 1);
        }
        1 => {
            let p = attempt(|| v[i]);
            check(p.is_some() == ((i as u64) < n), 2);
            if let Some(x) = p {
                check(x == 7 * i as u64 + 1, 3);
            }
        }
        2 => {
            let r = v.set_mut(i, 5);
            check(r == ((i as u64) < n), 4);
            check(v.len() as u64 == n, 5);
            let j = any(64) as usize;
            assume((j as u64) < n);
            check(v.get(j).copied() == Some(if j == i { 5 } else { 7 * j as u64 + 1 }), 6);
        }
        3 => {
            let w = v.set(i, 5);
            check(w.is_some() == ((i as u64) < n), 7);
            if let Some(w) = w {
                check(w.len() as u64 == n && w[i] == 5, 8);
                check(v[i] == 7 * i as u64 + 1, 9);
            }
        }
        _ => {
            let ok = match v.get_mut(i) {
                Some(x) => {
                    check(*x == 7 * i as u64 + 1, 10);
                    *x = 5;
                    true
                }
                None => false,
            };
            check(ok == ((i as u64) < n), 11);
            if ok {
                check(v.get(i) == Some(&5), 12);
            } else {
                check(panics(|| v[i] = 3), 13);
            }
        }
    }
    cover(1);
    observe(v.len() as u64);
}

/// Long vectors: symbolic index near the places where the tree changes height, after symbolic growth or shrinkage.
/// params: bits, length, operations
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p01_long() {
    let (bits, n, ops) = (param(0), param(1), param(2));
    let mut v: Vector<u64, RcK> =
        if bits == 0 { Vector::new_with_ptr_kind() } else { Vector::new_with_bits(bits as u8) };
    for i in 0..n {
        v.push_back_mut(7 * i + 1);
    }
    let mut len = n;
    let old = v.clone();
    for _ in 0..ops {
        if choice(2) == 0 {
            v.push_back_mut(7 * len + 1);
            len += 1;
        } else {
            check(v.drop_last_mut() == (len > 0), 1);
            len = len.saturating_sub(1);
        }
    }
    check(v.len() as u64 == len, 2);
    let degree = 1u64 << if bits == 0 { 5 } else { bits };
    let at = match choice(4) {
        0 => 0,
        1 => degree,
        2 => len - 1 - (len - 1) % degree,
        _ => (len / degree / 2) * degree,
    };
    let i = at.wrapping_sub(2).wrapping_add(any(2));
    let want = if i < len { Some(7 * i + 1) } else { None };
    check(v.get(i as usize).copied() == want, 3);
    check(v.last().copied() == Some(7 * (len - 1) + 1), 4);
    check(v.first().copied() == Some(1), 5);
    if choice(2) == 1 && i < len {
        check(v.set_mut(i as usize, 3), 6);
        check(v[i as usize] == 3, 7);
        check(i >= n || old[i as usize] == 7 * i + 1, 8);
        // around the write nothing changes
        check(i == 0 || v[i as usize - 1] == 7 * (i - 1) + 1, 9);
        check(i + 1 >= len || v[i as usize + 1] == 7 * (i + 1) + 1, 10);
    }
    check(old.len() as u64 == n && old.last().copied() == Some(7 * (n - 1) + 1), 11);
    observe(i);
    cover(1);
}

/// Every branching factor the constructor accepts works. The factor is symbolic.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p01_bits() {
    let bits = concrete(any(8)) as u8;
    let Some(mut v) = attempt(|| Vector::<u64, RcK>::new_with_bits(bits)) else {
        cover(2);
        return;
    };
    cover(1);
    let n = param(0);
    for i in 0..n {
        v.push_back_mut(10 + i);
        check(v.len() as u64 == i + 1, 1);
    }
    for i in 0..n {
        check(v.get(i as usize) == Some(&(10 + i)), 2);
    }
    check(v.get(n as usize).is_none(), 3);
    check(v.set_mut(0, 1) && v[0] == 1, 4);
    check(v.iter().count() as u64 == n, 5);
    for i in 0..n {
        check(v.drop_last_mut(), 6);
        check(v.len() as u64 == n - 1 - i, 7);
    }
    check(!v.drop_last_mut() && v.is_empty(), 8);
    observe(bits as u64);
}

entries!(p01_hist, p01_ends, p01_index, p01_long, p01_bits);
