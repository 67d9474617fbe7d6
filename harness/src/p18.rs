//! Structural sharing.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;
use archery::*;
use rpds::*;

/// Nodes an update may allocate, given the number of elements and cfg (bits or degree).
trait Depth: Coll {
    fn limit(n: u64, cfg: u64, op: u64) -> Option<u64>;
    /// Elements that the operation may copy: what is changed in place while others hold it.
    fn copies(_op: u64) -> u64 {
        0
    }
}

fn log2_up(n: u64) -> u64 {
    64 - n.leading_zeros() as u64
}

/// A few allocations (a pointer block, a vector, an element) for each level, and a few more.
fn levels(d: u64) -> u64 {
    3 * (d + 2) + 4
}

impl<P: SharedPointerKind> Depth for Vector<K, P> {
    fn limit(n: u64, cfg: u64, op: u64) -> Option<u64> {
        let bits = if cfg == 0 { 5 } else { cfg };
        (op < 4).then_some(levels(log2_up(n).div_ceil(bits)))
    }
    fn copies(op: u64) -> u64 {
        (op == 3) as u64
    }
}
impl<P: SharedPointerKind> Depth for List<K, P> {
    fn limit(_: u64, _: u64, op: u64) -> Option<u64> {
        (op < 2).then_some(6)
    }
}
impl<P: SharedPointerKind> Depth for Stack<K, P> {
    fn limit(_: u64, _: u64, _: u64) -> Option<u64> {
        Some(6)
    }
}
impl<P: SharedPointerKind> Depth for Queue<K, P> {
    fn limit(_: u64, _: u64, op: u64) -> Option<u64> {
        (op == 0).then_some(6)
    }
}
fn trie(cfg: u64) -> u64 {
    let bits = if cfg == 0 { 6 } else { log2_up(cfg) - 1 };
    levels(64u64.div_ceil(bits) + 1)
}
impl<P: SharedPointerKind> Depth for HashTrieMap<K, K, P, BH> {
    fn limit(_: u64, cfg: u64, op: u64) -> Option<u64> {
        (op < 3).then_some(trie(cfg))
    }
    fn copies(op: u64) -> u64 {
        if op == 2 { 2 } else { 0 }
    }
}
impl<P: SharedPointerKind> Depth for HashTrieSet<K, P, BH> {
    fn limit(_: u64, cfg: u64, _: u64) -> Option<u64> {
        Some(trie(cfg))
    }
}
impl<P: SharedPointerKind> Depth for RedBlackTreeMap<K, K, P> {
    fn limit(n: u64, _: u64, op: u64) -> Option<u64> {
        (op < 3).then_some(levels(2 * log2_up(n)))
    }
    fn copies(op: u64) -> u64 {
        if op == 2 { 2 } else { 0 }
    }
}
impl<P: SharedPointerKind> Depth for RedBlackTreeSet<K, P> {
    fn limit(n: u64, _: u64, _: u64) -> Option<u64> {
        Some(levels(2 * log2_up(n)))
    }
}

/// Every element that both hold is one object.
fn one_object<C: Coll>(a: &C, b: &C) {
    let (ca, aa, va) = (a.contents(), a.addrs(), a.vaddrs());
    let (cb, ab, vb) = (b.contents(), b.addrs(), b.vaddrs());
    let mut at = vec![usize::MAX; MAXI];
    for (i, e) in ca.iter().enumerate() {
        at[e.0 as usize] = i;
    }
    for (j, e) in cb.iter().enumerate() {
        let i = at[e.0 as usize];
        if i == usize::MAX || ca[i].1 != e.1 {
            continue;
        }
        if !va.is_empty() && ca[i].2 != e.2 {
            // changed in place: the entry is a new one
            continue;
        }
        check(aa[i] == ab[j], 111);
        if !va.is_empty() {
            check(va[i] == vb[j], 112);
        }
    }
}

/// param 3: symbolic keys; 7: elements put in first; 8: updates; 9: pattern of the filling.
fn share<C: Depth>() {
    let (cfg, n) = (param(2), param(7));
    let mut u = Universe { keys: Vec::new(), used: n as usize };
    for i in 0..n {
        // places far apart in the order; hashes all over
        u.keys.push((16 * i + 8, (i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15)));
    }
    for _ in 0..param(3) {
        if C::ORDERED {
            u.add_ordered(12);
        } else if C::HASHED {
            u.keys.push((0, any_hash(param(4) as u32, param(5) as u32)));
        }
    }
    let mut c = C::make(cfg);
    let mut m = C::model();
    for i in 0..n {
        let at = match param(9) {
            0 => i,
            1 => n - 1 - i,
            _ => i * 7 % n,
        };
        let o = Op { kind: 0, arg: at, mark: 1000 + i };
        C::run_model(&mut m, o);
        c.run_mut(o, &u);
    }
    for i in 0..param(8) {
        let before = allocs();
        let mut d = c.clone();
        check(allocs() == before, 110);
        let kind = choice(C::NOPS);
        let arg = if C::KEYED {
            // one of a few old keys, or any new one
            let k = choice(4 + param(3));
            if k < 4 { n * k / 4 } else { n + k - 4 }
        } else if kind == 2 || kind == 3 {
            match choice(4) {
                0 => 0,
                1 => n / 2,
                2 => n - 1,
                _ => n,
            }
        } else {
            0
        };
        let o = Op { kind, arg, mark: 500 + 10 * i };
        let Some(limit) = C::limit(n + 8, cfg, kind) else {
            cover(2);
            return;
        };
        // ours for the argument
        let clones = g().clones;
        let before = allocs();
        let mut copies = 0;
        if choice(2) == 0 {
            match c.run_pers(o, &u) {
                Some(Some(x)) => d = x,
                Some(None) => {}
                None => {
                    cover(2);
                    return;
                }
            }
        } else {
            if d.run_mut(o, &u) == 1 {
                copies = C::copies(kind);
            }
        }
        check(allocs() - before <= limit, 113);
        check(g().clones - clones <= copies, 114);
        one_object(&c, &d);
        c = d;
    }
    cover(1);
    observe(C::len(&c) as u64);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p18_share() {
    with_coll!(param(0), param(1), share());
}

entries!(p18_share);
