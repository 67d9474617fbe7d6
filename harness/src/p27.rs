//! Cost of hash lookups in calls to user code.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;
use archery::*;
use rpds::*;

/// Levels of a trie of this degree.
fn height(degree: u64) -> u64 {
    let bits = if degree == 0 { 6 } else { 63 - degree.leading_zeros() as u64 };
    64u64.div_ceil(bits) + 1
}

fn counts<C: Coll<M = Assoc> + Look2>() {
    let mut s = start::<C>();
    g().watch_eq = true;
    for i in 0..param(7) {
        let kind = choice(C::NOPS + 1);
        let arg = s.u.pick() as u64;
        // other keys in the collection with the same hash: only they may be compared, each a few times at most
        let h = s.u.keys[arg as usize].1;
        let mut same = 0;
        for e in &s.m {
            if s.u.keys[e.0 as usize].1 == h {
                same += 1;
            }
        }
        let (eqs, hashes, bad) = (g().eqs, g().hashes, g().eqs_hash_differs);
        let o = Op { kind, arg, mark: 100 + 10 * i };
        let mut asked = 1;
        if kind == C::NOPS {
            asked = s.c.look(&s.u.key(arg as usize, 0));
            check(mfind(&s.m, arg).is_some() == (asked > 100), 240);
            asked %= 100;
        } else if choice(2) == 0 {
            C::run_model(&mut s.m, o);
            s.c.run_mut(o, &s.u);
        } else if let Some(Some(c)) = s.c.run_pers(o, &s.u) {
            C::run_model(&mut s.m, o);
            s.c = c;
        } else {
            asked = 0;
        }
        check(g().eqs_hash_differs == bad, 241);
        // making room for a key goes down the trie, looking it up does not ask again on the way
        let levels = if kind == 0 { height(param(2)) } else { 0 };
        check(g().eqs - eqs <= asked * (3 + levels) * same, 242);
        check(g().hashes - hashes <= asked * 2, 243);
    }
    let (eqs, hashes) = (g().eqs, g().hashes);
    let n = s.c.contents().len();
    let c = s.c.clone();
    check(Coll::len(&c) == n, 244);
    // neither iterating nor cloning asks for anything
    check(g().eqs == eqs && g().hashes == hashes, 245);
    s.c.verify(&s.m, &s.u);
    cover(1);
}

/// 100 for found, and the number of questions asked.
trait Look2 {
    fn look(&self, k: &K) -> u64;
}
impl<P: SharedPointerKind> Look2 for HashTrieMap<K, K, P, BH> {
    fn look(&self, k: &K) -> u64 {
        let a = self.get(k).is_some();
        check(self.contains_key(k) == a && self.get_key_value(k).is_some() == a, 246);
        3 + if a { 100 } else { 0 }
    }
}
impl<P: SharedPointerKind> Look2 for HashTrieSet<K, P, BH> {
    fn look(&self, k: &K) -> u64 {
        let a = self.get(k).is_some();
        check(self.contains(k) == a, 247);
        2 + if a { 100 } else { 0 }
    }
}

fn which<P: SharedPointerKind>() {
    if param(0) == 4 { counts::<HashTrieMap<K, K, P, BH>>() } else { counts::<HashTrieSet<K, P, BH>>() }
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p27_counts() {
    if param(1) == 0 { which::<RcK>() } else { which::<ArcTK>() }
}

entries!(p27_counts);
