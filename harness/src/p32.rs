//! Keys whose equality, order and hash answer anything.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;
use archery::*;
use rpds::*;

/// What reads there are; whatever they answer, they do answer.
trait Reads: Coll {
    fn reads(&self, o: &Self, q: &K, r: &K);
}
macro_rules! map_reads {
    ($s:ident, $o:ident, $q:ident) => {
        match choice(4) {
            0 => {
                $s.get($q).map(|v| v.touch());
                if let Some((k, v)) = $s.get_key_value($q) {
                    k.touch();
                    v.touch();
                }
            }
            1 => {
                $s.contains_key($q);
                panics(|| $s[$q].touch());
            }
            2 => {
                $s.iter().for_each(|(k, v)| {
                    k.touch();
                    v.touch();
                });
            }
            _ => {
                let _ = $s == $o;
            }
        }
    };
}
macro_rules! set_reads {
    ($s:ident, $o:ident, $q:ident) => {
        match choice(4) {
            0 => {
                $s.get($q).map(|v| v.touch());
            }
            1 => {
                $s.contains($q);
            }
            2 => {
                $s.is_subset($o);
                $s.is_disjoint($o);
            }
            _ => {
                let _ = $s == $o;
                $s.is_superset($o);
            }
        }
    };
}
macro_rules! ordered_reads {
    ($s:ident, $o:ident, $q:ident, $r:ident, $touch:expr) => {
        match choice(3) {
            0 => return,
            1 => {
                $s.cmp($o);
                $s.first().map($touch);
                $s.last().map($touch);
            }
            _ => {
                panics(|| {
                    let mut it = $s.range($q..$r);
                    let mut n = 0;
                    loop {
                        let e = if n % 2 == 0 { it.next() } else { it.next_back() };
                        match e {
                            Some(e) => $touch(e),
                            None => break,
                        };
                        n += 1;
                    }
                });
            }
        }
    };
}
impl<P: SharedPointerKind> Reads for HashTrieMap<K, K, P, BH> {
    fn reads(&self, o: &Self, q: &K, _: &K) {
        map_reads!(self, o, q);
    }
}
impl<P: SharedPointerKind> Reads for HashTrieSet<K, P, BH> {
    fn reads(&self, o: &Self, q: &K, _: &K) {
        set_reads!(self, o, q);
    }
}
impl<P: SharedPointerKind> Reads for RedBlackTreeMap<K, K, P> {
    fn reads(&self, o: &Self, q: &K, r: &K) {
        ordered_reads!(self, o, q, r, |(k, v): (&K, &K)| {
            k.touch();
            v.touch();
        });
        map_reads!(self, o, q);
    }
}
impl<P: SharedPointerKind> Reads for RedBlackTreeSet<K, P> {
    fn reads(&self, o: &Self, q: &K, r: &K) {
        ordered_reads!(self, o, q, r, |k: &K| k.touch());
        set_reads!(self, o, q);
    }
}

/// param 7: answers that are free, or 0 if all answers are the same; 8: updates; 9: 1 for a read instead of the last.
fn wild<C: Reads>() {
    let mut s = start::<C>();
    let held = (s.c.clone(), s.m.clone());
    let mut bad = false;
    let mut made = Vec::new();
    g().wild = match param(7) {
        0 => ALWAYS + choice(2) + 2 * choice(3),
        n => n,
    };
    for i in 0..param(8) {
        let kind = choice(C::NOPS);
        let arg = C::pick(&s.m, kind, &mut s.u);
        let o = Op { kind, arg, mark: 900 + i };
        let (c, u) = (&mut s.c, &s.u);
        if choice(2) == 0 {
            bad |= panics(|| {
                c.run_mut(o, u);
            });
        } else {
            bad |= panics(|| made.extend(c.run_pers(o, u).flatten()));
        }
    }
    if param(9) == 1 {
        let (q, r) = (s.u.key(0, 901), s.u.key(1, 902));
        let w = &held.0;
        bad |= panics(|| s.c.reads(w, &q, &r));
    }
    g().wild = 0;
    for c in made.iter().chain([&s.c]) {
        // what came of it can be walked through
        bad |= panics(|| {
            c.contents();
        });
    }
    held.0.verify(&held.1, &s.u);
    if choice(2) == 0 {
        drop(s.c);
        held.0.verify(&held.1, &s.u);
        made.clear();
        held.0.verify(&held.1, &s.u);
        drop(held);
    } else {
        drop(held);
        drop(made);
        // from here on it may be used like any other, if only it stays safe
        let o = Op { kind: 0, arg: 0, mark: 950 };
        bad |= panics(|| {
            s.c.run_mut(o, &s.u);
        });
        drop(s.c);
    }
    check(bad || g().alive() == 0, 401);
    cover(1);
    observe(bad as u64);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p32_wild() {
    match (param(0), param(1)) {
        (4, 0) => wild::<HashTrieMap<K, K, RcK, BH>>(),
        (4, _) => wild::<HashTrieMap<K, K, ArcTK, BH>>(),
        (5, 0) => wild::<RedBlackTreeMap<K, K, RcK>>(),
        (5, _) => wild::<RedBlackTreeMap<K, K, ArcTK>>(),
        (6, 0) => wild::<HashTrieSet<K, RcK, BH>>(),
        (6, _) => wild::<HashTrieSet<K, ArcTK, BH>>(),
        (7, 0) => wild::<RedBlackTreeSet<K, RcK>>(),
        _ => wild::<RedBlackTreeSet<K, ArcTK>>(),
    }
}

entries!(p32_wild);
