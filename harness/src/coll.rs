//! The eight collections behind one interface, each with a plain model.
use crate::common::*;
use crate::sym::*;
use archery::SharedPointerKind;
use rpds::*;

/// One step: operation kind, argument (position or universe index), and the number that marks what it puts in.
#[derive(Clone, Copy)]
pub struct Op {
    pub kind: u64,
    pub arg: u64,
    pub mark: u64,
}

pub trait Coll: Clone + PartialEq {
    type M: Clone;
    /// Number of operation kinds with an in-place form.
    const NOPS: u64;
    const KEYED: bool;
    const ORDERED: bool;
    const HASHED: bool;
    fn make(cfg: u64) -> Self;
    fn model() -> Self::M;
    /// Argument for the operation, by choice.
    fn pick(m: &Self::M, kind: u64, u: &mut Universe) -> u64;
    /// In-place form; 1 for success, 0 for failure, 2 where the form reports nothing.
    fn run_mut(&mut self, o: Op, u: &Universe) -> u64;
    /// Persistent form, where there is one; None in the pair is the reported failure.
    fn run_pers(&self, o: Op, u: &Universe) -> Option<Option<Self>>;
    fn run_model(m: &mut Self::M, o: Op) -> u64;
    /// Everything observable agrees with the model.
    fn verify(&self, m: &Self::M, u: &Universe);
    fn len(&self) -> usize;
    /// What iteration yields: (identity, tag, value).
    fn contents(&self) -> Vec<(u64, u64, u64)>;
    /// Addresses of the elements, in iteration order.
    fn addrs(&self) -> Vec<usize>;
    /// Addresses of the values, in iteration order, where there are keys and values.
    fn vaddrs(&self) -> Vec<usize> {
        Vec::new()
    }
    fn mlen(m: &Self::M) -> usize;
    /// Indexing with what is not there panics.
    fn missing(&self, _: &Self::M, _: &Universe) {}
}

pub fn step<C: Coll>(c: &mut C, m: &mut C::M, u: &mut Universe, mark: u64) -> Op {
    let kind = choice(C::NOPS);
    let arg = C::pick(m, kind, u);
    let o = Op { kind, arg, mark };
    let want = C::run_model(m, o);
    let got = c.run_mut(o, u);
    check(got == 2 || got == want, 10);
    o
}

type Seq = Vec<(u64, u64)>;

fn seq_check<'a>(mut it: impl Iterator<Item = &'a K>, m: &mut dyn Iterator<Item = &(u64, u64)>, id: u32) {
    for e in m {
        match it.next() {
            Some(k) => {
                k.touch();
                check(k.idx == e.0 && k.tag == e.1, id);
            }
            None => check(false, id),
        }
    }
    check(it.next().is_none(), id + 1);
}

fn same(k: Option<&K>, e: Option<&(u64, u64)>) -> bool {
    match (k, e) {
        (None, None) => true,
        (Some(k), Some(e)) => {
            k.touch();
            k.idx == e.0 && k.tag == e.1
        }
        _ => false,
    }
}

fn seq_contents<'a>(it: impl Iterator<Item = &'a K>) -> Vec<(u64, u64, u64)> {
    it.map(|k| {
        k.touch();
        (k.idx, k.tag, 0)
    })
    .collect()
}

impl<P: SharedPointerKind> Coll for Vector<K, P> {
    type M = Seq;
    const NOPS: u64 = 5;
    const KEYED: bool = false;
    const ORDERED: bool = false;
    const HASHED: bool = false;
    fn make(cfg: u64) -> Self {
        if cfg == 0 { Vector::new_with_ptr_kind() } else { Vector::new_with_bits(cfg as u8) }
    }
    fn model() -> Seq {
        Vec::new()
    }
    fn pick(m: &Seq, kind: u64, _: &mut Universe) -> u64 {
        if kind == 2 || kind == 3 { choice(m.len() as u64 + 1) } else { 0 }
    }
    fn run_mut(&mut self, o: Op, _: &Universe) -> u64 {
        match o.kind {
            0 => {
                self.push_back_mut(K::e(o.mark));
                2
            }
            1 => self.drop_last_mut() as u64,
            2 => self.set_mut(o.arg as usize, K::e(o.mark)) as u64,
            3 => match self.get_mut(o.arg as usize) {
                Some(k) => {
                    k.touch();
                    k.tag = o.mark;
                    1
                }
                None => 0,
            },
            _ => {
                self.extend([K::e(o.mark), K::e(o.mark + 1)]);
                2
            }
        }
    }
    fn run_pers(&self, o: Op, _: &Universe) -> Option<Option<Self>> {
        match o.kind {
            0 => Some(Some(self.push_back(K::e(o.mark)))),
            1 => Some(self.drop_last()),
            2 => Some(self.set(o.arg as usize, K::e(o.mark))),
            _ => None,
        }
    }
    fn run_model(m: &mut Seq, o: Op) -> u64 {
        let i = o.arg as usize;
        match o.kind {
            0 => {
                m.push((o.mark, o.mark));
                1
            }
            1 => m.pop().is_some() as u64,
            2 => {
                if i < m.len() {
                    m[i] = (o.mark, o.mark);
                    1
                } else {
                    0
                }
            }
            3 => {
                if i < m.len() {
                    m[i].1 = o.mark;
                    1
                } else {
                    0
                }
            }
            _ => {
                m.push((o.mark, o.mark));
                m.push((o.mark + 1, o.mark + 1));
                1
            }
        }
    }
    fn verify(&self, m: &Seq, _: &Universe) {
        check(self.len() == m.len(), 11);
        check(self.is_empty() == m.is_empty(), 12);
        check(same(self.first(), m.first()), 13);
        check(same(self.last(), m.last()), 14);
        for i in 0..m.len() {
            check(same(self.get(i), m.get(i)), 15);
        }
        check(self.get(m.len()).is_none() && self.get(m.len() + 1).is_none(), 16);
        seq_check(self.iter(), &mut m.iter(), 17);
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn contents(&self) -> Vec<(u64, u64, u64)> {
        seq_contents(self.iter())
    }
    fn addrs(&self) -> Vec<usize> {
        self.iter().map(|k| k as *const K as usize).collect()
    }
    fn mlen(m: &Seq) -> usize {
        m.len()
    }
}

// Model of a list and a stack: the front is the end of the vector.
impl<P: SharedPointerKind> Coll for List<K, P> {
    type M = Seq;
    const NOPS: u64 = 3;
    const KEYED: bool = false;
    const ORDERED: bool = false;
    const HASHED: bool = false;
    fn make(_: u64) -> Self {
        List::new_with_ptr_kind()
    }
    fn model() -> Seq {
        Vec::new()
    }
    fn pick(_: &Seq, _: u64, _: &mut Universe) -> u64 {
        0
    }
    fn run_mut(&mut self, o: Op, _: &Universe) -> u64 {
        match o.kind {
            0 => {
                self.push_front_mut(K::e(o.mark));
                2
            }
            1 => self.drop_first_mut() as u64,
            _ => {
                self.reverse_mut();
                2
            }
        }
    }
    fn run_pers(&self, o: Op, _: &Universe) -> Option<Option<Self>> {
        match o.kind {
            0 => Some(Some(self.push_front(K::e(o.mark)))),
            1 => Some(self.drop_first()),
            _ => Some(Some(self.reverse())),
        }
    }
    fn run_model(m: &mut Seq, o: Op) -> u64 {
        match o.kind {
            0 => {
                m.push((o.mark, o.mark));
                1
            }
            1 => m.pop().is_some() as u64,
            _ => {
                m.reverse();
                1
            }
        }
    }
    fn verify(&self, m: &Seq, _: &Universe) {
        check(self.len() == m.len(), 11);
        check(self.is_empty() == m.is_empty(), 12);
        check(same(self.first(), m.last()), 13);
        check(same(self.last(), m.first()), 14);
        seq_check(self.iter(), &mut m.iter().rev(), 17);
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn contents(&self) -> Vec<(u64, u64, u64)> {
        seq_contents(self.iter())
    }
    fn addrs(&self) -> Vec<usize> {
        self.iter().map(|k| k as *const K as usize).collect()
    }
    fn mlen(m: &Seq) -> usize {
        m.len()
    }
}

impl<P: SharedPointerKind> Coll for Stack<K, P> {
    type M = Seq;
    const NOPS: u64 = 2;
    const KEYED: bool = false;
    const ORDERED: bool = false;
    const HASHED: bool = false;
    fn make(_: u64) -> Self {
        Stack::new_with_ptr_kind()
    }
    fn model() -> Seq {
        Vec::new()
    }
    fn pick(_: &Seq, _: u64, _: &mut Universe) -> u64 {
        0
    }
    fn run_mut(&mut self, o: Op, _: &Universe) -> u64 {
        match o.kind {
            0 => {
                self.push_mut(K::e(o.mark));
                2
            }
            _ => self.pop_mut() as u64,
        }
    }
    fn run_pers(&self, o: Op, _: &Universe) -> Option<Option<Self>> {
        match o.kind {
            0 => Some(Some(self.push(K::e(o.mark)))),
            _ => Some(self.pop()),
        }
    }
    fn run_model(m: &mut Seq, o: Op) -> u64 {
        match o.kind {
            0 => {
                m.push((o.mark, o.mark));
                1
            }
            _ => m.pop().is_some() as u64,
        }
    }
    fn verify(&self, m: &Seq, _: &Universe) {
        check(self.size() == m.len(), 11);
        check(self.is_empty() == m.is_empty(), 12);
        check(same(self.peek(), m.last()), 13);
        seq_check(self.iter(), &mut m.iter().rev(), 17);
    }
    fn len(&self) -> usize {
        self.size()
    }
    fn contents(&self) -> Vec<(u64, u64, u64)> {
        seq_contents(self.iter())
    }
    fn addrs(&self) -> Vec<usize> {
        self.iter().map(|k| k as *const K as usize).collect()
    }
    fn mlen(m: &Seq) -> usize {
        m.len()
    }
}

impl<P: SharedPointerKind> Coll for Queue<K, P> {
    type M = Seq;
    const NOPS: u64 = 2;
    const KEYED: bool = false;
    const ORDERED: bool = false;
    const HASHED: bool = false;
    fn make(_: u64) -> Self {
        Queue::new_with_ptr_kind()
    }
    fn model() -> Seq {
        Vec::new()
    }
    fn pick(_: &Seq, _: u64, _: &mut Universe) -> u64 {
        0
    }
    fn run_mut(&mut self, o: Op, _: &Universe) -> u64 {
        match o.kind {
            0 => {
                self.enqueue_mut(K::e(o.mark));
                2
            }
            _ => self.dequeue_mut() as u64,
        }
    }
    fn run_pers(&self, o: Op, _: &Universe) -> Option<Option<Self>> {
        match o.kind {
            0 => Some(Some(self.enqueue(K::e(o.mark)))),
            _ => Some(self.dequeue()),
        }
    }
    fn run_model(m: &mut Seq, o: Op) -> u64 {
        match o.kind {
            0 => {
                m.push((o.mark, o.mark));
                1
            }
            _ => {
                if m.is_empty() {
                    0
                } else {
                    m.remove(0);
                    1
                }
            }
        }
    }
    fn verify(&self, m: &Seq, _: &Universe) {
        check(self.len() == m.len(), 11);
        check(self.is_empty() == m.is_empty(), 12);
        check(same(self.peek(), m.first()), 13);
        seq_check(self.iter(), &mut m.iter(), 17);
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn contents(&self) -> Vec<(u64, u64, u64)> {
        seq_contents(self.iter())
    }
    fn addrs(&self) -> Vec<usize> {
        self.iter().map(|k| k as *const K as usize).collect()
    }
    fn mlen(m: &Seq) -> usize {
        m.len()
    }
}

/// Association table: (universe index, tag, value mark).
pub type Assoc = Vec<(u64, u64, u64)>;

pub fn mfind(m: &Assoc, i: u64) -> Option<usize> {
    m.iter().position(|e| e.0 == i)
}

fn map_model(m: &mut Assoc, o: Op) -> u64 {
    let at = mfind(m, o.arg);
    match o.kind {
        0 => {
            match at {
                Some(i) => m[i] = (o.arg, o.mark, o.mark),
                None => m.push((o.arg, o.mark, o.mark)),
            }
            1
        }
        1 => match at {
            Some(i) => {
                m.swap_remove(i);
                1
            }
            None => 0,
        },
        _ => match at {
            Some(i) => {
                m[i].2 = o.mark;
                1
            }
            None => 0,
        },
    }
}

/// `it` yields exactly the entries of the model.
fn entries_check(it: impl Iterator<Item = (u64, u64, u64)>, m: &Assoc, id: u32) {
    let mut seen = vec![false; m.len()];
    let mut n = 0;
    for (i, t, v) in it {
        match mfind(m, i) {
            Some(p) => {
                check(m[p].1 == t && m[p].2 == v, id);
                check(!seen[p], id + 1);
                seen[p] = true;
            }
            None => check(false, id),
        }
        n += 1;
        if n > m.len() {
            break;
        }
    }
    check(n == m.len(), id + 2);
}

fn trip<'a>((k, v): (&'a K, &'a K)) -> (u64, u64, u64) {
    k.touch();
    v.touch();
    (k.idx, k.tag, v.tag)
}

macro_rules! map_lookups {
    ($self:ident, $m:ident, $u:ident) => {
        check($self.size() == $m.len(), 11);
        check($self.is_empty() == $m.is_empty(), 12);
        for i in 0..$u.keys.len().min($u.used + 1) {
            let q = $u.key(i, 0);
            let at = mfind($m, i as u64);
            check($self.get(&q).map(|v| v.tag) == at.map(|p| $m[p].2), 13);
            check($self.contains_key(&q) == at.is_some(), 14);
            check($self.get_key_value(&q).map(trip) == at.map(|p| $m[p]), 15);
            if at.is_some() {
                check($self[&q].tag == $m[at.unwrap()].2, 16);
            }
        }
    };
}

macro_rules! map_runs {
    () => {
        fn run_mut(&mut self, o: Op, u: &Universe) -> u64 {
            let k = u.key(o.arg as usize, o.mark);
            match o.kind {
                0 => {
                    self.insert_mut(k, K::e(o.mark));
                    2
                }
                1 => self.remove_mut(&k) as u64,
                _ => match self.get_mut(&k) {
                    Some(v) => {
                        v.touch();
                        v.tag = o.mark;
                        v.idx = o.mark;
                        v.ord = o.mark;
                        v.h = o.mark;
                        1
                    }
                    None => 0,
                },
            }
        }
        fn run_pers(&self, o: Op, u: &Universe) -> Option<Option<Self>> {
            let k = u.key(o.arg as usize, o.mark);
            match o.kind {
                0 => Some(Some(self.insert(k, K::e(o.mark)))),
                1 => Some(Some(self.remove(&k))),
                _ => None,
            }
        }
        fn run_model(m: &mut Assoc, o: Op) -> u64 {
            map_model(m, o)
        }
        fn model() -> Assoc {
            Vec::new()
        }
        fn pick(_: &Assoc, _: u64, u: &mut Universe) -> u64 {
            u.pick() as u64
        }
        fn len(&self) -> usize {
            self.size()
        }
        fn mlen(m: &Assoc) -> usize {
            m.len()
        }
        fn contents(&self) -> Vec<(u64, u64, u64)> {
            self.iter().map(trip).collect()
        }
        fn addrs(&self) -> Vec<usize> {
            self.iter().map(|(k, _)| k as *const K as usize).collect()
        }
        fn missing(&self, m: &Assoc, u: &Universe) {
            for i in 0..u.keys.len().min(u.used + 1) {
                if mfind(m, i as u64).is_none() {
                    let q = u.key(i, 0);
                    check(panics(|| self[&q].touch()), 26);
                }
            }
        }
        fn vaddrs(&self) -> Vec<usize> {
            self.iter().map(|(_, v)| v as *const K as usize).collect()
        }
        type M = Assoc;
        const NOPS: u64 = 3;
        const KEYED: bool = true;
    };
}

impl<P: SharedPointerKind> Coll for HashTrieMap<K, K, P, BH> {
    map_runs!();
    const ORDERED: bool = false;
    const HASHED: bool = true;
    fn make(cfg: u64) -> Self {
        if cfg == 0 {
            HashTrieMap::new_with_hasher_and_ptr_kind(BH::default())
        } else {
            HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(BH::default(), cfg as u8)
        }
    }
    fn verify(&self, m: &Assoc, u: &Universe) {
        map_lookups!(self, m, u);
        entries_check(self.iter().map(trip), m, 17);
    }
}

/// Ascending by place in the order.
fn ascending<'a>(it: impl Iterator<Item = &'a K>, id: u32) {
    let mut last: Option<u64> = None;
    for k in it {
        if let Some(l) = last {
            check(l < k.ord, id);
        }
        last = Some(k.ord);
    }
}

impl<P: SharedPointerKind> Coll for RedBlackTreeMap<K, K, P> {
    map_runs!();
    const ORDERED: bool = true;
    const HASHED: bool = false;
    fn make(_: u64) -> Self {
        RedBlackTreeMap::new_with_ptr_kind()
    }
    fn verify(&self, m: &Assoc, u: &Universe) {
        map_lookups!(self, m, u);
        entries_check(self.iter().map(trip), m, 17);
        ascending(self.iter().map(|(k, _)| k), 20);
        match (self.first(), self.last()) {
            (Some(f), Some(l)) => {
                check(!m.is_empty(), 21);
                for e in m {
                    check(f.0.ord <= u.keys[e.0 as usize].0, 22);
                    check(l.0.ord >= u.keys[e.0 as usize].0, 23);
                }
                check(mfind(m, f.0.idx).is_some_and(|p| m[p] == trip(f)), 24);
                check(mfind(m, l.0.idx).is_some_and(|p| m[p] == trip(l)), 25);
            }
            (None, None) => check(m.is_empty(), 21),
            _ => check(false, 21),
        }
    }
}

macro_rules! set_runs {
    () => {
        fn run_mut(&mut self, o: Op, u: &Universe) -> u64 {
            let k = u.key(o.arg as usize, o.mark);
            match o.kind {
                0 => {
                    self.insert_mut(k);
                    2
                }
                _ => self.remove_mut(&k) as u64,
            }
        }
        fn run_pers(&self, o: Op, u: &Universe) -> Option<Option<Self>> {
            let k = u.key(o.arg as usize, o.mark);
            match o.kind {
                0 => Some(Some(self.insert(k))),
                _ => Some(Some(self.remove(&k))),
            }
        }
        fn run_model(m: &mut Assoc, o: Op) -> u64 {
            let r = map_model(m, o);
            if o.kind == 0 {
                let p = mfind(m, o.arg).unwrap();
                m[p].2 = 0;
            }
            r
        }
        fn model() -> Assoc {
            Vec::new()
        }
        fn pick(_: &Assoc, _: u64, u: &mut Universe) -> u64 {
            u.pick() as u64
        }
        fn len(&self) -> usize {
            self.size()
        }
        fn mlen(m: &Assoc) -> usize {
            m.len()
        }
        fn contents(&self) -> Vec<(u64, u64, u64)> {
            self.iter().map(one).collect()
        }
        fn addrs(&self) -> Vec<usize> {
            self.iter().map(|k| k as *const K as usize).collect()
        }
        type M = Assoc;
        const NOPS: u64 = 2;
        const KEYED: bool = true;
    };
}

fn one(k: &K) -> (u64, u64, u64) {
    k.touch();
    (k.idx, k.tag, 0)
}

macro_rules! set_lookups {
    ($self:ident, $m:ident, $u:ident) => {
        check($self.size() == $m.len(), 11);
        check($self.is_empty() == $m.is_empty(), 12);
        for i in 0..$u.keys.len().min($u.used + 1) {
            let q = $u.key(i, 0);
            let at = mfind($m, i as u64);
            check($self.get(&q).map(one) == at.map(|p| $m[p]), 13);
            check($self.contains(&q) == at.is_some(), 14);
        }
    };
}

impl<P: SharedPointerKind> Coll for HashTrieSet<K, P, BH> {
    set_runs!();
    const ORDERED: bool = false;
    const HASHED: bool = true;
    fn make(cfg: u64) -> Self {
        if cfg == 0 {
            HashTrieSet::new_with_hasher_with_ptr_kind(BH::default())
        } else {
            HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(BH::default(), cfg as u8)
        }
    }
    fn verify(&self, m: &Assoc, u: &Universe) {
        set_lookups!(self, m, u);
        entries_check(self.iter().map(one), m, 17);
    }
}

impl<P: SharedPointerKind> Coll for RedBlackTreeSet<K, P> {
    set_runs!();
    const ORDERED: bool = true;
    const HASHED: bool = false;
    fn make(_: u64) -> Self {
        RedBlackTreeSet::new_with_ptr_kind()
    }
    fn verify(&self, m: &Assoc, u: &Universe) {
        set_lookups!(self, m, u);
        entries_check(self.iter().map(one), m, 17);
        ascending(self.iter(), 20);
        match (self.first(), self.last()) {
            (Some(f), Some(l)) => {
                check(!m.is_empty(), 21);
                for e in m {
                    check(f.ord <= u.keys[e.0 as usize].0, 22);
                    check(l.ord >= u.keys[e.0 as usize].0, 23);
                }
                check(mfind(m, f.idx).is_some_and(|p| m[p] == one(f)), 24);
                check(mfind(m, l.idx).is_some_and(|p| m[p] == one(l)), 25);
            }
            (None, None) => check(m.is_empty(), 21),
            _ => check(false, 21),
        }
    }
}

/// Calls `$f::<Collection>(args)` for the collection number and pointer kind given.
#[macro_export]
macro_rules! with_kind {
    ($kind:expr, $f:ident, $($t:ident)::+ [$($pre:ty),*] [$($post:ty),*] ($($a:expr),*)) => {
        match $kind {
            0 => $f::<$($t)::+<$($pre,)* archery::RcK $(, $post)*>>($($a),*),
            1 => $f::<$($t)::+<$($pre,)* archery::ArcTK $(, $post)*>>($($a),*),
            _ => $f::<$($t)::+<$($pre,)* archery::ArcK $(, $post)*>>($($a),*),
        }
    };
}
#[macro_export]
macro_rules! with_coll {
    ($which:expr, $kind:expr, $f:ident ($($a:expr),*)) => {{
        use $crate::common::{K, BH};
        match $which {
            0 => $crate::with_kind!($kind, $f, rpds::Vector [K] [] ($($a),*)),
            1 => $crate::with_kind!($kind, $f, rpds::List [K] [] ($($a),*)),
            2 => $crate::with_kind!($kind, $f, rpds::Queue [K] [] ($($a),*)),
            3 => $crate::with_kind!($kind, $f, rpds::Stack [K] [] ($($a),*)),
            4 => $crate::with_kind!($kind, $f, rpds::HashTrieMap [K, K] [BH] ($($a),*)),
            5 => $crate::with_kind!($kind, $f, rpds::RedBlackTreeMap [K, K] [] ($($a),*)),
            6 => $crate::with_kind!($kind, $f, rpds::HashTrieSet [K] [BH] ($($a),*)),
            _ => $crate::with_kind!($kind, $f, rpds::RedBlackTreeSet [K] [] ($($a),*)),
        }
    }};
}

/// The universe a harness of this collection needs.
pub fn universe<C: Coll>(m: usize, lo: u32, hi: u32) -> Universe {
    if C::ORDERED {
        Universe::ordered(m, 8)
    } else if C::HASHED {
        Universe::hashed(m, lo, hi)
    } else {
        Universe { keys: Vec::new(), used: 0 }
    }
}
