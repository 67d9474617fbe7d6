//! Elements, hashers and global bookkeeping shared by the harnesses.
use crate::sym::*;
use std::cmp::Ordering;
use std::hash::{BuildHasher, Hash, Hasher};

pub const MAXI: usize = 4096;

/// Per-run bookkeeping (one run is one path).
pub struct G {
    live: [u8; MAXI],
    next: usize,
    pub cmps: u64,
    pub eqs: u64,
    /// `eqs` between keys of different hash
    pub eqs_hash_differs: u64,
    pub hashes: u64,
    pub clones: u64,
    /// calls into user code left before one of them panics; 0 is never
    pub fuse: u64,
    pub blown: bool,
    pub peak: u64,
    pub track_stack: bool,
    pub watch_eq: bool,
    pub seeds: u64,
    /// calls to equality, order and hash left that answer anything; from ALWAYS on, every call answers the same
    pub wild: u64,
}

/// With the answer of equality (1 bit) and of the order (2 bits) added.
pub const ALWAYS: u64 = 1 << 32;

static mut GLOBAL: G = G {
    live: [0; MAXI],
    next: 0,
    cmps: 0,
    eqs: 0,
    eqs_hash_differs: 0,
    hashes: 0,
    clones: 0,
    fuse: 0,
    blown: false,
    peak: 0,
    track_stack: false,
    watch_eq: false,
    seeds: 0,
    wild: 0,
};

#[allow(static_mut_refs)]
pub fn g() -> &'static mut G {
    unsafe { &mut GLOBAL }
}

impl G {
    fn birth(&mut self) -> usize {
        let i = self.next;
        if i >= MAXI {
            check(false, 9000);
        }
        self.next += 1;
        self.live[i] = 1;
        i
    }
    pub fn alive(&self) -> u64 {
        let mut n = 0;
        for i in 0..self.next {
            n += self.live[i] as u64;
        }
        n
    }
    pub fn births(&self) -> u64 {
        self.next as u64
    }
    /// Notes how deep the call stack is.
    pub fn depth(&mut self) {
        if self.track_stack {
            let d = stack_depth();
            if d > self.peak {
                self.peak = d;
            }
        }
    }
    /// A call into user code: panics when the fuse runs out.
    pub fn tick(&mut self) {
        self.depth();
        if self.fuse > 0 {
            self.fuse -= 1;
            if self.fuse == 0 {
                self.blown = true;
                boom();
            }
        }
    }
}

#[cold]
#[inline(never)]
fn boom() {
    panic!("user code panics");
}

/// A key or element. Equality is by `idx`, order by `ord`, hash is `h`; `tag` tells equal keys apart.
/// Every instance is accounted for: a use or drop of a dead instance fails.
pub struct K {
    pub idx: u64,
    pub ord: u64,
    pub h: u64,
    pub tag: u64,
    inst: usize,
}

impl K {
    pub fn new(idx: u64, ord: u64, h: u64, tag: u64) -> K {
        K { idx, ord, h, tag, inst: g().birth() }
    }
    /// An element with only an identity.
    pub fn e(id: u64) -> K {
        K::new(id, id, id, id)
    }
    pub fn touch(&self) {
        check(g().live[self.inst] == 1, 9001);
    }
    pub fn inst(&self) -> usize {
        self.inst
    }
}

impl Drop for K {
    fn drop(&mut self) {
        let g = g();
        check(g.live[self.inst] == 1, 9002);
        g.live[self.inst] = 0;
        g.depth();
    }
}

impl Clone for K {
    fn clone(&self) -> K {
        self.touch();
        g().clones += 1;
        g().tick();
        K::new(self.idx, self.ord, self.h, self.tag)
    }
}

impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.touch();
        o.touch();
        g().eqs += 1;
        if g().watch_eq && self.idx != o.idx && self.h != o.h {
            g().eqs_hash_differs += 1;
        }
        g().tick();
        if g().wild >= ALWAYS {
            return g().wild & 1 == 1;
        }
        if g().wild > 0 {
            g().wild -= 1;
            return choice(2) == 1;
        }
        self.idx == o.idx
    }
}
impl Eq for K {}

impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        self.touch();
        o.touch();
        g().cmps += 1;
        g().tick();
        if g().wild >= ALWAYS {
            return [Ordering::Less, Ordering::Equal, Ordering::Greater][(g().wild >> 1 & 3) as usize];
        }
        if g().wild > 0 {
            g().wild -= 1;
            return [Ordering::Less, Ordering::Equal, Ordering::Greater][choice(3) as usize];
        }
        if self.idx == o.idx { Ordering::Equal } else { self.ord.cmp(&o.ord) }
    }
}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

impl Hash for K {
    fn hash<H: Hasher>(&self, s: &mut H) {
        self.touch();
        g().hashes += 1;
        g().tick();
        if g().wild > 0 && g().wild < ALWAYS {
            g().wild -= 1;
            s.write_u64([self.h, !self.h, self.h ^ 1 << 63][choice(3) as usize]);
            return;
        }
        s.write_u64(self.h);
    }
}

/// A hasher whose result is what the key says, turned over by a seed that differs from one fresh hasher to the next (as with
/// `RandomState`): 0 for the first.
#[derive(Clone)]
pub struct BH(u64);
impl Default for BH {
    fn default() -> BH {
        let s = g().seeds;
        g().seeds = s + 1;
        BH(s.wrapping_mul(0x9E37_79B9_7F4A_7C15))
    }
}
pub struct PassHasher(u64);
impl BuildHasher for BH {
    type Hasher = PassHasher;
    fn build_hasher(&self) -> PassHasher {
        PassHasher(self.0)
    }
}
impl Hasher for PassHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 << 8) ^ *x as u64;
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 ^= v;
    }
}

/// What symbolic hash values range over: 64 is every 64-bit value; otherwise `lo` bits at the bottom and `hi` bits at
/// the top, zeros between (prefix runs as long as the trie is deep).
pub fn any_hash(lo: u32, hi: u32) -> u64 {
    if lo >= 64 {
        return any(64);
    }
    let mut h = if lo > 0 { any(lo) } else { 0 };
    if hi > 0 {
        h |= any(hi) << (64 - hi);
    }
    h
}

/// The keys a run may use.
pub struct Universe {
    pub keys: Vec<(u64, u64)>, // (ord, hash)
    pub used: usize,
}

impl Universe {
    pub fn key(&self, idx: usize, tag: u64) -> K {
        let (o, h) = self.keys[idx];
        K::new(idx as u64, o, h, tag)
    }
    /// m keys with symbolic, pairwise different `bits`-bit places in the order.
    pub fn ordered(m: usize, bits: u32) -> Universe {
        let mut u = Universe { keys: Vec::new(), used: 0 };
        for _ in 0..m {
            u.add_ordered(bits);
        }
        u
    }
    pub fn add_ordered(&mut self, bits: u32) -> usize {
        let o = any(bits);
        for (p, _) in &self.keys {
            assume(o != *p);
        }
        self.keys.push((o, 0));
        self.keys.len() - 1
    }
    /// m keys with symbolic hashes.
    pub fn hashed(m: usize, lo: u32, hi: u32) -> Universe {
        let mut u = Universe { keys: Vec::new(), used: 0 };
        for _ in 0..m {
            u.keys.push((0, any_hash(lo, hi)));
        }
        u
    }
    /// n keys 1, 3, 5, ... in the order.
    pub fn concrete(n: usize) -> Universe {
        let mut u = Universe { keys: Vec::new(), used: n };
        for i in 0..n {
            u.keys.push((2 * i as u64 + 1, 0));
        }
        u
    }
    /// Any key used before or the next unused one.
    pub fn pick(&mut self) -> usize {
        let n = (self.used + 1).min(self.keys.len());
        let i = choice(n as u64) as usize;
        if i >= self.used {
            self.used = i + 1;
        }
        i
    }
}
