//! Hash-consed bit-vector expressions with local simplification.
use std::collections::HashMap;

pub type Eid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    ZExt,
    SExt,
    Extract,
    Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Eid,
    pub b: Eid,
    pub c: Eid,
    pub k: u128, // constant value / var index / extract low bit
}

pub struct Arena {
    pub nodes: Vec<Node>,
    /// Structural hashes: an order of nodes that does not depend on when they were made.
    sh: Vec<u64>,
    map: HashMap<Node, Eid>,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

/// Concrete semantics of every operator; the single place used for folding and for model evaluation.
pub fn apply(op: Op, w: u16, wa: u16, a: u128, b: u128, c: u128, k: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Const | Op::Var => k,
        Op::Not => !a & m,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext(a, wa) < sext(b, wa)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::ZExt => a,
        Op::SExt => (sext(a, wa) as u128) & m,
        Op::Extract => (a >> (k as u32)) & m,
        Op::Concat => unreachable!(),
    }
}

pub const TRUE: Eid = 1;
pub const FALSE: Eid = 0;

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena { nodes: Vec::new(), sh: Vec::new(), map: HashMap::new() };
        assert_eq!(a.konst(0, 1), FALSE);
        assert_eq!(a.konst(1, 1), TRUE);
        a
    }
    pub fn n(&self, e: Eid) -> &Node {
        &self.nodes[e as usize]
    }
    pub fn w(&self, e: Eid) -> u16 {
        self.nodes[e as usize].w
    }
    pub fn as_const(&self, e: Eid) -> Option<u128> {
        let n = self.n(e);
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn intern(&mut self, n: Node) -> Eid {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as Eid;
        let mut h = 0x9e37_79b9_7f4a_7c15u64;
        let leaf = matches!(n.op, Op::Const | Op::Var);
        for x in [
            n.op as u64,
            n.w as u64,
            if leaf { 0 } else { self.sh[n.a as usize] },
            if leaf { 0 } else { self.sh[n.b as usize] },
            if leaf { 0 } else { self.sh[n.c as usize] },
            n.k as u64,
            (n.k >> 64) as u64,
        ] {
            h = (h ^ x).wrapping_mul(0xff51_afd7_ed55_8ccd);
            h ^= h >> 32;
        }
        self.nodes.push(n);
        self.sh.push(h);
        self.map.insert(n, e);
        e
    }
    pub fn key(&self, a: Eid) -> u64 {
        self.sh[a as usize]
    }
    /// Does `a` come after `b` in the order that is the same in every run?
    pub fn after(&self, a: Eid, b: Eid) -> bool {
        self.sh[a as usize] > self.sh[b as usize]
    }
    pub fn konst(&mut self, v: u128, w: u16) -> Eid {
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn var(&mut self, idx: u32, w: u16) -> Eid {
        self.intern(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: idx as u128 })
    }
    fn raw(&mut self, op: Op, w: u16, a: Eid, b: Eid, c: Eid, k: u128) -> Eid {
        self.intern(Node { op, w, a, b, c, k })
    }
    pub fn not(&mut self, a: Eid) -> Eid {
        let n = *self.n(a);
        match n.op {
            Op::Const => self.konst(!n.k, n.w),
            Op::Not => n.a,
            _ => self.raw(Op::Not, n.w, a, 0, 0, 0),
        }
    }
    pub fn eq(&mut self, a: Eid, b: Eid) -> Eid {
        if a == b {
            return TRUE;
        }
        let (mut a, mut b) = (a, b);
        if self.as_const(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Some(kb) = self.as_const(b) {
            if let Some(ka) = self.as_const(a) {
                return if ka == kb { TRUE } else { FALSE };
            }
            if w == 1 {
                return if kb == 1 { a } else { self.not(a) };
            }
            let n = *self.n(a);
            match n.op {
                Op::ZExt => {
                    let wi = self.w(n.a);
                    if kb > mask(wi) {
                        return FALSE;
                    }
                    let c = self.konst(kb, wi);
                    return self.eq(n.a, c);
                }
                Op::SExt => {
                    let wi = self.w(n.a);
                    let t = kb & mask(wi);
                    if (sext(t, wi) as u128) & mask(w) != kb {
                        return FALSE;
                    }
                    let c = self.konst(t, wi);
                    return self.eq(n.a, c);
                }
                Op::Ite => {
                    let kt = self.as_const(n.b);
                    let ke = self.as_const(n.c);
                    if kt.is_some() || ke.is_some() {
                        let bt = self.eq(n.b, b);
                        let be = self.eq(n.c, b);
                        return self.ite(n.a, bt, be);
                    }
                }
                Op::Xor => {
                    if let Some(kx) = self.as_const(n.b) {
                        let c = self.konst(kx ^ kb, w);
                        return self.eq(n.a, c);
                    }
                    if kb == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                Op::Sub => {
                    if kb == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                Op::Add => {
                    if let Some(kx) = self.as_const(n.b) {
                        let c = self.konst(kb.wrapping_sub(kx), w);
                        return self.eq(n.a, c);
                    }
                }
                Op::Not => {
                    let c = self.konst(!kb, w);
                    return self.eq(n.a, c);
                }
                _ => {}
            }
        } else {
            let (na, nb) = (*self.n(a), *self.n(b));
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if w == 1 {
                let x = self.bin(Op::Xor, a, b);
                return self.not(x);
            }
            if self.after(a, b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.raw(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: Eid, b: Eid) -> Eid {
        if a == b {
            return FALSE;
        }
        let w = self.w(a);
        let (ka, kb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return (x < y) as Eid;
        }
        if kb == Some(0) {
            return FALSE;
        }
        if ka == Some(mask(w)) {
            return FALSE;
        }
        if kb == Some(1) {
            let z = self.konst(0, w);
            return self.eq(a, z);
        }
        if ka == Some(0) {
            let z = self.konst(0, w);
            let e = self.eq(b, z);
            return self.not(e);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        if na.op == Op::ZExt {
            if let Some(y) = kb {
                let wi = self.w(na.a);
                if y > mask(wi) {
                    return TRUE;
                }
                let c = self.konst(y, wi);
                return self.ult(na.a, c);
            }
        }
        if nb.op == Op::ZExt {
            if let Some(x) = ka {
                let wi = self.w(nb.a);
                if x > mask(wi) {
                    return FALSE;
                }
                let c = self.konst(x, wi);
                return self.ult(c, nb.a);
            }
        }
        self.raw(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: Eid, b: Eid) -> Eid {
        if a == b {
            return FALSE;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return (sext(x, w) < sext(y, w)) as Eid;
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        // sign bit of a zero-extended value is clear
        let nonneg = |n: &Node, s: &Arena| match n.op {
            Op::ZExt => s.w(n.a) < n.w,
            Op::Const => sext(n.k, n.w) >= 0,
            _ => false,
        };
        if nonneg(&na, self) && nonneg(&nb, self) {
            return self.ult(a, b);
        }
        // slt(ite(c,k1,k2), k)
        if na.op == Op::Ite && nb.op == Op::Const && self.as_const(na.b).is_some() {
            let t = self.slt(na.b, b);
            let e = self.slt(na.c, b);
            return self.ite(na.a, t, e);
        }
        if nb.op == Op::Ite && na.op == Op::Const && self.as_const(nb.b).is_some() {
            let t = self.slt(a, nb.b);
            let e = self.slt(a, nb.c);
            return self.ite(nb.a, t, e);
        }
        self.raw(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: Eid, t: Eid, e: Eid) -> Eid {
        if c == TRUE {
            return t;
        }
        if c == FALSE {
            return e;
        }
        if t == e {
            return t;
        }
        let w = self.w(t);
        let nc = *self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, e, t);
        }
        if w == 1 {
            if t == TRUE && e == FALSE {
                return c;
            }
            if t == FALSE && e == TRUE {
                return self.not(c);
            }
            if t == TRUE {
                return self.bin(Op::Or, c, e);
            }
            if t == FALSE {
                let n = self.not(c);
                return self.bin(Op::And, n, e);
            }
            if e == FALSE {
                return self.bin(Op::And, c, t);
            }
            if e == TRUE {
                let n = self.not(c);
                return self.bin(Op::Or, n, t);
            }
        }
        self.raw(Op::Ite, w, c, t, e, 0)
    }
    pub fn zext(&mut self, a: Eid, w: u16) -> Eid {
        let n = *self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.konst(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() => {
                let t = self.zext(n.b, w);
                let e = self.zext(n.c, w);
                self.ite(n.a, t, e)
            }
            _ => self.raw(Op::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: Eid, w: u16) -> Eid {
        let n = *self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.konst(sext(n.k, n.w) as u128, w),
            Op::ZExt if self.w(n.a) < n.w => self.zext(n.a, w),
            Op::SExt => self.sext(n.a, w),
            Op::Ite if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() => {
                let t = self.sext(n.b, w);
                let e = self.sext(n.c, w);
                self.ite(n.a, t, e)
            }
            _ => self.raw(Op::SExt, w, a, 0, 0, 0),
        }
    }
    pub fn extract(&mut self, a: Eid, lo: u16, w: u16) -> Eid {
        let n = *self.n(a);
        if lo == 0 && n.w == w {
            return a;
        }
        debug_assert!(lo + w <= n.w);
        match n.op {
            Op::Const => return self.konst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, lo + n.k as u16, w),
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.konst(0, w);
                }
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.zext(n.a, w);
                }
                let hi = self.extract(n.a, lo, wi - lo);
                return self.zext(hi, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Concat => {
                // a = high, b = low
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            Op::Ite if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() => {
                let t = self.extract(n.b, lo, w);
                let e = self.extract(n.c, lo, w);
                return self.ite(n.a, t, e);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::LShr => {
                if let Some(k) = self.as_const(n.b) {
                    let s = k as u64;
                    if s + lo as u64 + w as u64 <= n.w as u64 {
                        return self.extract(n.a, lo + s as u16, w);
                    }
                }
            }
            _ => {}
        }
        self.raw(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, hi: Eid, lo: Eid) -> Eid {
        let (nh, nl) = (*self.n(hi), *self.n(lo));
        let w = nh.w + nl.w;
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.konst((nh.k << nl.w) | nl.k, w);
        }
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(lo, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
            return self.extract(nh.a, nl.k as u16, w);
        }
        // high part extracted from a value whose zext is low
        if nh.op == Op::Extract && nl.op != Op::Extract && nh.k == nl.w as u128 {
            let low = self.extract(nh.a, 0, nl.w);
            if low == lo {
                return self.extract(nh.a, 0, w);
            }
        }
        self.raw(Op::Concat, w, hi, lo, 0, 0)
    }
    pub fn bin(&mut self, op: Op, a: Eid, b: Eid) -> Eid {
        match op {
            Op::Eq => return self.eq(a, b),
            Op::Ult => return self.ult(a, b),
            Op::Slt => return self.slt(a, b),
            _ => {}
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ka, kb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let v = apply(op, w, w, x, y, 0, 0);
            return self.konst(v, w);
        }
        let (mut a, mut b, mut ka, mut kb) = (a, b, ka, kb);
        let comm = matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul);
        if comm && (ka.is_some() || (kb.is_none() && self.after(a, b))) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ka, &mut kb);
        }
        let m = mask(w);
        match op {
            Op::And => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(m) {
                    return a;
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return FALSE;
                    }
                }
                if let Some(k) = kb {
                    let n = *self.n(a);
                    if n.op == Op::And {
                        if let Some(k2) = self.as_const(n.b) {
                            let c = self.konst(k & k2, w);
                            return self.bin(Op::And, n.a, c);
                        }
                    }
                    // low mask: zext(extract)
                    if k & (k + 1) == 0 {
                        let bits = 128 - k.leading_zeros() as u16;
                        let x = self.extract(a, 0, bits);
                        return self.zext(x, w);
                    }
                    if n.op == Op::ZExt {
                        let wi = self.w(n.a);
                        let c = self.konst(k, wi);
                        let x = self.bin(Op::And, n.a, c);
                        return self.zext(x, w);
                    }
                    if n.op == Op::Ite && (self.as_const(n.b).is_some() || self.as_const(n.c).is_some()) {
                        let t = self.bin(op, n.b, b);
                        let e = self.bin(op, n.c, b);
                        return self.ite(n.a, t, e);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return TRUE;
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return self.not(a);
                }
            }
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    let n = *self.n(a);
                    if n.op == Op::Add {
                        if let Some(k2) = self.as_const(n.b) {
                            let c = self.konst(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, n.a, c);
                        }
                    }
                    if n.op == Op::Ite && (self.as_const(n.b).is_some() && self.as_const(n.c).is_some()) {
                        let t = self.bin(op, n.b, b);
                        let e = self.bin(op, n.c, b);
                        return self.ite(n.a, t, e);
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = kb {
                    let c = self.konst((0u128).wrapping_sub(k), w);
                    return self.bin(Op::Add, a, c);
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let c = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, c);
                    }
                }
            }
            Op::Shl => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let lo = self.extract(a, 0, w - k as u16);
                    let z = self.konst(0, k as u16);
                    return self.raw_concat(lo, z);
                }
            }
            Op::LShr => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let hi = self.extract(a, k as u16, w - k as u16);
                    return self.zext(hi, w);
                }
            }
            Op::AShr => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if k < w as u128 {
                        let hi = self.extract(a, k as u16, w - k as u16);
                        return self.sext(hi, w);
                    }
                }
            }
            Op::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let c = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, c);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let c = self.konst(k - 1, w);
                        return self.bin(Op::And, a, c);
                    }
                }
            }
            _ => {}
        }
        self.raw(op, w, a, b, 0, 0)
    }
    fn raw_concat(&mut self, hi: Eid, lo: Eid) -> Eid {
        let w = self.w(hi) + self.w(lo);
        if let (Some(h), Some(l)) = (self.as_const(hi), self.as_const(lo)) {
            let wl = self.w(lo);
            return self.konst((h << wl) | l, w);
        }
        self.raw(Op::Concat, w, hi, lo, 0, 0)
    }

    /// Value of `e` under an assignment of the variables (missing ones are 0).
    /// Text of an expression, cut at a depth; for diagnosis only.
    pub fn show(&self, e: Eid, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("v{}:{}", n.k, n.w),
            _ if depth == 0 => "..".into(),
            Op::Not => format!("(not {})", self.show(n.a, depth - 1)),
            Op::ZExt | Op::SExt => format!("({:?}{} {})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Extract => format!("{}[{}+:{}]", self.show(n.a, depth - 1), n.k, n.w),
            Op::Ite => format!(
                "(ite {} {} {})",
                self.show(n.a, depth - 1),
                self.show(n.b, depth - 1),
                self.show(n.c, depth - 1)
            ),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
    pub fn eval(&self, e: Eid, model: &[u64], memo: &mut HashMap<Eid, u128>) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.k as usize).copied().unwrap_or(0) as u128 & mask(n.w),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let v = match n.op {
            Op::Ite => {
                if self.eval(n.a, model, memo) != 0 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            Op::Concat => {
                let h = self.eval(n.a, model, memo);
                let l = self.eval(n.b, model, memo);
                (h << self.w(n.b)) | l
            }
            Op::Not | Op::ZExt | Op::SExt | Op::Extract => {
                let a = self.eval(n.a, model, memo);
                apply(n.op, n.w, self.w(n.a), a, 0, 0, n.k)
            }
            _ => {
                let a = self.eval(n.a, model, memo);
                let b = self.eval(n.b, model, memo);
                apply(n.op, n.w, self.w(n.a), a, b, 0, 0)
            }
        };
        memo.insert(e, v);
        v
    }
}
