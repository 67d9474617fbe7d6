//! Symbolic bit sets.  A bitmap built from `1 << i` with symbolic `i` is a finite set of positions;
//! emptiness and population count are decided on the order of those positions (forking where the
//! path condition leaves it open) instead of being handed to the solver as 64-bit arithmetic.
use super::*;

impl Engine {
    /// The `i` of `1 << i`, when the node has that form.
    fn one_hot(&self, e: Eid) -> Option<Eid> {
        let n = self.ar.n(e);
        (n.op == Op::Shl && self.ar.as_const(n.a) == Some(1) && self.ar.as_const(n.b).is_none()).then_some(n.b)
    }

    /// The `j` of `(1 << j) - 1`: all positions below `j`.
    fn low_mask(&self, e: Eid) -> Option<Eid> {
        let n = *self.ar.n(e);
        let m = mask(n.w);
        match n.op {
            Op::Add => match (self.one_hot(n.a), self.ar.as_const(n.b), self.one_hot(n.b), self.ar.as_const(n.a)) {
                (Some(j), Some(k), _, _) | (_, _, Some(j), Some(k)) if k == m => Some(j),
                _ => None,
            },
            Op::Sub => match (self.one_hot(n.a), self.ar.as_const(n.b)) {
                (Some(j), Some(1)) => Some(j),
                _ => None,
            },
            _ => None,
        }
    }

    /// The `j` of `-1 << j`: all positions from `j` up.
    fn high_mask(&self, e: Eid) -> Option<Eid> {
        let n = *self.ar.n(e);
        (n.op == Op::Shl && self.ar.as_const(n.a) == Some(mask(n.w)) && self.ar.as_const(n.b).is_none()).then_some(n.b)
    }

    fn has_symbolic(&self, e: Eid) -> bool {
        let n = *self.ar.n(e);
        match n.op {
            Op::Or | Op::And | Op::Xor => self.has_symbolic(n.a) || self.has_symbolic(n.b),
            Op::Not => self.has_symbolic(n.a),
            _ => self.one_hot(e).is_some() || self.low_mask(e).is_some() || self.high_mask(e).is_some(),
        }
    }

    /// Positions that may be in the set (in its complement with `neg`), a superset; `None` when that is not known to be small.
    fn atoms(&mut self, e: Eid, neg: bool) -> Option<Vec<Eid>> {
        let n = *self.ar.n(e);
        if let Some(k) = self.ar.as_const(e) {
            return Some((0..n.w).filter(|i| (k >> i & 1 != 0) != neg).map(|i| self.ar.konst(i as u128, n.w)).collect());
        }
        if let Some(i) = self.one_hot(e) {
            return (!neg).then_some(vec![i]);
        }
        match (n.op, neg) {
            (Op::Not, _) => self.atoms(n.a, !neg),
            (Op::Or, false) | (Op::And, true) | (Op::Xor, false) => {
                let mut x = self.atoms(n.a, neg)?;
                x.extend(self.atoms(n.b, neg)?);
                x.sort_by_key(|&e| self.ar.key(e));
                x.dedup();
                Some(x)
            }
            (Op::And, false) | (Op::Or, true) => match (self.atoms(n.a, neg), self.atoms(n.b, neg)) {
                (Some(x), Some(y)) => Some(if x.len() <= y.len() { x } else { y }),
                (x, y) => x.or(y),
            },
            _ => None,
        }
    }

    /// Is every leaf of the tree understood?
    fn is_set(&self, e: Eid) -> bool {
        let n = *self.ar.n(e);
        if n.op == Op::Const || self.one_hot(e).is_some() || self.low_mask(e).is_some() || self.high_mask(e).is_some() {
            return true;
        }
        match n.op {
            Op::Or | Op::And | Op::Xor => self.is_set(n.a) && self.is_set(n.b),
            Op::Not => self.is_set(n.a),
            _ => false,
        }
    }

    /// Is position `j` in the set?
    fn member(&mut self, s: &mut State, e: Eid, j: Eid) -> R<bool> {
        let n = *self.ar.n(e);
        if let Some(k) = self.ar.as_const(e) {
            if k == 0 || k == mask(n.w) {
                return Ok(k != 0);
            }
            if let Some(j) = self.ar.as_const(j) {
                return Ok(k >> j & 1 != 0);
            }
            let sh = self.ar.bin(Op::LShr, e, j);
            let bit = self.ar.extract(sh, 0, 1);
            return self.decide(s, bit);
        }
        if let Some(i) = self.one_hot(e) {
            let c = self.ar.eq(i, j);
            return self.decide(s, c);
        }
        if let Some(m) = self.low_mask(e) {
            let c = self.ar.ult(j, m);
            return self.decide(s, c);
        }
        if let Some(m) = self.high_mask(e) {
            let c = self.ar.ult(j, m);
            return Ok(!self.decide(s, c)?);
        }
        match n.op {
            Op::Or => Ok(self.member(s, n.a, j)? || self.member(s, n.b, j)?),
            Op::And => Ok(self.member(s, n.a, j)? && self.member(s, n.b, j)?),
            Op::Xor => Ok(self.member(s, n.a, j)? != self.member(s, n.b, j)?),
            Op::Not => Ok(!self.member(s, n.a, j)?),
            _ => err("not a bit set"),
        }
    }

    /// Atoms that are in range on this path (`1 << i` is empty when `i` is not).
    fn in_range(&mut self, s: &mut State, i: Eid, w: u16) -> R<bool> {
        let lim = self.ar.konst(w as u128, w);
        let c = self.ar.ult(i, lim);
        self.decide(s, c)
    }

    fn bitset(&mut self, e: Eid) -> Option<(Vec<Eid>, bool)> {
        if self.ar.w(e) < 8 || self.ar.w(e) > 64 || !self.has_symbolic(e) || !self.is_set(e) {
            return None;
        }
        let w = self.ar.w(e);
        match self.atoms(e, false) {
            Some(x) => Some((x, false)),
            None => Some(((0..w).map(|i| self.ar.konst(i as u128, w)).collect(), true)),
        }
    }

    /// `Some(e == 0)` for a symbolic bit set.
    pub(super) fn set_is_empty(&mut self, s: &mut State, e: Eid) -> R<Option<bool>> {
        let Some((atoms, dense)) = self.bitset(e) else { return Ok(None) };
        if dense {
            return Ok(None);
        }
        let w = self.ar.w(e);
        for j in atoms {
            if self.in_range(s, j, w)? && self.member(s, e, j)? {
                return Ok(Some(false));
            }
        }
        Ok(Some(true))
    }

    /// Constants in the tree, and the masks.
    fn leaves(&self, e: Eid, bits: &mut u128, masks: &mut Vec<Eid>) {
        let n = *self.ar.n(e);
        if n.op == Op::Const {
            if n.k != mask(n.w) {
                *bits |= n.k;
            }
        } else if let Some(m) = self.low_mask(e).or(self.high_mask(e)) {
            masks.push(m);
        } else {
            match n.op {
                Op::Or | Op::And | Op::Xor => {
                    self.leaves(n.a, bits, masks);
                    self.leaves(n.b, bits, masks);
                }
                Op::Not => self.leaves(n.a, bits, masks),
                _ => {}
            }
        }
    }

    /// Places `m` among the constant positions by bisection, so that comparing it with each costs no query.
    fn place(&mut self, s: &mut State, m: Eid, at: &[u16], w: u16) -> R<()> {
        let (mut lo, mut hi) = (0, at.len());
        while lo < hi {
            let mid = (lo + hi) / 2;
            let p = self.ar.konst(at[mid] as u128, w);
            let c = self.ar.ult(p, m);
            if self.decide(s, c)? {
                lo = mid + 1;
            } else {
                hi = mid;
            }
        }
        for (i, p) in at.iter().enumerate() {
            let p = self.ar.konst(*p as u128, w);
            let c = self.ar.ult(p, m);
            self.learn(s, c, i < lo);
        }
        Ok(())
    }

    /// Population count of a symbolic bit set.
    pub(super) fn set_count(&mut self, s: &mut State, e: Eid) -> R<Option<u64>> {
        let Some((atoms, dense)) = self.bitset(e) else { return Ok(None) };
        let w = self.ar.w(e);
        let (mut bits, mut masks) = (0, vec![]);
        self.leaves(e, &mut bits, &mut masks);
        if dense {
            bits = mask(w);
        }
        if bits.count_ones() > 2 {
            let at: Vec<u16> = (0..w).filter(|i| bits >> i & 1 != 0).collect();
            for m in masks {
                self.place(s, m, &at, w)?;
            }
        }
        let mut seen: Vec<Eid> = vec![];
        'next: for j in atoms {
            if !self.in_range(s, j, w)? || !self.member(s, e, j)? {
                continue;
            }
            for k in seen.clone() {
                if self.ar.as_const(k).is_some() && self.ar.as_const(j).is_some() {
                    continue; // different constants
                }
                let c = self.ar.eq(k, j);
                if self.decide(s, c)? {
                    continue 'next;
                }
            }
            seen.push(j);
        }
        Ok(Some(seen.len() as u64))
    }

    /// Value of `(set >> j) & 1`.
    pub(super) fn set_bit(&mut self, s: &mut State, e: Eid) -> R<Option<bool>> {
        let n = *self.ar.n(e);
        if n.op == Op::Extract && n.k == 0 && n.w == 1 {
            return self.shifted_bit(s, n.a);
        }
        if n.op == Op::And && self.ar.as_const(n.b) == Some(1) {
            return self.shifted_bit(s, n.a);
        }
        if n.op == Op::And && self.ar.as_const(n.a) == Some(1) {
            return self.shifted_bit(s, n.b);
        }
        if n.op == Op::ZExt {
            return self.set_bit(s, n.a);
        }
        Ok(None)
    }

    fn shifted_bit(&mut self, s: &mut State, e: Eid) -> R<Option<bool>> {
        let n = *self.ar.n(e);
        if n.op == Op::LShr && n.w >= 8 && n.w <= 64 && self.has_symbolic(n.a) && self.is_set(n.a) {
            if self.in_range(s, n.b, n.w)? {
                return Ok(Some(self.member(s, n.a, n.b)?));
            }
            return Ok(Some(false));
        }
        Ok(None)
    }
}
