//! The symbolic executor: path-forking interpretation of LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Solver};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Arc;

#[path = "bits.rs"]
mod bits;

pub struct Frame {
    pub f: &'static Func,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub stack_base: u32,
    /// this frame was called by sym_try: unwinding stops above it
    pub catch: bool,
}

impl Clone for Frame {
    fn clone(&self) -> Frame {
        Frame {
            f: self.f,
            bb: self.bb,
            ip: self.ip,
            regs: self.regs.clone(),
            stack_base: self.stack_base,
            catch: self.catch,
        }
    }
}

#[derive(Clone, Copy)]
pub enum Input {
    Sym(u32),
    Conc(u64),
}

pub struct Dec {
    v: u64,
    prev: Option<Rc<Dec>>,
}

impl Drop for Dec {
    fn drop(&mut self) {
        let mut p = self.prev.take();
        while let Some(rc) = p {
            match Rc::try_unwrap(rc) {
                Ok(mut d) => p = d.prev.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    /// frames and panic count of the threads that are not running
    parked: Vec<(Vec<Frame>, u32)>,
    pub mem: Mem,
    pub pc: Vec<Eid>,
    facts: Rc<HashMap<Eid, bool>>,
    conc: Rc<HashMap<Eid, u64>>,
    order: Rc<Vec<(Eid, Eid, bool)>>,
    pub vars: Vec<u16>,
    pub inputs: Vec<Input>,
    pub observed: Vec<Val>,
    pub model: Rc<Vec<u64>>,
    decs: Option<Rc<Dec>>,
    ndecs: u32,
    /// most frames since the harness last asked to count
    deepest: u32,
    panicking: u32,
    pub steps: u64,
    pub nchecks: u64,
    /// forks of this path whose other side was left unexplored because the solver gave no answer
    pub forks: u32,
}

impl State {
    pub fn decisions(&self) -> Vec<u64> {
        let mut v = Vec::with_capacity(self.ndecs as usize);
        let mut p = self.decs.as_ref();
        while let Some(d) = p {
            v.push(d.v);
            p = d.prev.as_ref();
        }
        v.reverse();
        v
    }
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<u64>,
    pub at: String,
}

#[derive(Debug)]
pub enum End {
    Done,
    Infeasible,
    Violation(Violation),
    /// something the engine cannot encode, or a resource limit
    Error(String),
}

enum Stop {
    End(End),
}

impl From<MemErr> for Stop {
    fn from(m: MemErr) -> Stop {
        Stop::End(End::Violation(Violation { kind: "memory".into(), msg: m.0, inputs: vec![], at: String::new() }))
    }
}

type R<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::End(End::Error(s.into())))
}

fn viol<T>(kind: &str, msg: impl Into<String>) -> R<T> {
    Err(Stop::End(End::Violation(Violation { kind: kind.into(), msg: msg.into(), inputs: vec![], at: String::new() })))
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub insts: u64,
    pub forks: u64,
    pub decisions: u64,
    pub checks: u64,
    pub sym_checks: u64,
    pub unknown: u64,
    pub model_hits: u64,
}

pub struct Limits {
    pub steps: u64,
    pub conc: usize,
    pub depth: usize,
}

pub struct Engine {
    pub p: &'static Program,
    pub ar: Arena,
    pub solver: Solver,
    pub pending: Vec<State>,
    pub params: Vec<u64>,
    pub replay: Vec<u64>,
    pub replay_pos: usize,
    pub st: Stats,
    pub lim: Limits,
    pub covers: BTreeMap<u64, u64>,
    pub check_ids: BTreeMap<u64, u64>,
    pub funcs_run: HashMap<u32, u64>,
    pool: Vec<Vec<Val>>,
    pub stack_unit: u64,
}

#[inline]
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

fn wide(v: u128, w: u32) -> Val {
    if w <= 64 {
        Val::I(v as u64 & m64(w))
    } else {
        Val::W(Arc::new(v & mask(w as u16)))
    }
}

impl Engine {
    pub fn new(p: &'static Program, timeout_ms: u32, lim: Limits) -> Engine {
        Engine {
            p,
            ar: Arena::new(),
            solver: Solver::new(timeout_ms),
            pending: vec![],
            params: vec![],
            replay: vec![],
            replay_pos: 0,
            st: Stats::default(),
            lim,
            covers: BTreeMap::new(),
            check_ids: BTreeMap::new(),
            funcs_run: HashMap::new(),
            pool: vec![],
            stack_unit: 64,
        }
    }

    fn fbody(&mut self, id: u32) -> &'static Func {
        *self.funcs_run.entry(id).or_insert(0) += 1;
        let a = self.p.func(id);
        // the program is leaked and bodies are never dropped
        unsafe { &*Arc::as_ptr(&a) }
    }

    pub fn start(&mut self, entry: u32, params: Vec<u64>, replay: Vec<u64>) -> State {
        self.params = params;
        self.replay = replay;
        self.replay_pos = 0;
        let f = self.fbody(entry);
        State {
            frames: vec![Frame {
                f,
                bb: 0,
                ip: 0,
                regs: vec![Val::I(0); f.nregs as usize],
                stack_base: 0,
                catch: false,
            }],
            parked: vec![(vec![], 0)],
            mem: Mem::new(),
            pc: vec![],
            facts: Rc::new(HashMap::new()),
            conc: Rc::new(HashMap::new()),
            order: Rc::new(vec![]),
            vars: vec![],
            inputs: vec![],
            observed: vec![],
            model: Rc::new(vec![]),
            decs: None,
            ndecs: 0,
            deepest: 0,
            panicking: 0,
            steps: 0,
            nchecks: 0,
            forks: 0,
        }
    }

    // ---------------------------------------------------------------- decisions

    fn push_dec(&mut self, s: &mut State, v: u64) {
        self.st.decisions += 1;
        s.decs = Some(Rc::new(Dec { v, prev: s.decs.take() }));
        s.ndecs += 1;
    }

    fn next_replay(&mut self) -> Option<u64> {
        if self.replay_pos < self.replay.len() {
            self.replay_pos += 1;
            Some(self.replay[self.replay_pos - 1])
        } else {
            None
        }
    }

    /// Follows recorded order facts from `from`: is `to` reachable through `<=` edges (and through one `<`)?
    fn order(&self, s: &State, from: Eid, to: Eid) -> (bool, bool) {
        // (le, lt)
        let mut seen: Vec<(Eid, bool)> = vec![(from, false)];
        let mut i = 0;
        while i < seen.len() {
            let (x, strict) = seen[i];
            i += 1;
            for &(a, b, st) in s.order.iter() {
                if a == x {
                    let n = strict || st;
                    if !seen.iter().any(|e| e.0 == b && (e.1 || !n)) {
                        seen.push((b, n));
                    }
                }
            }
        }
        let le = seen.iter().any(|e| e.0 == to);
        let lt = seen.iter().any(|e| e.0 == to && e.1);
        (le, lt)
    }

    fn known(&mut self, s: &State, c: Eid) -> Option<bool> {
        if let Some(k) = self.ar.as_const(c) {
            return Some(k != 0);
        }
        if let Some(&b) = s.facts.get(&c) {
            return Some(b);
        }
        let n = *self.ar.n(c);
        match n.op {
            Op::Not => self.known(s, n.a).map(|b| !b),
            Op::Ult => {
                let r = self.ar.ult(n.b, n.a);
                if s.facts.get(&r) == Some(&true) {
                    return Some(false);
                }
                let e = self.ar.eq(n.a, n.b);
                match (s.facts.get(&e), s.facts.get(&r)) {
                    (Some(true), _) => return Some(false),
                    (Some(false), Some(false)) => return Some(true),
                    _ => {}
                }
                if self.order(s, n.b, n.a).0 {
                    return Some(false);
                }
                let (le, lt) = self.order(s, n.a, n.b);
                if lt || (le && s.facts.get(&e) == Some(&false)) {
                    return Some(true);
                }
                None
            }
            Op::Eq => {
                let x = self.ar.ult(n.a, n.b);
                let y = self.ar.ult(n.b, n.a);
                let (fx, fy) = (s.facts.get(&x).copied(), s.facts.get(&y).copied());
                if fx == Some(true) || fy == Some(true) {
                    return Some(false);
                }
                if fx == Some(false) && fy == Some(false) {
                    return Some(true);
                }
                if s.order.is_empty() {
                    return None;
                }
                let (le, lt) = self.order(s, n.a, n.b);
                let (ge, gt) = self.order(s, n.b, n.a);
                if lt || gt {
                    return Some(false);
                }
                if le && ge {
                    return Some(true);
                }
                None
            }
            Op::And if n.w == 1 => match (self.known(s, n.a), self.known(s, n.b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Or if n.w == 1 => match (self.known(s, n.a), self.known(s, n.b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            _ => None,
        }
    }

    fn learn(&mut self, s: &mut State, c: Eid, v: bool) {
        let n = *self.ar.n(c);
        match n.op {
            Op::Const => {}
            Op::Not => self.learn(s, n.a, !v),
            Op::And if n.w == 1 && v => {
                self.learn(s, n.a, true);
                self.learn(s, n.b, true);
            }
            Op::Or if n.w == 1 && !v => {
                self.learn(s, n.a, false);
                self.learn(s, n.b, false);
            }
            _ => {}
        }
        match (n.op, v) {
            (Op::Ult, true) => Rc::make_mut(&mut s.order).push((n.a, n.b, true)),
            (Op::Ult, false) => Rc::make_mut(&mut s.order).push((n.b, n.a, false)),
            (Op::Eq, true) if self.ar.as_const(n.b).is_none() => {
                let o = Rc::make_mut(&mut s.order);
                o.push((n.a, n.b, false));
                o.push((n.b, n.a, false));
            }
            _ => {}
        }
        if n.op != Op::Not && n.op != Op::Const {
            Rc::make_mut(&mut s.facts).insert(c, v);
        }
    }

    fn assume(&mut self, s: &mut State, c: Eid) {
        if c == TRUE {
            return;
        }
        self.learn(s, c, true);
        s.pc.push(c);
    }

    fn eval_model(&self, s: &State, e: Eid) -> u128 {
        let mut memo = HashMap::new();
        self.ar.eval(e, &s.model, &mut memo)
    }

    fn query(&mut self, s: &State, c: Eid) -> (Res, Vec<u64>) {
        let r = self.solver.check(&self.ar, &s.pc, c, &s.vars);
        if r.0 == Res::Unknown {
            self.st.unknown += 1;
        }
        if r.0 == Res::Sat && cfg!(debug_assertions) {
            let mut memo = HashMap::new();
            for &e in s.pc.iter().chain([&c]) {
                assert_eq!(self.ar.eval(e, &r.1, &mut memo), 1, "model does not satisfy the path condition");
            }
        }
        r
    }

    /// Truth value of a width-1 expression on this path; forks when both are possible.
    fn decide(&mut self, s: &mut State, c: Eid) -> R<bool> {
        if let Some(b) = self.known(s, c) {
            return Ok(b);
        }
        let nc = self.ar.not(c);
        if let Some(v) = self.next_replay() {
            let b = v & 1 != 0;
            self.push_dec(s, v);
            let e = if b { c } else { nc };
            if v & 2 != 0 {
                self.learn(s, e, true); // was forced
            } else {
                self.assume(s, e);
            }
            if self.replay_pos == self.replay.len() {
                self.refresh_model(s)?;
            }
            return Ok(b);
        }
        let b = self.eval_model(s, c) != 0;
        self.st.model_hits += 1;
        let (mine, other) = if b { (c, nc) } else { (nc, c) };
        match self.query(s, other) {
            (Res::Unsat, _) => {
                self.push_dec(s, b as u64 | 2);
                self.learn(s, mine, true);
                Ok(b)
            }
            (Res::Sat, m) => {
                self.st.forks += 1;
                let mut o = s.clone();
                o.model = Rc::new(m);
                self.push_dec(&mut o, !b as u64);
                self.assume(&mut o, other);
                self.pending.push(o);
                self.push_dec(s, b as u64);
                self.assume(s, mine);
                Ok(b)
            }
            (Res::Unknown, _) => {
                self.push_dec(s, b as u64);
                self.assume(s, mine);
                Ok(b)
            }
        }
    }

    fn refresh_model(&mut self, s: &mut State) -> R<()> {
        match self.query(s, TRUE) {
            (Res::Sat, m) => {
                s.model = Rc::new(m);
                Ok(())
            }
            (Res::Unsat, _) => Err(Stop::End(End::Infeasible)),
            _ => err("solver gave no model for a path prefix"),
        }
    }

    /// A concrete value for `e` on this path; forks over all feasible values.
    fn concretize(&mut self, s: &mut State, e: Eid) -> R<u64> {
        if let Some(k) = self.ar.as_const(e) {
            return Ok(k as u64);
        }
        if let Some(&v) = s.conc.get(&e) {
            return Ok(v);
        }
        let w = self.ar.w(e);
        if let Some(v) = self.next_replay() {
            self.push_dec(s, v);
            self.fix(s, e, v, w);
            if self.replay_pos == self.replay.len() {
                self.refresh_model(s)?;
            }
            return Ok(v);
        }
        // enumerate feasible values
        let mut vals: Vec<(u64, Rc<Vec<u64>>)> = vec![(self.eval_model(s, e) as u64, s.model.clone())];
        let npc = s.pc.len();
        loop {
            let last = vals.last().unwrap().0;
            let k = self.ar.konst(last as u128, w);
            let q = self.ar.eq(e, k);
            let ne = self.ar.not(q);
            s.pc.push(ne);
            match self.query(s, TRUE) {
                (Res::Sat, m) => {
                    let mut memo = HashMap::new();
                    let v = self.ar.eval(e, &m, &mut memo) as u64;
                    vals.push((v, Rc::new(m)));
                    if vals.len() > self.lim.conc {
                        s.pc.truncate(npc);
                        return err("too many feasible values for a concretised expression");
                    }
                }
                (Res::Unsat, _) => break,
                (Res::Unknown, _) => break,
            }
        }
        s.pc.truncate(npc);
        if vals.len() > 1 {
            self.st.forks += vals.len() as u64 - 1;
        }
        let (v0, m0) = vals[0].clone();
        for (v, m) in vals.into_iter().skip(1).rev() {
            let mut o = s.clone();
            o.model = m;
            self.push_dec(&mut o, v);
            self.fix(&mut o, e, v, w);
            self.pending.push(o);
        }
        s.model = m0;
        self.push_dec(s, v0);
        self.fix(s, e, v0, w);
        Ok(v0)
    }

    fn fix(&mut self, s: &mut State, e: Eid, v: u64, w: u16) {
        let k = self.ar.konst(v as u128, w);
        let q = self.ar.eq(e, k);
        self.assume(s, q);
        Rc::make_mut(&mut s.conc).insert(e, v);
    }

    // ---------------------------------------------------------------- values

    fn get(&self, s: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => s.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::C(v) => v.clone(),
        }
    }

    fn ex(&mut self, v: &Val, w: u32) -> Eid {
        match v {
            Val::I(x) => self.ar.konst(*x as u128, w as u16),
            Val::W(x) => self.ar.konst(**x, w as u16),
            Val::E(e) => {
                debug_assert_eq!(self.ar.w(*e) as u32, w);
                *e
            }
            Val::A(_) => panic!("aggregate used as a scalar"),
        }
    }

    fn val(&self, e: Eid) -> Val {
        let n = self.ar.n(e);
        if n.op == Op::Const {
            wide(n.k, n.w as u32)
        } else {
            Val::E(e)
        }
    }

    fn addr(&mut self, s: &mut State, o: &Opd) -> R<u64> {
        match self.get(s, o) {
            Val::I(x) => Ok(x),
            Val::E(e) => self.concretize(s, e),
            v => err(format!("bad pointer value {v:?}")),
        }
    }

    fn num(&mut self, s: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::E(e) => self.concretize(s, *e),
            Val::W(x) => Ok(**x as u64),
            v => err(format!("bad scalar {v:?}")),
        }
    }

    fn set(&self, s: &mut State, dst: u32, v: Val) {
        s.frames.last_mut().unwrap().regs[dst as usize] = v;
    }

    fn bin1(&mut self, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = m64(w);
                let r = match op {
                    Bin::Add => x.wrapping_add(y) & m,
                    Bin::Sub => x.wrapping_sub(y) & m,
                    Bin::Mul => x.wrapping_mul(y) & m,
                    Bin::And => x & y,
                    Bin::Or => x | y,
                    Bin::Xor => x ^ y,
                    Bin::Shl if y < w as u64 => (x << y) & m,
                    Bin::LShr if y < w as u64 => x >> y,
                    Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 => {
                        return viol("ub", "division by zero");
                    }
                    Bin::UDiv => x / y,
                    Bin::URem => x % y,
                    _ => {
                        let o = binop(op);
                        apply(o, w as u16, w as u16, x as u128, y as u128, 0, 0) as u64
                    }
                };
                return Ok(Val::I(r));
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.ar.bin(binop(op), x, y);
        Ok(self.val(e))
    }

    fn icmp1(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let sx = |v: u64| crate::expr::sext(v as u128, w as u16) as i64;
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx(x) > sx(y),
                Pred::Sge => sx(x) >= sx(y),
                Pred::Slt => sx(x) < sx(y),
                Pred::Sle => sx(x) <= sx(y),
            };
            return Val::I(r as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let ar = &mut self.ar;
        let e = match p {
            Pred::Eq => ar.eq(x, y),
            Pred::Ne => {
                let t = ar.eq(x, y);
                ar.not(t)
            }
            Pred::Ugt => ar.ult(y, x),
            Pred::Ult => ar.ult(x, y),
            Pred::Uge => {
                let t = ar.ult(x, y);
                ar.not(t)
            }
            Pred::Ule => {
                let t = ar.ult(y, x);
                ar.not(t)
            }
            Pred::Sgt => ar.slt(y, x),
            Pred::Slt => ar.slt(x, y),
            Pred::Sge => {
                let t = ar.slt(x, y);
                ar.not(t)
            }
            Pred::Sle => {
                let t = ar.slt(y, x);
                ar.not(t)
            }
        };
        self.val(e)
    }

    /// Comparisons of symbolic bit sets with zero.
    fn set_icmp(&mut self, s: &mut State, p: Pred, w: u32, a: &Val, b: &Val) -> R<Option<bool>> {
        let e = match (a, b) {
            (Val::E(e), Val::I(0)) | (Val::I(0), Val::E(e)) if w >= 8 && w <= 64 => *e,
            _ => return Ok(None),
        };
        if !matches!(p, Pred::Eq | Pred::Ne) {
            return Ok(None);
        }
        let empty = match self.set_is_empty(s, e)? {
            Some(x) => x,
            None => match self.set_bit(s, e)? {
                Some(x) => !x,
                None => return Ok(None),
            },
        };
        Ok(Some(empty == (p == Pred::Eq)))
    }

    fn lane(v: &Val, i: usize) -> Val {
        match v {
            Val::A(a) => a[i].clone(),
            _ => v.clone(),
        }
    }

    fn ite(&mut self, c: Eid, a: &Val, b: &Val, w: u32) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                // field widths are unknown here; callers only use this for equal shapes of known width
                let v: Vec<Val> = x.iter().zip(y.iter()).map(|(p, q)| self.ite(c, p, q, w)).collect();
                Val::A(v.into())
            }
            _ => {
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let e = self.ar.ite(c, x, y);
                self.val(e)
            }
        }
    }

    fn cast1(&mut self, k: CastK, fw: u32, tw: u32, a: &Val) -> Val {
        match a {
            Val::I(x) if fw <= 64 && tw <= 64 => match k {
                CastK::Trunc => Val::I(x & m64(tw)),
                CastK::ZExt | CastK::Bit => Val::I(*x),
                CastK::SExt => Val::I(crate::expr::sext(*x as u128, fw as u16) as u64 & m64(tw)),
            },
            _ => {
                let e = self.ex(a, fw);
                let r = match k {
                    CastK::Trunc => self.ar.extract(e, 0, tw as u16),
                    CastK::ZExt => self.ar.zext(e, tw as u16),
                    CastK::SExt => self.ar.sext(e, tw as u16),
                    CastK::Bit => e,
                };
                self.val(r)
            }
        }
    }

    // ---------------------------------------------------------------- memory

    fn load(&mut self, s: &State, ty: &Ty, addr: u64) -> R<Val> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = ty.bits();
                let n = ty.size();
                let (wh, off) = s.mem.locate(addr, n, self.p)?;
                let ar = &mut self.ar;
                let v = s.mem.with(&wh, self.p, |d, sym| {
                    if !sym.is_empty() {
                        let o = off as u32;
                        let i = sym.partition_point(|x| x.off + x.len as u32 <= o);
                        if let Some(c) = sym.get(i) {
                            if c.off < o + n as u32 {
                                let e = if c.off == o && c.len as u64 == n {
                                    c.e
                                } else if c.off <= o && c.off + c.len as u32 >= o + n as u32 {
                                    ar.extract(c.e, ((o - c.off) * 8) as u16, (n * 8) as u16)
                                } else {
                                    let mut e = byte_at(d, sym, o, ar);
                                    for k in 1..n as u32 {
                                        let b = byte_at(d, sym, o + k, ar);
                                        e = ar.concat(b, e);
                                    }
                                    e
                                };
                                let e = if w as u64 != n * 8 { ar.extract(e, 0, w as u16) } else { e };
                                return Err(e);
                            }
                        }
                    }
                    if n == 8 {
                        Ok(u64::from_le_bytes(d[off..off + 8].try_into().unwrap()) as u128)
                    } else {
                        let mut b = [0u8; 16];
                        b[..n as usize].copy_from_slice(&d[off..off + n as usize]);
                        Ok(u128::from_le_bytes(b))
                    }
                });
                Ok(match v {
                    Ok(x) => wide(x, w),
                    Err(e) => self.val(e),
                })
            }
            Ty::Agg(fs, _) => {
                let mut v = Vec::with_capacity(fs.len());
                for (o, t) in fs.iter() {
                    v.push(self.load(s, t, addr + o)?);
                }
                Ok(Val::A(v.into()))
            }
            Ty::Vec(n, e) => {
                if e.bits() % 8 != 0 {
                    return err("load of a bit vector");
                }
                let es = e.size();
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n as u64 {
                    v.push(self.load(s, e, addr + i * es)?);
                }
                Ok(Val::A(v.into()))
            }
            _ => err("load of an unsupported type"),
        }
    }

    fn store(&mut self, s: &mut State, ty: &Ty, v: &Val, addr: u64) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let n = ty.size();
                let (wh, off) = s.mem.locate(addr, n, self.p)?;
                if !s.mem.writable(&wh, self.p) {
                    return viol("memory", "write to constant memory");
                }
                let o = s.mem.obj_mut(&wh, self.p);
                match v {
                    Val::I(_) | Val::W(_) => {
                        let x = match v {
                            Val::I(x) => *x as u128,
                            Val::W(x) => **x,
                            _ => unreachable!(),
                        };
                        o.data[off..off + n as usize].copy_from_slice(&x.to_le_bytes()[..n as usize]);
                        clear_sym(o, off as u32, n as u32, &mut self.ar);
                    }
                    Val::E(e) => {
                        let e = self.ar.zext(*e, (n * 8) as u16);
                        clear_sym(o, off as u32, n as u32, &mut self.ar);
                        put_sym(o, Cell { off: off as u32, len: n as u8, e });
                    }
                    Val::A(_) => return err("aggregate stored as a scalar"),
                }
                Ok(())
            }
            Ty::Agg(fs, _) => {
                let Val::A(a) = v else { return err("bad aggregate") };
                for (i, (o, t)) in fs.iter().enumerate() {
                    self.store(s, t, &a[i], addr + o)?;
                }
                Ok(())
            }
            Ty::Vec(n, e) => {
                if e.bits() % 8 != 0 {
                    return err("store of a bit vector");
                }
                let es = e.size();
                for i in 0..*n as u64 {
                    let x = Self::lane(v, i as usize);
                    self.store(s, e, &x, addr + i * es)?;
                }
                Ok(())
            }
            _ => err("store of an unsupported type"),
        }
    }

    fn read_range(&mut self, s: &State, addr: u64, len: u64) -> R<(Vec<u8>, Vec<Cell>)> {
        let (wh, off) = s.mem.locate(addr, len, self.p)?;
        let ar = &mut self.ar;
        Ok(s.mem.with(&wh, self.p, |d, sym| {
            let data = d[off..off + len as usize].to_vec();
            let mut cells = vec![];
            let (lo, hi) = (off as u32, off as u32 + len as u32);
            for c in sym {
                let ce = c.off + c.len as u32;
                if ce <= lo || c.off >= hi {
                    continue;
                }
                if c.off >= lo && ce <= hi {
                    cells.push(Cell { off: c.off - lo, ..*c });
                } else {
                    for b in 0..c.len as u32 {
                        let at = c.off + b;
                        if at >= lo && at < hi {
                            let e = ar.extract(c.e, (b * 8) as u16, 8);
                            cells.push(Cell { off: at - lo, len: 1, e });
                        }
                    }
                }
            }
            (data, cells)
        }))
    }

    fn memcpy(&mut self, s: &mut State, d: u64, src: u64, len: u64) -> R<()> {
        if len == 0 {
            return Ok(());
        }
        let (data, cells) = self.read_range(s, src, len)?;
        let (wh, off) = s.mem.locate(d, len, self.p)?;
        if !s.mem.writable(&wh, self.p) {
            return viol("memory", "write to constant memory");
        }
        let o = s.mem.obj_mut(&wh, self.p);
        o.data[off..off + len as usize].copy_from_slice(&data);
        clear_sym(o, off as u32, len as u32, &mut self.ar);
        for c in cells {
            put_sym(o, Cell { off: c.off + off as u32, ..c });
        }
        Ok(())
    }

    fn memset(&mut self, s: &mut State, d: u64, v: &Val, len: u64) -> R<()> {
        if len == 0 {
            return Ok(());
        }
        let (wh, off) = s.mem.locate(d, len, self.p)?;
        if !s.mem.writable(&wh, self.p) {
            return viol("memory", "write to constant memory");
        }
        let o = s.mem.obj_mut(&wh, self.p);
        clear_sym(o, off as u32, len as u32, &mut self.ar);
        match v {
            Val::I(x) => o.data[off..off + len as usize].fill(*x as u8),
            Val::E(e) => {
                for i in 0..len as u32 {
                    put_sym(o, Cell { off: off as u32 + i, len: 1, e: *e });
                }
            }
            _ => return err("memset with a wide value"),
        }
        Ok(())
    }

    // ---------------------------------------------------------------- control

    fn jump(&mut self, s: &mut State, bb: u32) {
        let fr = s.frames.last_mut().unwrap();
        let from = fr.bb;
        let b = &fr.f.blocks[bb as usize];
        if b.nphi > 0 {
            for (p, moves) in b.phis.iter() {
                if *p == from {
                    if moves.len() == 1 {
                        let v = match &moves[0].1 {
                            Opd::R(r) => fr.regs[*r as usize].clone(),
                            Opd::C(v) => v.clone(),
                        };
                        fr.regs[moves[0].0 as usize] = v;
                    } else {
                        let vs: Vec<Val> = moves
                            .iter()
                            .map(|(_, o)| match o {
                                Opd::R(r) => fr.regs[*r as usize].clone(),
                                Opd::C(v) => v.clone(),
                            })
                            .collect();
                        for ((d, _), v) in moves.iter().zip(vs) {
                            fr.regs[*d as usize] = v;
                        }
                    }
                    break;
                }
            }
        }
        fr.bb = bb;
        fr.ip = 0;
    }

    fn pop_frame(&mut self, s: &mut State) -> Frame {
        let mut fr = s.frames.pop().unwrap();
        s.mem.stack.truncate(fr.stack_base as usize);
        let mut regs = std::mem::take(&mut fr.regs);
        regs.clear();
        if self.pool.len() < 64 {
            self.pool.push(regs);
        }
        fr
    }

    fn push_call(&mut self, s: &mut State, id: u32, args: Vec<Val>, catch: bool) -> R<()> {
        let slot = &self.p.funcs[id as usize];
        if slot.decl {
            return err(format!("call of external function {}", slot.name));
        }
        if s.frames.len() >= self.lim.depth {
            return viol("stack-overflow", format!("call depth {} in {}", s.frames.len(), slot.name));
        }
        let f = self.fbody(id);
        let mut regs = self.pool.pop().unwrap_or_default();
        regs.reserve(f.nregs as usize);
        regs.extend(args.into_iter().take(f.nparams as usize));
        regs.resize(f.nregs as usize, Val::I(0));
        s.frames.push(Frame { f, bb: 0, ip: 0, regs, stack_base: s.mem.stack.len() as u32, catch });
        s.deepest = s.deepest.max(s.frames.len() as u32);
        Ok(())
    }

    /// The instruction the top frame is at has completed with `v`.
    fn complete_call(&mut self, s: &mut State, v: Option<Val>) {
        let fr = s.frames.last_mut().unwrap();
        let inst = &fr.f.blocks[fr.bb as usize].insts[fr.ip as usize];
        if let Inst::Call { dst, invoke, .. } = inst {
            if let Some(v) = v {
                fr.regs[*dst as usize] = v;
            }
            match invoke {
                Some((n, _)) => {
                    let n = *n;
                    self.jump(s, n)
                }
                None => fr.ip += 1,
            }
        } else {
            unreachable!();
        }
    }

    fn backtrace(s: &State) -> String {
        let mut v: Vec<String> = vec![];
        for fr in s.frames.iter().rev().take(12) {
            v.push(demangle(&fr.f.name));
        }
        v.join(" < ")
    }

    fn unwind(&mut self, s: &mut State) -> R<()> {
        let bt = Self::backtrace(s);
        loop {
            let fr = s.frames.last().unwrap();
            let inst = &fr.f.blocks[fr.bb as usize].insts[fr.ip as usize];
            if let Inst::Call { invoke: Some((_, u)), .. } = inst {
                let u = *u;
                self.jump(s, u);
                return Ok(());
            }
            let fr = self.pop_frame(s);
            if s.frames.is_empty() {
                return viol("panic", format!("uncaught panic at {bt}"));
            }
            if fr.catch {
                s.panicking -= 1;
                self.complete_call(s, Some(Val::I(1)));
                return Ok(());
            }
        }
    }

    fn panic(&mut self, s: &mut State) -> R<()> {
        if s.panicking > 0 {
            return viol("abort", format!("panic while panicking at {}", Self::backtrace(s)));
        }
        s.panicking += 1;
        self.unwind(s)
    }

    /// Runs one path to its end; siblings are left on `self.pending`.
    pub fn run(&mut self, s: &mut State) -> End {
        let steps0 = s.steps;
        loop {
            match self.step(s) {
                Ok(()) => {}
                Err(Stop::End(e)) => {
                    self.st.insts += s.steps - steps0;
                    return match e {
                        End::Violation(mut v) => {
                            v.at = Self::backtrace(s);
                            if v.inputs.is_empty() {
                                v.inputs = self.inputs_of(s, &s.model.clone());
                            }
                            End::Violation(v)
                        }
                        End::Error(m) => End::Error(format!("{m} [{}]", Self::backtrace(s))),
                        e => e,
                    };
                }
            }
        }
    }

    pub fn inputs_of(&self, s: &State, model: &[u64]) -> Vec<u64> {
        s.inputs
            .iter()
            .map(|i| match i {
                Input::Conc(v) => *v,
                Input::Sym(k) => model.get(*k as usize).copied().unwrap_or(0) & m64(s.vars[*k as usize] as u32),
            })
            .collect()
    }

    pub fn observed_of(&self, s: &State) -> Vec<u64> {
        let mut memo = HashMap::new();
        s.observed
            .iter()
            .map(|v| match v {
                Val::I(x) => *x,
                Val::E(e) => self.ar.eval(*e, &s.model, &mut memo) as u64,
                _ => 0,
            })
            .collect()
    }

    fn step(&mut self, s: &mut State) -> R<()> {
        s.steps += 1;
        if s.steps > self.lim.steps {
            return viol("hang", format!("more than {} instructions on one path", self.lim.steps));
        }
        let fr = s.frames.last().unwrap();
        let f: &'static Func = fr.f;
        let insts = &f.blocks[fr.bb as usize].insts;
        if fr.ip as usize >= insts.len() {
            return err(format!("block without terminator: {:?}", insts.last()));
        }
        let inst: &'static Inst = &insts[fr.ip as usize];
        match inst {
            Inst::Bin { op, w, lanes, a, b, dst } => {
                let (x, y) = (self.get(s, a), self.get(s, b));
                if *lanes > 1 {
                    let mut v = vec![];
                    for i in 0..*lanes as usize {
                        v.push(self.bin1(*op, *w, &Self::lane(&x, i), &Self::lane(&y, i))?);
                    }
                    self.set(s, *dst, Val::A(v.into()));
                } else {
                    if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
                        if let Val::E(e) = y {
                            let z = self.ar.konst(0, *w as u16);
                            let c = self.ar.eq(e, z);
                            if self.decide(s, c)? {
                                return viol("ub", "division by zero");
                            }
                        }
                    }
                    let v = self.bin1(*op, *w, &x, &y)?;
                    self.set(s, *dst, v);
                }
            }
            Inst::Icmp { pred, w, lanes, a, b, dst } => {
                let (x, y) = (self.get(s, a), self.get(s, b));
                let v = if *lanes > 1 {
                    let v: Vec<Val> = (0..*lanes as usize)
                        .map(|i| self.icmp1(*pred, *w, &Self::lane(&x, i), &Self::lane(&y, i)))
                        .collect();
                    Val::A(v.into())
                } else {
                    match self.set_icmp(s, *pred, *w, &x, &y)? {
                        Some(b) => Val::I(b as u64),
                        None => self.icmp1(*pred, *w, &x, &y),
                    }
                };
                self.set(s, *dst, v);
            }
            Inst::Select { c, clanes, a, b, w, lanes, agg, dst } => {
                let cv = self.get(s, c);
                let v = if *clanes > 1 {
                    let (x, y) = (self.get(s, a), self.get(s, b));
                    let mut v = vec![];
                    for i in 0..*clanes as usize {
                        v.push(match Self::lane(&cv, i) {
                            Val::I(k) => Self::lane(if k != 0 { &x } else { &y }, i),
                            Val::E(e) => self.ite(e, &Self::lane(&x, i), &Self::lane(&y, i), *w),
                            _ => return err("bad select"),
                        });
                    }
                    Val::A(v.into())
                } else {
                    match cv {
                        Val::I(k) => self.get(s, if k != 0 { a } else { b }),
                        Val::E(e) => {
                            if *agg {
                                if self.decide(s, e)? {
                                    self.get(s, a)
                                } else {
                                    self.get(s, b)
                                }
                            } else {
                                let _ = lanes;
                                let (x, y) = (self.get(s, a), self.get(s, b));
                                match self.known(s, e) {
                                    Some(true) => x,
                                    Some(false) => y,
                                    None => self.ite(e, &x, &y, *w),
                                }
                            }
                        }
                        _ => return err("bad select"),
                    }
                };
                self.set(s, *dst, v);
            }
            Inst::Cast { k, from, to, a, dst } => {
                let x = self.get(s, a);
                let v = if *k == CastK::Bit && (from.lanes() > 1 || to.lanes() > 1) {
                    // reinterpret through a flat bit string
                    let (fw, tw) = (from.bits(), to.bits());
                    let mut e = None;
                    for i in 0..from.lanes() as usize {
                        let l = self.ex(&Self::lane(&x, i), fw);
                        e = Some(match e {
                            None => l,
                            Some(p) => self.ar.concat(l, p),
                        });
                    }
                    let e = e.unwrap();
                    if self.ar.w(e) > 128 {
                        return err("wide bitcast");
                    }
                    if to.lanes() > 1 {
                        let v: Vec<Val> = (0..to.lanes())
                            .map(|i| {
                                let x = self.ar.extract(e, (i * tw) as u16, tw as u16);
                                self.val(x)
                            })
                            .collect();
                        Val::A(v.into())
                    } else {
                        self.val(e)
                    }
                } else if from.lanes() > 1 {
                    let v: Vec<Val> = (0..from.lanes() as usize)
                        .map(|i| self.cast1(*k, from.bits(), to.bits(), &Self::lane(&x, i)))
                        .collect();
                    Val::A(v.into())
                } else {
                    let mut v = self.cast1(*k, from.bits(), to.bits(), &x);
                    if let (Val::E(e), 1) = (&v, to.bits()) {
                        if let Some(b) = self.set_bit(s, *e)? {
                            v = Val::I(b as u64);
                        }
                    }
                    v
                };
                self.set(s, *dst, v);
            }
            Inst::Load { ty, p, dst } => {
                let a = self.addr(s, p)?;
                let v = self.load(s, ty, a)?;
                self.set(s, *dst, v);
            }
            Inst::Store { ty, v, p } => {
                let a = self.addr(s, p)?;
                let x = self.get(s, v);
                self.store(s, ty, &x, a)?;
            }
            Inst::Gep { base, off, idx, dst } => {
                let b = self.get(s, base);
                let mut conc = true;
                let mut acc = match b {
                    Val::I(x) => x,
                    _ => {
                        conc = false;
                        0
                    }
                };
                if conc {
                    acc = acc.wrapping_add(*off as u64);
                    for (o, w, sc) in idx {
                        match self.get(s, o) {
                            Val::I(x) => {
                                let x = crate::expr::sext(x as u128, *w as u16) as i64;
                                acc = acc.wrapping_add(x.wrapping_mul(*sc) as u64);
                            }
                            _ => {
                                conc = false;
                                break;
                            }
                        }
                    }
                }
                let v = if conc {
                    Val::I(acc)
                } else {
                    let mut e = self.ex(&b, 64);
                    let k = self.ar.konst(*off as u64 as u128, 64);
                    e = self.ar.bin(Op::Add, e, k);
                    for (o, w, sc) in idx {
                        let x = self.get(s, o);
                        let x = self.ex(&x, *w);
                        let x = if *w < 64 { self.ar.sext(x, 64) } else { self.ar.extract(x, 0, 64) };
                        let k = self.ar.konst(*sc as u64 as u128, 64);
                        let x = self.ar.bin(Op::Mul, x, k);
                        e = self.ar.bin(Op::Add, e, x);
                    }
                    self.val(e)
                };
                self.set(s, *dst, v);
            }
            Inst::Alloca { size, dst } => {
                let a = s.mem.push_stack(*size);
                self.set(s, *dst, Val::I(a));
            }
            Inst::Call { callee, args, rty, dst, .. } => return self.call(s, callee, args, rty, *dst),
            Inst::Ret(v) => {
                let v = v.as_ref().map(|o| self.get(s, o));
                let fr = self.pop_frame(s);
                if s.frames.is_empty() {
                    return if s.mem.tid() == 0 { Err(Stop::End(End::Done)) } else { err("a thread returned") };
                }
                if fr.catch {
                    self.complete_call(s, Some(Val::I(0)));
                } else {
                    self.complete_call(s, v);
                }
                return Ok(());
            }
            Inst::Br(b) => {
                self.jump(s, *b);
                return Ok(());
            }
            Inst::CondBr { c, t, f } => {
                let b = match self.get(s, c) {
                    Val::I(x) => x != 0,
                    Val::E(e) => self.decide(s, e)?,
                    _ => return err("bad branch"),
                };
                self.jump(s, if b { *t } else { *f });
                return Ok(());
            }
            Inst::Switch { v, w, default, cases } => {
                let mut to = *default;
                match self.get(s, v) {
                    Val::I(x) => {
                        for (k, b) in cases {
                            if *k == x {
                                to = *b;
                                break;
                            }
                        }
                    }
                    Val::E(e) => {
                        for (k, b) in cases {
                            let kk = self.ar.konst(*k as u128, *w as u16);
                            let c = self.ar.eq(e, kk);
                            if self.decide(s, c)? {
                                to = *b;
                                break;
                            }
                        }
                    }
                    Val::W(x) => {
                        for (k, b) in cases {
                            if *k as u128 == *x {
                                to = *b;
                                break;
                            }
                        }
                    }
                    _ => return err("bad switch"),
                }
                self.jump(s, to);
                return Ok(());
            }
            Inst::Unreachable => return viol("unreachable", "unreachable code reached"),
            Inst::Resume(_) => {
                let _ = self.pop_frame_for_resume(s)?;
                return Ok(());
            }
            Inst::LandingPad { dst } => {
                self.set(s, *dst, Val::A(vec![Val::I(8), Val::I(0)].into()));
            }
            Inst::ExtractValue { a, path, dst } => {
                let mut v = self.get(s, a);
                for &i in path {
                    v = match v {
                        Val::A(x) => x[i as usize].clone(),
                        _ => return err("extractvalue of a scalar"),
                    };
                }
                self.set(s, *dst, v);
            }
            Inst::InsertValue { a, v, path, dst } => {
                let a = self.get(s, a);
                let x = self.get(s, v);
                let r = insert(&a, path, x);
                self.set(s, *dst, r);
            }
            Inst::ExtractElement { a, i, dst } => {
                let a = self.get(s, a);
                let iv = self.get(s, i);
                let i = self.num(s, &iv)?;
                let Val::A(x) = a else { return err("extractelement") };
                self.set(s, *dst, x[i as usize].clone());
            }
            Inst::InsertElement { a, v, i, dst } => {
                let a = self.get(s, a);
                let iv = self.get(s, i);
                let i = self.num(s, &iv)?;
                let x = self.get(s, v);
                let r = insert(&a, &[i as u32], x);
                self.set(s, *dst, r);
            }
            Inst::Shuffle { a, b, n, mask, dst, .. } => {
                let (x, y) = (self.get(s, a), self.get(s, b));
                let v: Vec<Val> = mask
                    .iter()
                    .map(|&m| {
                        if m < 0 {
                            Self::lane(&x, 0)
                        } else if (m as u32) < *n {
                            Self::lane(&x, m as usize)
                        } else {
                            Self::lane(&y, m as usize - *n as usize)
                        }
                    })
                    .collect();
                self.set(s, *dst, Val::A(v.into()));
            }
            Inst::AtomicRmw { op, p, v, ty, dst } => {
                let a = self.addr(s, p)?;
                let w = ty.bits();
                let old = self.load(s, ty, a)?;
                let x = self.get(s, v);
                let new = match op {
                    Rmw::Xchg => x,
                    Rmw::Add => self.bin1(Bin::Add, w, &old, &x)?,
                    Rmw::Sub => self.bin1(Bin::Sub, w, &old, &x)?,
                    Rmw::And => self.bin1(Bin::And, w, &old, &x)?,
                    Rmw::Or => self.bin1(Bin::Or, w, &old, &x)?,
                    Rmw::Xor => self.bin1(Bin::Xor, w, &old, &x)?,
                    _ => return err("atomicrmw"),
                };
                self.store(s, ty, &new, a)?;
                self.set(s, *dst, old);
            }
            Inst::CmpXchg { p, cmp, new, ty, dst } => {
                let a = self.addr(s, p)?;
                let old = self.load(s, ty, a)?;
                let c = self.get(s, cmp);
                let ok = match self.icmp1(Pred::Eq, ty.bits(), &old, &c) {
                    Val::I(x) => x != 0,
                    Val::E(e) => self.decide(s, e)?,
                    _ => return err("cmpxchg"),
                };
                if ok {
                    let n = self.get(s, new);
                    self.store(s, ty, &n, a)?;
                }
                self.set(s, *dst, Val::A(vec![old, Val::I(ok as u64)].into()));
            }
            Inst::Copy { a, dst } => {
                let v = self.get(s, a);
                self.set(s, *dst, v);
            }
            Inst::Nop => {}
            Inst::Bad(m) => return err(format!("unsupported instruction: {m}")),
        }
        s.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    fn pop_frame_for_resume(&mut self, s: &mut State) -> R<()> {
        let fr = self.pop_frame(s);
        if s.frames.is_empty() {
            return viol("panic", "uncaught panic");
        }
        if fr.catch {
            s.panicking -= 1;
            self.complete_call(s, Some(Val::I(1)));
            return Ok(());
        }
        self.unwind(s)
    }

    fn call(&mut self, s: &mut State, callee: &'static Callee, args: &'static [Opd], rty: &'static Ty, dst: u32) -> R<()> {
        let id = match callee {
            Callee::Intr(k, w, lanes) => {
                let mut a: Vec<Val> = args.iter().map(|o| self.get(s, o)).collect();
                let v = self.intr(s, *k, *w, *lanes, &mut a, rty)?;
                if let Some(v) = v {
                    self.set(s, dst, v);
                }
                self.complete_call(s, None);
                return Ok(());
            }
            Callee::Asm => {
                // black_box and compiler fences
                if !matches!(rty, Ty::Void) {
                    let v = args.first().map(|o| self.get(s, o)).unwrap_or(Val::I(0));
                    self.set(s, dst, v);
                }
                self.complete_call(s, None);
                return Ok(());
            }
            Callee::Direct(id) => *id,
            Callee::Indirect(o) => {
                let a = self.addr(s, o)?;
                let id = a.wrapping_sub(FUNC_BASE) / 16;
                if a < FUNC_BASE || id >= self.p.funcs.len() as u64 || (a - FUNC_BASE) % 16 != 0 {
                    return viol("memory", format!("call of a non-function {a:#x}"));
                }
                id as u32
            }
        };
        let b = self.p.funcs[id as usize].builtin;
        let a: Vec<Val> = args.iter().map(|o| self.get(s, o)).collect();
        if b == Builtin::None {
            return self.push_call(s, id, a, false);
        }
        self.builtin(s, b, a, id)
    }

    /// Runs thread `t` from now on.
    fn switch(&mut self, s: &mut State, t: u32) -> R<()> {
        let me = s.mem.tid();
        if t == me {
            return Ok(());
        }
        if t as usize >= s.parked.len() || s.parked[t as usize].0.is_empty() {
            return err("switch to a thread that has ended");
        }
        let (frames, panicking) = std::mem::take(&mut s.parked[t as usize]);
        s.parked[me as usize] = (std::mem::replace(&mut s.frames, frames), s.panicking);
        s.panicking = panicking;
        s.mem.switch(t);
        Ok(())
    }

    fn bool_expr(&mut self, v: &Val) -> Eid {
        match v {
            Val::I(x) => (*x & 1) as Eid,
            Val::E(e) => {
                let e = *e;
                self.ar.extract(e, 0, 1)
            }
            _ => FALSE,
        }
    }

    fn builtin(&mut self, s: &mut State, b: Builtin, a: Vec<Val>, id: u32) -> R<()> {
        let ret = match b {
            Builtin::Alloc | Builtin::AllocZeroed => {
                let n = self.num(s, &a[0])?;
                let al = self.num(s, &a[1])?;
                if n >= 1 << OBJ_SHIFT {
                    return viol("oversize", format!("allocation of {n} bytes"));
                }
                let p = s.mem.alloc(n, al, if b == Builtin::Alloc { 0xA5 } else { 0 });
                Some(Val::I(p))
            }
            Builtin::Dealloc => {
                let p = self.num(s, &a[0])?;
                let n = self.num(s, &a[1])?;
                let al = self.num(s, &a[2])?;
                s.mem.free(p, n, al)?;
                None
            }
            Builtin::Realloc => {
                let p = self.num(s, &a[0])?;
                let n = self.num(s, &a[1])?;
                let al = self.num(s, &a[2])?;
                let m = self.num(s, &a[3])?;
                if m >= 1 << OBJ_SHIFT {
                    return viol("oversize", format!("allocation of {m} bytes"));
                }
                let q = s.mem.alloc(m, al, 0xA5);
                self.memcpy(s, q, p, n.min(m))?;
                s.mem.free(p, n, al)?;
                Some(Val::I(q))
            }
            Builtin::Nop => None,
            Builtin::Panic => return self.panic(s),
            Builtin::Abort => return viol("abort", format!("abort at {}", Self::backtrace(s))),
            Builtin::AllocError => return viol("abort", "allocation error"),
            Builtin::RandomKeys => Some(Val::A(vec![Val::I(0x0123_4567_89ab_cdef), Val::I(0x0fed_cba9_8765_4321)].into())),
            Builtin::Memcmp => {
                let p = self.num(s, &a[0])?;
                let q = self.num(s, &a[1])?;
                let n = self.num(s, &a[2])?;
                if n == 0 {
                    Some(Val::I(0))
                } else {
                    let (d1, c1) = self.read_range(s, p, n)?;
                    let (d2, c2) = self.read_range(s, q, n)?;
                    let mut e = self.ar.konst(0, 32);
                    let lt = self.ar.konst(0xffff_ffff, 32);
                    let gt = self.ar.konst(1, 32);
                    for i in (0..n as u32).rev() {
                        let x = byte_at(&d1, &c1, i, &mut self.ar);
                        let y = byte_at(&d2, &c2, i, &mut self.ar);
                        let eq = self.ar.eq(x, y);
                        let l = self.ar.ult(x, y);
                        let d = self.ar.ite(l, lt, gt);
                        e = self.ar.ite(eq, e, d);
                    }
                    Some(self.val(e))
                }
            }
            Builtin::Memcpy => {
                let d = self.num(s, &a[0])?;
                let q = self.num(s, &a[1])?;
                let n = self.num(s, &a[2])?;
                self.memcpy(s, d, q, n)?;
                Some(a[0].clone())
            }
            Builtin::Memset => {
                let d = self.num(s, &a[0])?;
                let n = self.num(s, &a[2])?;
                let v = self.cast1(CastK::Trunc, 32, 8, &a[1]);
                self.memset(s, d, &v, n)?;
                Some(a[0].clone())
            }
            Builtin::Strlen => {
                let p = self.num(s, &a[0])?;
                let mut n = 0;
                loop {
                    match self.load(s, &Ty::Int(8), p + n)? {
                        Val::I(0) => break,
                        Val::I(_) => n += 1,
                        _ => return err("strlen of symbolic bytes"),
                    }
                }
                Some(Val::I(n))
            }
            Builtin::SymU64 => {
                let w = self.num(s, &a[0])? as u32;
                let k = s.vars.len() as u32;
                s.vars.push(w as u16);
                s.inputs.push(Input::Sym(k));
                let v = self.ar.var(k, w as u16);
                let e = self.ar.zext(v, 64);
                Some(Val::E(e))
            }
            Builtin::SymChoice => {
                let n = self.num(s, &a[0])?;
                if n == 0 {
                    return err("sym_choice(0)");
                }
                let v = if n == 1 {
                    0
                } else if let Some(v) = self.next_replay() {
                    self.push_dec(s, v);
                    if self.replay_pos == self.replay.len() {
                        self.refresh_model(s)?;
                    }
                    v
                } else {
                    self.st.forks += n - 1;
                    for v in (1..n).rev() {
                        let mut o = s.clone();
                        self.push_dec(&mut o, v);
                        o.inputs.push(Input::Conc(v));
                        self.complete_call(&mut o, Some(Val::I(v)));
                        self.pending.push(o);
                    }
                    self.push_dec(s, 0);
                    0
                };
                s.inputs.push(Input::Conc(v));
                Some(Val::I(v))
            }
            Builtin::SymAssume => {
                let c = self.bool_expr(&a[0]);
                match self.known(s, c) {
                    Some(true) => {}
                    Some(false) => return Err(Stop::End(End::Infeasible)),
                    None => {
                        if self.replay_pos < self.replay.len() {
                            self.assume(s, c);
                        } else {
                            if self.eval_model(s, c) == 0 {
                                match self.query(s, c) {
                                    (Res::Sat, m) => s.model = Rc::new(m),
                                    (Res::Unsat, _) => return Err(Stop::End(End::Infeasible)),
                                    _ => return err("solver gave no answer for an assumption"),
                                }
                            }
                            self.assume(s, c);
                        }
                    }
                }
                None
            }
            Builtin::SymCheck => {
                let cid = self.num(s, &a[1])?;
                let c = self.bool_expr(&a[0]);
                self.st.checks += 1;
                s.nchecks += 1;
                *self.check_ids.entry(cid).or_insert(0) += 1;
                match self.known(s, c) {
                    Some(true) => {}
                    Some(false) => return viol("check", format!("check {cid} fails")),
                    None => {
                        self.st.sym_checks += 1;
                        if self.replay_pos < self.replay.len() {
                            // checked by the path this prefix was taken from
                            self.assume(s, c);
                        } else {
                            let nc = self.ar.not(c);
                            match self.query(s, nc) {
                                (Res::Unsat, _) => self.learn(s, c, true),
                                (Res::Sat, m) => {
                                    let inputs = self.inputs_of(s, &m);
                                    return Err(Stop::End(End::Violation(Violation {
                                        kind: "check".into(),
                                        msg: format!("check {cid} fails"),
                                        inputs,
                                        at: String::new(),
                                    })));
                                }
                                _ => return err("solver gave no answer for a check"),
                            }
                        }
                    }
                }
                None
            }
            Builtin::SymConcrete => {
                let v = self.num(s, &a[0])?;
                Some(Val::I(v))
            }
            Builtin::SymCover => {
                let k = self.num(s, &a[0])?;
                *self.covers.entry(k).or_insert(0) += 1;
                None
            }
            Builtin::SymTry => {
                let f = self.num(s, &a[0])?;
                let id = (f.wrapping_sub(FUNC_BASE) / 16) as u32;
                return self.push_call(s, id, vec![a[1].clone()], true);
            }
            Builtin::SymObserve => {
                s.observed.push(a[0].clone());
                None
            }
            Builtin::SymStat => {
                let k = self.num(s, &a[0])?;
                let v = match k {
                    0 => s.mem.allocs,
                    1 => s.mem.live,
                    2 => s.mem.live_bytes,
                    3 => s.frames.len() as u64 * self.stack_unit,
                    4 => s.mem.alloc_bytes,
                    5 => 1,
                    6 => s.deepest as u64 * self.stack_unit,
                    7 => {
                        s.deepest = s.frames.len() as u32;
                        0
                    }
                    _ => 0,
                };
                Some(Val::I(v))
            }
            Builtin::SymParam => {
                let k = self.num(s, &a[0])?;
                Some(Val::I(self.params.get(k as usize).copied().unwrap_or(0)))
            }
            Builtin::SymSpawn => {
                let f = self.num(s, &a[0])?;
                let id = (f.wrapping_sub(FUNC_BASE) / 16) as u32;
                let t = s.mem.new_thread();
                let f = self.fbody(id);
                let mut regs = vec![a[1].clone()];
                regs.truncate(f.nparams as usize);
                regs.resize(f.nregs as usize, Val::I(0));
                s.parked.push((vec![Frame { f, bb: 0, ip: 0, regs, stack_base: 0, catch: false }], 0));
                Some(Val::I(t as u64))
            }
            Builtin::SymSwitch => {
                let t = self.num(s, &a[0])? as u32;
                self.complete_call(s, None);
                return self.switch(s, t);
            }
            Builtin::SymExit => {
                let t = self.num(s, &a[0])? as u32;
                while !s.frames.is_empty() {
                    self.pop_frame(s);
                }
                return self.switch(s, t);
            }
            Builtin::Unsupported | Builtin::None => {
                return err(format!("unsupported builtin {}", self.p.funcs[id as usize].name))
            }
        };
        self.complete_call(s, ret);
        Ok(())
    }

    fn intr(&mut self, s: &mut State, k: Intr, w: u32, lanes: u32, a: &mut [Val], rty: &Ty) -> R<Option<Val>> {
        if lanes > 1 && !matches!(k, Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceAdd | Intr::ReduceXor) {
            let mut v = vec![];
            let et = match rty {
                Ty::Vec(_, e) => (**e).clone(),
                _ => return err(format!("vector intrinsic {k:?}")),
            };
            for i in 0..lanes as usize {
                let mut l: Vec<Val> = a.iter().map(|x| Self::lane(x, i)).collect();
                match self.intr(s, k, w, 1, &mut l, &et)? {
                    Some(x) => v.push(x),
                    None => return err("vector intrinsic"),
                }
            }
            return Ok(Some(Val::A(v.into())));
        }
        let wx = w as u16;
        Ok(match k {
            Intr::Memcpy => {
                let n = self.num(s, &a[2].clone())?;
                if n > 0 {
                    let d = self.num(s, &a[0].clone())?;
                    let q = self.num(s, &a[1].clone())?;
                    self.memcpy(s, d, q, n)?;
                }
                None
            }
            Intr::Memset => {
                let n = self.num(s, &a[2].clone())?;
                if n > 0 {
                    let d = self.num(s, &a[0].clone())?;
                    let v = a[1].clone();
                    self.memset(s, d, &v, n)?;
                }
                None
            }
            Intr::Nop => None,
            Intr::Assume => {
                // an `assume` that can be false is undefined behaviour in the program
                let c = self.bool_expr(&a[0]);
                if !self.decide(s, c)? {
                    return viol("ub", "llvm.assume violated");
                }
                None
            }
            Intr::Expect | Intr::First => Some(a[0].clone()),
            Intr::IsConstant => Some(Val::I(0)),
            Intr::ThreadLocal => Some(a[0].clone()),
            Intr::ObjectSize => Some(Val::I(u64::MAX)),
            Intr::TypeidFor => Some(Val::I(1)),
            Intr::Trap => return viol("abort", "trap"),
            Intr::Ctpop | Intr::Ctlz | Intr::Cttz | Intr::Bswap | Intr::Bitreverse | Intr::Abs => match &a[0] {
                Val::I(x) if w <= 64 => {
                    let x = *x;
                    Some(Val::I(match k {
                        Intr::Ctpop => x.count_ones() as u64,
                        Intr::Ctlz => (x.leading_zeros() - (64 - w)) as u64,
                        Intr::Cttz => (x.trailing_zeros().min(w)) as u64,
                        Intr::Bswap => x.swap_bytes() >> (64 - w),
                        Intr::Bitreverse => x.reverse_bits() >> (64 - w),
                        _ => {
                            let v = sext(x as u128, wx);
                            (v.unsigned_abs() as u64) & m64(w)
                        }
                    }))
                }
                v => {
                    let v = v.clone();
                    let e = self.ex(&v, w);
                    if k == Intr::Ctpop {
                        if let Some(n) = self.set_count(s, e)? {
                            return Ok(Some(Val::I(n)));
                        }
                    }
                    let ar = &mut self.ar;
                    let r = match k {
                        Intr::Ctpop => {
                            let mut acc = ar.konst(0, wx);
                            for i in 0..wx {
                                let b = ar.extract(e, i, 1);
                                let b = ar.zext(b, wx);
                                acc = ar.bin(Op::Add, acc, b);
                            }
                            acc
                        }
                        Intr::Cttz => {
                            let mut acc = ar.konst(w as u128, wx);
                            for i in (0..wx).rev() {
                                let b = ar.extract(e, i, 1);
                                let k = ar.konst(i as u128, wx);
                                acc = ar.ite(b, k, acc);
                            }
                            acc
                        }
                        Intr::Ctlz => {
                            let mut acc = ar.konst(w as u128, wx);
                            for i in 0..wx {
                                let b = ar.extract(e, i, 1);
                                let k = ar.konst((wx - 1 - i) as u128, wx);
                                acc = ar.ite(b, k, acc);
                            }
                            acc
                        }
                        Intr::Bswap => {
                            let mut acc = ar.extract(e, 0, 8);
                            for i in 1..wx / 8 {
                                let b = ar.extract(e, i * 8, 8);
                                acc = ar.concat(acc, b);
                            }
                            acc
                        }
                        Intr::Bitreverse => {
                            let mut acc = ar.extract(e, 0, 1);
                            for i in 1..wx {
                                let b = ar.extract(e, i, 1);
                                acc = ar.concat(acc, b);
                            }
                            acc
                        }
                        _ => {
                            let z = ar.konst(0, wx);
                            let n = ar.bin(Op::Sub, z, e);
                            let c = ar.slt(e, z);
                            ar.ite(c, n, e)
                        }
                    };
                    Some(self.val(r))
                }
            },
            Intr::UAddO | Intr::SAddO | Intr::USubO | Intr::SSubO | Intr::UMulO | Intr::SMulO => {
                if let (Val::I(x), Val::I(y)) = (&a[0], &a[1]) {
                    if w <= 64 {
                        let (x, y) = (*x, *y);
                        let (sx, sy) = (sext(x as u128, wx), sext(y as u128, wx));
                        let (r, o) = match k {
                            Intr::UAddO => {
                                let r = x as u128 + y as u128;
                                (r as u64, r > m64(w) as u128)
                            }
                            Intr::USubO => (x.wrapping_sub(y), x < y),
                            Intr::UMulO => {
                                let r = x as u128 * y as u128;
                                (r as u64, r > m64(w) as u128)
                            }
                            _ => {
                                let r = match k {
                                    Intr::SAddO => sx + sy,
                                    Intr::SSubO => sx - sy,
                                    _ => sx * sy,
                                };
                                (r as u64, sext(r as u128 & mask(wx), wx) != r)
                            }
                        };
                        return Ok(Some(Val::A(vec![Val::I(r & m64(w)), Val::I(o as u64)].into())));
                    }
                }
                let (x, y) = (self.ex(&a[0].clone(), w), self.ex(&a[1].clone(), w));
                let ar = &mut self.ar;
                let (r, o) = match k {
                    Intr::UAddO => {
                        let r = ar.bin(Op::Add, x, y);
                        let o = ar.ult(r, x);
                        (r, o)
                    }
                    Intr::USubO => {
                        let r = ar.bin(Op::Sub, x, y);
                        let o = ar.ult(x, y);
                        (r, o)
                    }
                    _ => {
                        let w2 = match k {
                            Intr::UMulO | Intr::SMulO => wx * 2,
                            _ => wx + 1,
                        };
                        if w2 > 128 {
                            return err("wide overflow arithmetic");
                        }
                        let signed = k != Intr::UMulO;
                        let (ex, ey) = if signed {
                            (ar.sext(x, w2), ar.sext(y, w2))
                        } else {
                            (ar.zext(x, w2), ar.zext(y, w2))
                        };
                        let op = match k {
                            Intr::SAddO => Op::Add,
                            Intr::SSubO => Op::Sub,
                            _ => Op::Mul,
                        };
                        let full = ar.bin(op, ex, ey);
                        let r = ar.extract(full, 0, wx);
                        let back = if signed { ar.sext(r, w2) } else { ar.zext(r, w2) };
                        let eq = ar.eq(back, full);
                        (r, ar.not(eq))
                    }
                };
                let (r, o) = (self.val(r), self.val(o));
                Some(Val::A(vec![r, o].into()))
            }
            Intr::UAddSat | Intr::USubSat => {
                let (x, y) = (self.ex(&a[0].clone(), w), self.ex(&a[1].clone(), w));
                let ar = &mut self.ar;
                let r = if k == Intr::UAddSat {
                    let r = ar.bin(Op::Add, x, y);
                    let o = ar.ult(r, x);
                    let m = ar.konst(mask(wx), wx);
                    ar.ite(o, m, r)
                } else {
                    let r = ar.bin(Op::Sub, x, y);
                    let o = ar.ult(x, y);
                    let z = ar.konst(0, wx);
                    ar.ite(o, z, r)
                };
                Some(self.val(r))
            }
            Intr::SAddSat | Intr::SSubSat => return err("signed saturating arithmetic"),
            Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax => {
                let (x, y) = (self.ex(&a[0].clone(), w), self.ex(&a[1].clone(), w));
                let ar = &mut self.ar;
                let c = if matches!(k, Intr::UMin | Intr::UMax) { ar.ult(x, y) } else { ar.slt(x, y) };
                let r = if matches!(k, Intr::UMin | Intr::SMin) { ar.ite(c, x, y) } else { ar.ite(c, y, x) };
                Some(self.val(r))
            }
            Intr::UCmp | Intr::SCmp => {
                let rw = rty.bits() as u16;
                let (x, y) = (self.ex(&a[0].clone(), w), self.ex(&a[1].clone(), w));
                let ar = &mut self.ar;
                let lt = if k == Intr::UCmp { ar.ult(x, y) } else { ar.slt(x, y) };
                let eq = ar.eq(x, y);
                let (m1, z, p1) = (ar.konst(u128::MAX, rw), ar.konst(0, rw), ar.konst(1, rw));
                let t = ar.ite(eq, z, p1);
                let r = ar.ite(lt, m1, t);
                Some(self.val(r))
            }
            Intr::Fshl | Intr::Fshr => {
                let (x, y) = (self.ex(&a[0].clone(), w), self.ex(&a[1].clone(), w));
                let c = match &a[2] {
                    Val::I(c) => (*c % w as u64) as u16,
                    v => {
                        let v = v.clone();
                        (self.num(s, &v)? % w as u64) as u16
                    }
                };
                let ar = &mut self.ar;
                let r = if c == 0 {
                    if k == Intr::Fshl {
                        x
                    } else {
                        y
                    }
                } else {
                    let left = if k == Intr::Fshl { c } else { wx - c };
                    // (x << left) | (y >> (w - left))
                    let hi = ar.extract(x, 0, wx - left);
                    let lo = ar.extract(y, wx - left, left);
                    ar.concat(hi, lo)
                };
                Some(self.val(r))
            }
            Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceAdd | Intr::ReduceXor => {
                let op = match k {
                    Intr::ReduceOr => Bin::Or,
                    Intr::ReduceAnd => Bin::And,
                    Intr::ReduceAdd => Bin::Add,
                    _ => Bin::Xor,
                };
                let mut acc = Self::lane(&a[0], 0);
                for i in 1..lanes as usize {
                    acc = self.bin1(op, w, &acc, &Self::lane(&a[0], i))?;
                }
                Some(acc)
            }
        })
    }
}

fn insert(a: &Val, path: &[u32], x: Val) -> Val {
    if path.is_empty() {
        return x;
    }
    let Val::A(v) = a else { return x };
    let mut v: Vec<Val> = v.to_vec();
    let i = path[0] as usize;
    v[i] = insert(&v[i], &path[1..], x);
    Val::A(v.into())
}

fn binop(b: Bin) -> Op {
    match b {
        Bin::Add => Op::Add,
        Bin::Sub => Op::Sub,
        Bin::Mul => Op::Mul,
        Bin::UDiv => Op::UDiv,
        Bin::SDiv => Op::SDiv,
        Bin::URem => Op::URem,
        Bin::SRem => Op::SRem,
        Bin::Shl => Op::Shl,
        Bin::LShr => Op::LShr,
        Bin::AShr => Op::AShr,
        Bin::And => Op::And,
        Bin::Or => Op::Or,
        Bin::Xor => Op::Xor,
    }
}

/// Readable approximation of a v0-mangled name.
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut i = 2;
    let mut out: Vec<&str> = vec![];
    while i < b.len() {
        if b[i] == b's' || b[i] == b'C' {
            // disambiguator s..._ : skip
            if b[i] == b's' {
                if let Some(j) = s[i..].find('_') {
                    if s[i + 1..i + j].chars().all(|c| c.is_ascii_alphanumeric()) && j < 16 {
                        i += j + 1;
                        continue;
                    }
                }
            }
            i += 1;
            continue;
        }
        if b[i].is_ascii_digit() {
            let mut j = i;
            let mut n = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if n > 0 && j + n <= b.len() {
                out.push(&s[j..j + n]);
                i = j + n;
                continue;
            }
            i = j.max(i + 1);
            continue;
        }
        i += 1;
    }
    out.dedup();
    out.truncate(8);
    out.join("::")
}
