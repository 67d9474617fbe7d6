//! Z3 through its C API: one context and one incremental solver per worker.
#![allow(non_camel_case_types)]
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, CStr, CString};
use std::time::Instant;

type P = *mut u8;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

extern "C" fn on_error(c: P, e: c_int) {
    unsafe {
        eprintln!("z3 error: {}", CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy());
    }
    std::process::exit(2);
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{a}.{b}.{c}.{d}")
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    s: P,
    stack: Vec<Eid>,
    bv: HashMap<Eid, P>,
    bl: HashMap<Eid, P>,
    vars: HashMap<(usize, u16), P>, // by (index, width)
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_us: u64,
    pub max_us: u64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, on_error);
            let s = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            Solver {
                ctx,
                s,
                stack: vec![],
                bv: HashMap::new(),
                bl: HashMap::new(),
                vars: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time_us: 0,
                max_us: 0,
            }
        }
    }

    fn sort(&self, w: u16) -> P {
        unsafe { Z3_mk_bv_sort(self.ctx, w as c_uint) }
    }

    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.ctx, a) };
        a
    }

    fn to_bv(&mut self, ar: &Arena, e: Eid) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let n = *ar.n(e);
        let c = self.ctx;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    if n.w <= 64 {
                        Z3_mk_unsigned_int64(c, n.k as u64, self.sort(n.w))
                    } else {
                        let s = CString::new(n.k.to_string()).unwrap();
                        Z3_mk_numeral(c, s.as_ptr(), self.sort(n.w))
                    }
                }
                Op::Var => {
                    let i = n.k as usize;
                    let v = Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), self.sort(n.w));
                    self.vars.insert((i, n.w), v);
                    v
                }
                Op::Not if n.w > 1 => {
                    let a = self.to_bv(ar, n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::Eq | Op::Ult | Op::Slt => {
                    let b = self.to_bool(ar, e);
                    // a result without a reference lives only until the next call
                    let o = self.keep(Z3_mk_unsigned_int64(c, 1, self.sort(1)));
                    let z = self.keep(Z3_mk_unsigned_int64(c, 0, self.sort(1)));
                    Z3_mk_ite(c, b, o, z)
                }
                Op::Not | Op::And | Op::Or | Op::Xor if n.w == 1 => {
                    let b = self.to_bool(ar, e);
                    // a result without a reference lives only until the next call
                    let o = self.keep(Z3_mk_unsigned_int64(c, 1, self.sort(1)));
                    let z = self.keep(Z3_mk_unsigned_int64(c, 0, self.sort(1)));
                    Z3_mk_ite(c, b, o, z)
                }
                Op::Ite => {
                    let i = self.to_bool(ar, n.a);
                    let t = self.to_bv(ar, n.b);
                    let f = self.to_bv(ar, n.c);
                    Z3_mk_ite(c, i, t, f)
                }
                Op::ZExt => {
                    let a = self.to_bv(ar, n.a);
                    Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.to_bv(ar, n.a);
                    Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                Op::Extract => {
                    let a = self.to_bv(ar, n.a);
                    let lo = n.k as c_uint;
                    Z3_mk_extract(c, lo + n.w as c_uint - 1, lo, a)
                }
                _ => {
                    let a = self.to_bv(ar, n.a);
                    let b = self.to_bv(ar, n.b);
                    match n.op {
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!("{:?}", n),
                    }
                }
            }
        };
        self.keep(p);
        self.bv.insert(e, p);
        p
    }

    fn to_bool(&mut self, ar: &Arena, e: Eid) -> P {
        if let Some(&p) = self.bl.get(&e) {
            return p;
        }
        let n = *ar.n(e);
        debug_assert_eq!(n.w, 1);
        let c = self.ctx;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => {
                    let a = self.to_bool(ar, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And => {
                    let v = [self.to_bool(ar, n.a), self.to_bool(ar, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.to_bool(ar, n.a), self.to_bool(ar, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    let a = self.to_bool(ar, n.a);
                    let b = self.to_bool(ar, n.b);
                    Z3_mk_xor(c, a, b)
                }
                Op::Eq => {
                    let a = self.to_bv(ar, n.a);
                    let b = self.to_bv(ar, n.b);
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult => {
                    let a = self.to_bv(ar, n.a);
                    let b = self.to_bv(ar, n.b);
                    Z3_mk_bvult(c, a, b)
                }
                Op::Slt => {
                    let a = self.to_bv(ar, n.a);
                    let b = self.to_bv(ar, n.b);
                    Z3_mk_bvslt(c, a, b)
                }
                _ => {
                    let a = self.to_bv(ar, e);
                    let o = Z3_mk_unsigned_int64(c, 1, self.sort(1));
                    Z3_mk_eq(c, a, o)
                }
            }
        };
        self.keep(p);
        self.bl.insert(e, p);
        p
    }

    fn sync(&mut self, ar: &Arena, pc: &[Eid]) {
        let mut common = 0;
        while common < self.stack.len() && common < pc.len() && self.stack[common] == pc[common] {
            common += 1;
        }
        let extra = self.stack.len() - common;
        if extra > 0 {
            unsafe { Z3_solver_pop(self.ctx, self.s, extra as c_uint) };
            self.stack.truncate(common);
        }
        for &e in &pc[common..] {
            let b = self.to_bool(ar, e);
            unsafe {
                Z3_solver_push(self.ctx, self.s);
                Z3_solver_assert(self.ctx, self.s, b);
            }
            self.stack.push(e);
        }
    }

    /// Is `pc && cond` satisfiable?  On sat also returns values for the variables (given by their widths).
    pub fn check(&mut self, ar: &Arena, pc: &[Eid], cond: Eid, vars: &[u16]) -> (Res, Vec<u64>) {
        let t0 = Instant::now();
        self.sync(ar, pc);
        let b = self.to_bool(ar, cond);
        let r;
        let mut model = vec![];
        unsafe {
            Z3_solver_push(self.ctx, self.s);
            Z3_solver_assert(self.ctx, self.s, b);
            r = match Z3_solver_check(self.ctx, self.s) {
                1 => Res::Sat,
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if r == Res::Sat {
                let m = Z3_solver_get_model(self.ctx, self.s);
                Z3_model_inc_ref(self.ctx, m);
                model = vec![0; vars.len()];
                for (i, slot) in model.iter_mut().enumerate() {
                    if let Some(v) = self.vars.get(&(i, vars[i])) {
                        let mut out: P = std::ptr::null_mut();
                        if Z3_model_eval(self.ctx, m, *v, true, &mut out) {
                            let mut x = 0u64;
                            Z3_get_numeral_uint64(self.ctx, out, &mut x);
                            *slot = x;
                        }
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
            }
            Z3_solver_pop(self.ctx, self.s, 1);
        }
        let us = t0.elapsed().as_micros() as u64;
        if us > 500_000 && std::env::var_os("VE_SLOW").is_some() {
            eprintln!("slow query {us} us {r:?}: {}", ar.show(cond, 12));
            for p in pc.iter().rev().take(6) {
                eprintln!("    pc {}", ar.show(*p, 8));
            }
        }
        self.queries += 1;
        match r {
            Res::Sat => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        self.time_us += us;
        self.max_us = self.max_us.max(us);
        (r, model)
    }

    pub fn size(&self) -> usize {
        self.bv.len() + self.bl.len()
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.s);
            Z3_del_context(self.ctx);
        }
    }
}
