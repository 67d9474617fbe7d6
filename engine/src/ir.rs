//! Decoding of LLVM bitcode into a compact instruction form.
use crate::expr::mask;
use crate::llvm::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    E(u32),
    W(Arc<u128>),
    A(Arc<[Val]>),
}

#[derive(Clone, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Agg(Arc<[(u64, Ty)]>, u64),
    Vec(u32, Box<Ty>),
    Float(u32),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            Ty::Vec(_, e) => e.bits(),
            _ => 0,
        }
    }
    pub fn lanes(&self) -> u32 {
        match self {
            Ty::Vec(n, _) => *n,
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Agg(_, s) => *s,
            Ty::Vec(n, e) => (*n as u64 * e.bits() as u64).div_ceil(8),
        }
    }
}

pub fn zero_of(t: &Ty) -> Val {
    match t {
        Ty::Int(w) if *w > 64 => Val::W(Arc::new(0)),
        Ty::Agg(fs, _) => Val::A(fs.iter().map(|(_, f)| zero_of(f)).collect()),
        Ty::Vec(n, e) => Val::A((0..*n).map(|_| zero_of(e)).collect()),
        _ => Val::I(0),
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Nand,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Intr {
    Memcpy,
    Memset,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitreverse,
    UAddO,
    SAddO,
    USubO,
    SSubO,
    UMulO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UMin,
    UMax,
    SMin,
    SMax,
    UCmp,
    SCmp,
    Fshl,
    Fshr,
    Abs,
    Assume,
    Nop,
    IsConstant,
    First,
    ThreadLocal,
    Trap,
    Expect,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    ReduceXor,
    ObjectSize,
    TypeidFor,
}

/// Functions that the engine implements instead of executing a body.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Builtin {
    None,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Nop,
    Panic,
    Abort,
    AllocError,
    RandomKeys,
    Memcmp,
    Memcpy,
    Memset,
    Strlen,
    SymU64,
    SymChoice,
    SymAssume,
    SymCheck,
    SymConcrete,
    SymCover,
    SymTry,
    SymObserve,
    SymStat,
    SymParam,
    SymSpawn,
    SymSwitch,
    SymExit,
    Unsupported,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opd),
    Intr(Intr, u32, u32), // kind, width, lanes
    Asm,
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: Bin, w: u32, lanes: u32, a: Opd, b: Opd, dst: u32 },
    Icmp { pred: Pred, w: u32, lanes: u32, a: Opd, b: Opd, dst: u32 },
    Select { c: Opd, clanes: u32, a: Opd, b: Opd, w: u32, lanes: u32, agg: bool, dst: u32 },
    Cast { k: CastK, from: Ty, to: Ty, a: Opd, dst: u32 },
    Load { ty: Ty, p: Opd, dst: u32 },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { base: Opd, off: i64, idx: Vec<(Opd, u32, i64)>, dst: u32 },
    Alloca { size: u64, dst: u32 },
    Call { callee: Callee, args: Vec<Opd>, rty: Ty, dst: u32, invoke: Option<(u32, u32)> },
    Ret(Option<Opd>),
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, w: u32, default: u32, cases: Vec<(u64, u32)> },
    Unreachable,
    Resume(Opd),
    LandingPad { dst: u32 },
    ExtractValue { a: Opd, path: Vec<u32>, dst: u32 },
    InsertValue { a: Opd, v: Opd, path: Vec<u32>, dst: u32 },
    ExtractElement { a: Opd, i: Opd, dst: u32 },
    InsertElement { a: Opd, v: Opd, i: Opd, dst: u32 },
    Shuffle { a: Opd, b: Opd, n: u32, mask: Vec<i32>, ew: u32, dst: u32 },
    AtomicRmw { op: Rmw, p: Opd, v: Opd, ty: Ty, dst: u32 },
    CmpXchg { p: Opd, cmp: Opd, new: Opd, ty: Ty, dst: u32 },
    Copy { a: Opd, dst: u32 },
    Nop,
    Bad(String),
}

pub const NODST: u32 = u32::MAX;

#[derive(Debug)]
pub struct Block {
    pub insts: Vec<Inst>,
    /// phi moves by predecessor block
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub nphi: usize,
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub nregs: u32,
    pub nparams: u32,
    pub blocks: Vec<Block>,
    pub rpds: bool,
}

pub struct FuncSlot {
    pub name: String,
    pub v: usize,
    pub decl: bool,
    pub builtin: Builtin,
    pub body: OnceLock<Arc<Func>>,
}

pub struct GlobalSlot {
    pub name: String,
    pub v: usize,
    pub size: u64,
    pub decl: bool,
    pub konst: bool,
    pub init: OnceLock<Arc<Vec<u8>>>,
}

pub const FUNC_BASE: u64 = 0x1_0000_0000;
pub const GLOBAL_BASE: u64 = 1 << 40;
pub const HEAP_BASE: u64 = 1 << 44;
pub const STACK_BASE: u64 = 1 << 46;
pub const OBJ_SHIFT: u32 = 24;

pub struct Program {
    pub funcs: Vec<FuncSlot>,
    pub globals: Vec<GlobalSlot>,
    fidx: HashMap<usize, u32>,
    gidx: HashMap<usize, u32>,
    pub by_name: HashMap<String, u32>,
    td: usize,
    lock: Mutex<()>,
}

unsafe impl Sync for Program {}
unsafe impl Send for Program {}

fn builtin_of(name: &str) -> Builtin {
    use Builtin::*;
    if let Some(s) = name.strip_prefix("sym_") {
        return match s {
            "u64" => SymU64,
            "choice" => SymChoice,
            "assume" => SymAssume,
            "check" => SymCheck,
            "concrete" => SymConcrete,
            "cover" => SymCover,
            "try" => SymTry,
            "observe" => SymObserve,
            "stat" => SymStat,
            "param" => SymParam,
            "spawn" => SymSpawn,
            "switch" => SymSwitch,
            "exit" => SymExit,
            _ => Unsupported,
        };
    }
    match name {
        "memcmp" | "bcmp" => return Memcmp,
        "memcpy" | "memmove" => return Memcpy,
        "memset" => return Memset,
        "strlen" => return Strlen,
        "abort" => return Abort,
        _ => {}
    }
    if name.contains("7___rustc") {
        if name.ends_with("12___rust_alloc") {
            return Alloc;
        }
        if name.ends_with("19___rust_alloc_zeroed") {
            return AllocZeroed;
        }
        if name.ends_with("14___rust_dealloc") {
            return Dealloc;
        }
        if name.ends_with("14___rust_realloc") {
            return Realloc;
        }
        if name.contains("___rust_no_alloc_shim_is_unstable") {
            return Nop;
        }
        if name.ends_with("17rust_begin_unwind") {
            return Panic;
        }
        if name.ends_with("10rust_panic") {
            return Panic;
        }
    }
    if name.contains("4core9panicking") {
        if name.contains("9panicking9panic_fmt") {
            return Panic;
        }
        if name.contains("panic_cannot_unwind")
            || name.contains("panic_in_cleanup")
            || name.contains("panic_nounwind")
        {
            return Abort;
        }
    }
    if name.contains("5alloc5alloc18handle_alloc_error") {
        return AllocError;
    }
    if name.contains("3std7process5abort") || name.contains("3std9panicking15panic_with_hook") {
        return Abort;
    }
    if name.contains("3std9panicking13resume_unwind") || name.contains("3std5panic13resume_unwind") {
        return Panic;
    }
    if name.contains("hashmap_random_keys") {
        return RandomKeys;
    }
    None
}

impl Program {
    pub fn load(path: &str) -> Result<Program, String> {
        let m = load_bitcode(path)?;
        let mut p = Program {
            funcs: vec![],
            globals: vec![],
            fidx: HashMap::new(),
            gidx: HashMap::new(),
            by_name: HashMap::new(),
            td: 0,
            lock: Mutex::new(()),
        };
        unsafe {
            p.td = LLVMGetModuleDataLayout(m) as usize;
            let mut f = LLVMGetFirstFunction(m);
            while !f.is_null() {
                let name = name_of(f);
                let id = p.funcs.len() as u32;
                p.fidx.insert(f as usize, id);
                p.by_name.insert(name.clone(), id);
                let builtin = builtin_of(&name);
                p.funcs.push(FuncSlot {
                    name,
                    v: f as usize,
                    decl: LLVMIsDeclaration(f) != 0,
                    builtin,
                    body: OnceLock::new(),
                });
                f = LLVMGetNextFunction(f);
            }
            let mut g = LLVMGetFirstGlobal(m);
            while !g.is_null() {
                let ty = LLVMGlobalGetValueType(g);
                let decl = LLVMIsDeclaration(g) != 0;
                let size = if decl { 8 } else { LLVMABISizeOfType(p.td as Ref, ty) };
                p.gidx.insert(g as usize, p.globals.len() as u32);
                p.globals.push(GlobalSlot {
                    name: name_of(g),
                    v: g as usize,
                    size,
                    decl,
                    konst: LLVMIsGlobalConstant(g) != 0,
                    init: OnceLock::new(),
                });
                g = LLVMGetNextGlobal(g);
            }
        }
        Ok(p)
    }

    pub fn global_init(&self, id: u32) -> Arc<Vec<u8>> {
        let g = &self.globals[id as usize];
        if let Some(b) = g.init.get() {
            return b.clone();
        }
        let _l = self.lock.lock().unwrap();
        g.init
            .get_or_init(|| {
                let mut buf = vec![0u8; g.size as usize];
                if !g.decl {
                    unsafe {
                        let init = LLVMGetInitializer(g.v as Ref);
                        self.emit(init, 0, &mut buf);
                    }
                }
                Arc::new(buf)
            })
            .clone()
    }

    unsafe fn emit(&self, v: Ref, off: usize, buf: &mut [u8]) {
        let td = self.td as Ref;
        let kind = kind_of(v);
        let ty = LLVMTypeOf(v);
        let tk = LLVMGetTypeKind(ty);
        match kind {
            14 | 15 | 20 | 25 => {} // undef, zero, null, poison
            11 | 12 | 13 | 16 | 17 => {
                if kind == 16 && LLVMIsConstantString(v) != 0 {
                    let mut len = 0usize;
                    let p = LLVMGetAsString(v, &mut len);
                    let s = std::slice::from_raw_parts(p as *const u8, len);
                    buf[off..off + len].copy_from_slice(s);
                    return;
                }
                match tk {
                    10 => {
                        let n = LLVMCountStructElementTypes(ty);
                        for i in 0..n {
                            let o = LLVMOffsetOfElement(td, ty, i) as usize;
                            self.emit(LLVMGetAggregateElement(v, i), off + o, buf);
                        }
                    }
                    _ => {
                        let (n, et) = if tk == 11 {
                            (LLVMGetArrayLength2(ty), LLVMGetElementType(ty))
                        } else {
                            (LLVMGetVectorSize(ty) as u64, LLVMGetElementType(ty))
                        };
                        let es = LLVMABISizeOfType(td, et) as usize;
                        for i in 0..n {
                            self.emit(LLVMGetAggregateElement(v, i as u32), off + i as usize * es, buf);
                        }
                    }
                }
            }
            _ => {
                let t = self.ty(ty);
                let n = t.size() as usize;
                let x = match self.konst(v) {
                    Val::I(x) => x as u128,
                    Val::W(x) => *x,
                    _ => 0,
                };
                buf[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
        }
    }

    pub fn ty(&self, t: Ref) -> Ty {
        unsafe {
            let td = self.td as Ref;
            match LLVMGetTypeKind(t) {
                0 => Ty::Void,
                8 => Ty::Int(LLVMGetIntTypeWidth(t)),
                12 => Ty::Ptr,
                2 => Ty::Float(32),
                3 => Ty::Float(64),
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    let fs: Vec<(u64, Ty)> = (0..n)
                        .map(|i| (LLVMOffsetOfElement(td, t, i), self.ty(LLVMStructGetTypeAtIndex(t, i))))
                        .collect();
                    Ty::Agg(fs.into(), LLVMABISizeOfType(td, t))
                }
                11 => {
                    let n = LLVMGetArrayLength2(t);
                    let et = LLVMGetElementType(t);
                    let es = LLVMABISizeOfType(td, et);
                    let e = self.ty(et);
                    let n2 = if n > 4096 { 0 } else { n };
                    let fs: Vec<(u64, Ty)> = (0..n2).map(|i| (i * es, e.clone())).collect();
                    Ty::Agg(fs.into(), LLVMABISizeOfType(td, t))
                }
                13 => Ty::Vec(LLVMGetVectorSize(t), Box::new(self.ty(LLVMGetElementType(t)))),
                _ => Ty::Other,
            }
        }
    }

    pub fn func_addr(&self, id: u32) -> u64 {
        FUNC_BASE + id as u64 * 16
    }

    unsafe fn konst(&self, v: Ref) -> Val {
        let kind = kind_of(v);
        let ty = LLVMTypeOf(v);
        match kind {
            18 => {
                let tk = LLVMGetTypeKind(ty);
                if tk == 13 {
                    let n = LLVMGetVectorSize(ty);
                    return Val::A((0..n).map(|i| self.konst(LLVMGetAggregateElement(v, i))).collect());
                }
                let w = LLVMGetIntTypeWidth(ty);
                if w <= 64 {
                    Val::I(LLVMConstIntGetZExtValue(v) & mask(w as u16) as u64)
                } else {
                    let s = print_value(v);
                    let n = s.split_whitespace().last().unwrap();
                    let x: i128 = n.parse::<i128>().unwrap_or_else(|_| n.parse::<u128>().unwrap_or(0) as i128);
                    Val::W(Arc::new(x as u128 & mask(w as u16)))
                }
            }
            20 => Val::I(0),
            14 | 25 | 15 => zero_of(&self.ty(ty)),
            19 => Val::I(0),
            11 | 12 | 13 | 16 | 17 => {
                let tk = LLVMGetTypeKind(ty);
                let n = match tk {
                    10 => LLVMCountStructElementTypes(ty),
                    11 => LLVMGetArrayLength2(ty) as u32,
                    _ => LLVMGetVectorSize(ty),
                };
                Val::A((0..n).map(|i| self.konst(LLVMGetAggregateElement(v, i))).collect())
            }
            5 => Val::I(self.func_addr(self.fidx[&(v as usize)])),
            8 => Val::I(GLOBAL_BASE + ((self.gidx[&(v as usize)] as u64) << OBJ_SHIFT)),
            6 => self.konst(LLVMAliasGetAliasee(v)),
            10 => {
                let op = LLVMGetConstOpcode(v);
                let a = || self.konst(LLVMGetOperand(v, 0));
                let i = |x: Val| match x {
                    Val::I(x) => x,
                    _ => 0,
                };
                match op {
                    29 => {
                        let base = i(a());
                        let (off, idx) = self.gep(v);
                        let mut r = base.wrapping_add(off as u64);
                        for (o, _, s) in idx {
                            if let Opd::C(Val::I(x)) = o {
                                r = r.wrapping_add(x.wrapping_mul(s as u64));
                            }
                        }
                        Val::I(r)
                    }
                    8 => Val::I(i(a()).wrapping_add(i(self.konst(LLVMGetOperand(v, 1))))),
                    10 => Val::I(i(a()).wrapping_sub(i(self.konst(LLVMGetOperand(v, 1))))),
                    30 => {
                        let w = LLVMGetIntTypeWidth(ty);
                        Val::I(i(a()) & mask(w as u16) as u64)
                    }
                    _ => a(), // ptrtoint, inttoptr, bitcast
                }
            }
            23 => Val::I(0),
            _ => panic!("constant kind {kind}: {}", print_value(v)),
        }
    }

    /// Constant offset and (index, width, scale) list of a GEP.
    unsafe fn gep(&self, v: Ref) -> (i64, Vec<(Opd, u32, i64)>) {
        // only called for constant expressions: every index is constant
        let mut off = 0i64;
        self.gep_walk(v, &mut |idx, scale| {
            let x = match self.konst(idx) {
                Val::I(x) => {
                    let w = LLVMGetIntTypeWidth(LLVMTypeOf(idx));
                    crate::expr::sext(x as u128, w as u16) as i64
                }
                _ => 0,
            };
            off = off.wrapping_add(x.wrapping_mul(scale));
        }, &mut 0);
        let mut c = 0i64;
        self.gep_walk(v, &mut |_, _| {}, &mut c);
        (off.wrapping_add(c), vec![])
    }

    /// Calls `dynamic(index value, scale)` for array-like indices and adds struct offsets to `fixed`.
    unsafe fn gep_walk(&self, v: Ref, dynamic: &mut dyn FnMut(Ref, i64), fixed: &mut i64) {
        let td = self.td as Ref;
        let mut ty = LLVMGetGEPSourceElementType(v);
        let n = LLVMGetNumOperands(v) as u32;
        for k in 1..n {
            let idx = LLVMGetOperand(v, k);
            if k == 1 {
                dynamic(idx, LLVMABISizeOfType(td, ty) as i64);
                continue;
            }
            match LLVMGetTypeKind(ty) {
                10 => {
                    let f = LLVMConstIntGetZExtValue(idx) as u32;
                    *fixed = fixed.wrapping_add(LLVMOffsetOfElement(td, ty, f) as i64);
                    ty = LLVMStructGetTypeAtIndex(ty, f);
                }
                _ => {
                    ty = LLVMGetElementType(ty);
                    dynamic(idx, LLVMABISizeOfType(td, ty) as i64);
                }
            }
        }
    }

    pub fn func(&self, id: u32) -> Arc<Func> {
        let s = &self.funcs[id as usize];
        if let Some(f) = s.body.get() {
            return f.clone();
        }
        let _l = self.lock.lock().unwrap();
        s.body.get_or_init(|| Arc::new(unsafe { self.decode(id) })).clone()
    }

    unsafe fn decode(&self, id: u32) -> Func {
        let slot = &self.funcs[id as usize];
        let f = slot.v as Ref;
        let mut regs: HashMap<usize, u32> = HashMap::new();
        let np = LLVMCountParams(f);
        for i in 0..np {
            regs.insert(LLVMGetParam(f, i) as usize, i);
        }
        let mut nregs = np;
        let mut bbs: HashMap<usize, u32> = HashMap::new();
        let mut order = vec![];
        let mut bb = LLVMGetFirstBasicBlock(f);
        while !bb.is_null() {
            bbs.insert(bb as usize, order.len() as u32);
            order.push(bb);
            let mut i = LLVMGetFirstInstruction(bb);
            while !i.is_null() {
                regs.insert(i as usize, nregs);
                nregs += 1;
                i = LLVMGetNextInstruction(i);
            }
            bb = LLVMGetNextBasicBlock(bb);
        }
        let mut d = Decoder { p: self, regs, bbs };
        let mut blocks = vec![];
        for bb in order {
            blocks.push(d.block(bb));
        }
        let rpds = slot.name.contains("4rpds");
        Func { id, name: slot.name.clone(), nregs, nparams: np, blocks, rpds }
    }
}

struct Decoder<'a> {
    p: &'a Program,
    regs: HashMap<usize, u32>,
    bbs: HashMap<usize, u32>,
}

impl Decoder<'_> {
    unsafe fn opd(&self, v: Ref) -> Opd {
        if let Some(&r) = self.regs.get(&(v as usize)) {
            return Opd::R(r);
        }
        Opd::C(self.p.konst(v))
    }
    unsafe fn bb(&self, b: Ref) -> u32 {
        self.bbs[&(b as usize)]
    }

    unsafe fn block(&mut self, bb: Ref) -> Block {
        let mut b = Block { insts: vec![], phis: vec![], nphi: 0 };
        let mut phis: HashMap<u32, Vec<(u32, Opd)>> = HashMap::new();
        let mut i = LLVMGetFirstInstruction(bb);
        while !i.is_null() {
            let dst = self.regs[&(i as usize)];
            if LLVMGetInstructionOpcode(i) == 44 {
                b.nphi += 1;
                let mut seen = vec![];
                for k in 0..LLVMCountIncoming(i) {
                    let from = self.bb(LLVMGetIncomingBlock(i, k));
                    if seen.contains(&from) {
                        continue; // several edges from one block carry the same value
                    }
                    seen.push(from);
                    phis.entry(from).or_default().push((dst, self.opd(LLVMGetIncomingValue(i, k))));
                }
            } else {
                b.insts.push(self.inst(i, dst));
            }
            i = LLVMGetNextInstruction(i);
        }
        b.phis = phis.into_iter().collect();
        b
    }

    unsafe fn inst(&mut self, i: Ref, dst: u32) -> Inst {
        let o = |k: u32| self.opd(LLVMGetOperand(i, k));
        let ty = self.p.ty(LLVMTypeOf(i));
        let opc = LLVMGetInstructionOpcode(i);
        let optys = |k: u32| self.p.ty(LLVMTypeOf(LLVMGetOperand(i, k)));
        match opc {
            1 => Inst::Ret(if LLVMGetNumOperands(i) == 1 { Some(o(0)) } else { None }),
            3 => {
                // switch: operands are value, default, (case, dest)*
                let w = optys(0).bits();
                let ns = LLVMGetNumSuccessors(i);
                let mut cases = vec![];
                for k in 1..ns {
                    let c = LLVMGetSwitchCaseValue(i, k);
                    let d = self.bb(LLVMGetSuccessor(i, k));
                    cases.push((LLVMConstIntGetZExtValue(c) & mask(w as u16) as u64, d));
                }
                Inst::Switch { v: o(0), w, default: self.bb(LLVMGetSuccessor(i, 0)), cases }
            }
            5 => self.call(i, dst, ty, true),
            45 => self.call(i, dst, ty, false),
            7 => Inst::Unreachable,
            8 | 10 | 12 | 14 | 15 | 17 | 18 | 20..=25 => {
                if matches!(ty, Ty::Float(_)) {
                    return Inst::Bad(print_value(i));
                }
                let op = match opc {
                    8 => Bin::Add,
                    10 => Bin::Sub,
                    12 => Bin::Mul,
                    14 => Bin::UDiv,
                    15 => Bin::SDiv,
                    17 => Bin::URem,
                    18 => Bin::SRem,
                    20 => Bin::Shl,
                    21 => Bin::LShr,
                    22 => Bin::AShr,
                    23 => Bin::And,
                    24 => Bin::Or,
                    _ => Bin::Xor,
                };
                Inst::Bin { op, w: ty.bits(), lanes: ty.lanes(), a: o(0), b: o(1), dst }
            }
            26 => {
                let t = LLVMGetAllocatedType(i);
                let n = LLVMGetOperand(i, 0);
                let cnt = match self.p.konst(n) {
                    Val::I(x) => x,
                    _ => 1,
                };
                if kind_of(n) != 18 {
                    return Inst::Bad(print_value(i));
                }
                Inst::Alloca { size: LLVMABISizeOfType(self.p.td as Ref, t) * cnt, dst }
            }
            27 => Inst::Load { ty, p: o(0), dst },
            28 => Inst::Store { ty: optys(0), v: o(0), p: o(1) },
            29 => {
                let mut off = 0i64;
                let mut idx: Vec<(Opd, u32, i64)> = vec![];
                let mut fixed = 0i64;
                if ty.lanes() != 1 {
                    return Inst::Bad(print_value(i));
                }
                self.p.gep_walk(
                    i,
                    &mut |v, scale| {
                        let w = LLVMGetIntTypeWidth(LLVMTypeOf(v));
                        match self.opd(v) {
                            Opd::C(Val::I(x)) => {
                                let x = crate::expr::sext(x as u128, w as u16) as i64;
                                off = off.wrapping_add(x.wrapping_mul(scale));
                            }
                            r => idx.push((r, w, scale)),
                        }
                    },
                    &mut fixed,
                );
                Inst::Gep { base: o(0), off: off.wrapping_add(fixed), idx, dst }
            }
            30 => Inst::Cast { k: CastK::Trunc, from: optys(0), to: ty, a: o(0), dst },
            31 => Inst::Cast { k: CastK::ZExt, from: optys(0), to: ty, a: o(0), dst },
            32 => Inst::Cast { k: CastK::SExt, from: optys(0), to: ty, a: o(0), dst },
            39 | 40 | 69 => {
                let from = optys(0);
                let k = if ty.bits() < from.bits() { CastK::Trunc } else { CastK::ZExt };
                Inst::Cast { k, from, to: ty, a: o(0), dst }
            }
            41 => Inst::Cast { k: CastK::Bit, from: optys(0), to: ty, a: o(0), dst },
            42 => {
                let t = optys(0);
                let pred = match LLVMGetICmpPredicate(i) {
                    32 => Pred::Eq,
                    33 => Pred::Ne,
                    34 => Pred::Ugt,
                    35 => Pred::Uge,
                    36 => Pred::Ult,
                    37 => Pred::Ule,
                    38 => Pred::Sgt,
                    39 => Pred::Sge,
                    40 => Pred::Slt,
                    _ => Pred::Sle,
                };
                Inst::Icmp { pred, w: t.bits(), lanes: t.lanes(), a: o(0), b: o(1), dst }
            }
            46 => {
                let ct = optys(0);
                Inst::Select {
                    c: o(0),
                    clanes: ct.lanes(),
                    a: o(1),
                    b: o(2),
                    w: ty.bits(),
                    lanes: ty.lanes(),
                    agg: matches!(ty, Ty::Agg(..)),
                    dst,
                }
            }
            50 => Inst::ExtractElement { a: o(0), i: o(1), dst },
            51 => Inst::InsertElement { a: o(0), v: o(1), i: o(2), dst },
            52 => {
                let n = LLVMGetNumMaskElements(i);
                let mask = (0..n).map(|k| LLVMGetMaskValue(i, k)).collect();
                Inst::Shuffle { a: o(0), b: o(1), n: optys(0).lanes(), mask, ew: ty.bits(), dst }
            }
            53 | 54 => {
                let n = LLVMGetNumIndices(i);
                let path = std::slice::from_raw_parts(LLVMGetIndices(i), n as usize).to_vec();
                if opc == 53 {
                    Inst::ExtractValue { a: o(0), path, dst }
                } else {
                    Inst::InsertValue { a: o(0), v: o(1), path, dst }
                }
            }
            68 => Inst::Copy { a: o(0), dst },
            55 => Inst::Nop,
            56 => Inst::CmpXchg { p: o(0), cmp: o(1), new: o(2), ty: optys(1), dst },
            57 => {
                let op = match LLVMGetAtomicRMWBinOp(i) {
                    0 => Rmw::Xchg,
                    1 => Rmw::Add,
                    2 => Rmw::Sub,
                    3 => Rmw::And,
                    4 => Rmw::Nand,
                    5 => Rmw::Or,
                    6 => Rmw::Xor,
                    7 => Rmw::Max,
                    8 => Rmw::Min,
                    9 => Rmw::UMax,
                    10 => Rmw::UMin,
                    _ => return Inst::Bad(print_value(i)),
                };
                Inst::AtomicRmw { op, p: o(0), v: o(1), ty, dst }
            }
            58 => Inst::Resume(o(0)),
            59 => Inst::LandingPad { dst },
            _ => {
                // unconditional / conditional branches (one or two opcodes depending on LLVM)
                let ns = LLVMGetNumSuccessors_safe(i, opc);
                if ns == 1 {
                    Inst::Br(self.bb(LLVMGetSuccessor(i, 0)))
                } else if ns == 2 {
                    Inst::CondBr {
                        c: self.opd(LLVMGetCondition(i)),
                        t: self.bb(LLVMGetSuccessor(i, 0)),
                        f: self.bb(LLVMGetSuccessor(i, 1)),
                    }
                } else {
                    Inst::Bad(print_value(i))
                }
            }
        }
    }

    unsafe fn call(&mut self, i: Ref, dst: u32, rty: Ty, invoke: bool) -> Inst {
        let callee_v = LLVMGetCalledValue(i);
        let n = LLVMGetNumArgOperands(i);
        let inv = if invoke {
            Some((self.bb(LLVMGetNormalDest(i)), self.bb(LLVMGetUnwindDest(i))))
        } else {
            None
        };
        let mut args: Vec<Opd> = vec![];
        let mut first_w = 0;
        let mut first_lanes = 1;
        for k in 0..n {
            let a = LLVMGetArgOperand(i, k);
            let tk = LLVMGetTypeKind(LLVMTypeOf(a));
            if tk == 14 {
                args.push(Opd::C(Val::I(0))); // metadata
                continue;
            }
            if k == 0 {
                let t = self.p.ty(LLVMTypeOf(a));
                first_w = t.bits();
                first_lanes = t.lanes();
            }
            args.push(self.opd(a));
        }
        let kind = kind_of(callee_v);
        let callee = if kind == 5 {
            let id = self.p.fidx[&(callee_v as usize)];
            let name = &self.p.funcs[id as usize].name;
            if let Some(s) = name.strip_prefix("llvm.") {
                match intr_of(s) {
                    Some(k) => Callee::Intr(k, first_w, first_lanes),
                    None => return Inst::Bad(print_value(i)),
                }
            } else {
                Callee::Direct(id)
            }
        } else if kind == 23 {
            Callee::Asm
        } else {
            Callee::Indirect(self.opd(callee_v))
        };
        Inst::Call { callee, args, rty, dst, invoke: inv }
    }
}

#[allow(non_snake_case)]
unsafe fn LLVMGetNumSuccessors_safe(i: Ref, opc: i32) -> u32 {
    // only terminators have successors; opcode 2 is `br`, newer releases add a separate conditional one
    if opc == 2 || opc > 69 {
        LLVMGetNumSuccessors(i)
    } else {
        0
    }
}

fn intr_of(s: &str) -> Option<Intr> {
    use Intr::*;
    let tbl: &[(&str, Intr)] = &[
        ("memcpy.", Memcpy),
        ("memmove.", Memcpy),
        ("memset.", Memset),
        ("ctpop.", Ctpop),
        ("ctlz.", Ctlz),
        ("cttz.", Cttz),
        ("bswap.", Bswap),
        ("bitreverse.", Bitreverse),
        ("uadd.with.overflow", UAddO),
        ("sadd.with.overflow", SAddO),
        ("usub.with.overflow", USubO),
        ("ssub.with.overflow", SSubO),
        ("umul.with.overflow", UMulO),
        ("smul.with.overflow", SMulO),
        ("uadd.sat", UAddSat),
        ("usub.sat", USubSat),
        ("sadd.sat", SAddSat),
        ("ssub.sat", SSubSat),
        ("umin.", UMin),
        ("umax.", UMax),
        ("smin.", SMin),
        ("smax.", SMax),
        ("ucmp.", UCmp),
        ("scmp.", SCmp),
        ("fshl.", Fshl),
        ("fshr.", Fshr),
        ("abs.", Abs),
        ("assume", Assume),
        ("lifetime.", Nop),
        ("experimental.noalias.scope.decl", Nop),
        ("dbg.", Nop),
        ("prefetch", Nop),
        ("x86.sse2.pause", Nop),
        ("invariant.start", Nop),
        ("invariant.end", Nop),
        ("is.constant", IsConstant),
        ("launder.invariant", First),
        ("strip.invariant", First),
        ("threadlocal.address", ThreadLocal),
        ("trap", Trap),
        ("ubsantrap", Trap),
        ("debugtrap", Trap),
        ("expect", Expect),
        ("vector.reduce.or", ReduceOr),
        ("vector.reduce.and", ReduceAnd),
        ("vector.reduce.add", ReduceAdd),
        ("vector.reduce.xor", ReduceXor),
        ("objectsize", ObjectSize),
        ("eh.typeid.for", TypeidFor),
    ];
    for (p, k) in tbl {
        if s.starts_with(p) {
            return Some(*k);
        }
    }
    None
}
