//! Interface to the symbolic executor.  Natively these functions are defined by the replay binary, which reads
//! the concrete values of a counterexample or sampled path.

unsafe extern "C-unwind" {
    fn sym_u64(bits: u32) -> u64;
    fn sym_choice(n: u64) -> u64;
    fn sym_assume(c: bool);
    fn sym_check(c: bool, id: u32);
    fn sym_concrete(v: u64) -> u64;
    fn sym_cover(id: u64);
    fn sym_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u64;
    fn sym_observe(v: u64);
    fn sym_stat(k: u32) -> u64;
    fn sym_param(k: u32) -> u64;
    fn sym_spawn(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u64;
    fn sym_switch(t: u64);
    fn sym_exit(t: u64);
}

/// A fresh symbolic value of `bits` bits.
#[inline(never)]
pub fn any(bits: u32) -> u64 {
    unsafe { sym_u64(bits) }
}
/// A concrete value below `n`; the executor explores every one.
#[inline(never)]
pub fn choice(n: u64) -> u64 {
    unsafe { sym_choice(n) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
/// The property: must hold on every path.
pub fn check(c: bool, id: u32) {
    unsafe { sym_check(c, id) }
}
pub fn concrete(v: u64) -> u64 {
    unsafe { sym_concrete(v) }
}
pub fn cover(id: u64) {
    unsafe { sym_cover(id) }
}
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
pub fn param(k: u32) -> u64 {
    unsafe { sym_param(k) }
}
pub fn allocs() -> u64 {
    unsafe { sym_stat(0) }
}
pub fn live_blocks() -> u64 {
    unsafe { sym_stat(1) }
}
pub fn live_bytes() -> u64 {
    unsafe { sym_stat(2) }
}
/// Depth of the call stack in byte-like units.
pub fn stack_depth() -> u64 {
    unsafe { sym_stat(3) }
}
/// Starts to follow how deep the stack gets.
pub fn follow_stack() {
    unsafe { sym_stat(7) };
}
/// The deepest it got since, in the units of `stack_depth`.
pub fn deepest() -> u64 {
    unsafe { sym_stat(6) }
}
pub fn alloc_bytes() -> u64 {
    unsafe { sym_stat(4) }
}

/// Runs `f`; true if it panicked (the panic is contained).
pub fn panics<F: FnOnce()>(f: F) -> bool {
    extern "C-unwind" fn go<F: FnOnce()>(d: *mut u8) {
        let slot = unsafe { &mut *(d as *mut Option<F>) };
        (slot.take().unwrap())();
    }
    let mut slot = Some(f);
    unsafe { sym_try(go::<F>, &mut slot as *mut Option<F> as *mut u8) != 0 }
}

/// Runs `f`; its value, or None if it panicked.
pub fn attempt<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    let mut out = None;
    let p = panics(|| out = Some(f()));
    if p { None } else { out }
}

/// A thread that will run `f(d)` when it is switched to; `f` must end by `exit_to`.
pub fn spawn(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u64 {
    unsafe { sym_spawn(f, d) }
}
#[inline(never)]
pub fn switch_to(t: u64) {
    unsafe { sym_switch(t) }
}
/// Ends this thread and runs `t`; nothing may follow.
#[inline(never)]
pub fn exit_to(t: u64) {
    unsafe { sym_exit(t) }
}

#[macro_export]
macro_rules! entries {
    ($($n:ident),* $(,)?) => {
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($n), $n)),*];
    };
}
