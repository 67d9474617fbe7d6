//! Native side of the harness: runs one harness on recorded values.
//! replay NAME PARAMS(comma separated) INPUTS(comma separated) [EXPECTED-OBSERVATIONS(comma separated)]
//! Exit: 0 ok, 3 check failed, 4 uncaught panic, 5 diverged (inputs exhausted or assumption false),
//! 6 observations differ; anything else is a crash.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};

/// Counts, and (when guarding) gives every block its own pages that become inaccessible when freed, so that
/// use-after-free, double free and overruns crash instead of going unnoticed.
struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static GUARD: AtomicBool = AtomicBool::new(false);
static ALLOCS: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);
static LIVE_BYTES: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
const LO: usize = 0x2000_0000_0000;
const HI: usize = 0x3000_0000_0000;
static NEXT: AtomicU64 = AtomicU64::new(LO as u64);

unsafe extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
    fn _exit(c: i32) -> !;
}

fn pages(size: usize) -> usize {
    size.div_ceil(4096).max(1) * 4096
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !counting() {
            return unsafe { System.alloc(l) };
        }
        ALLOCS.fetch_add(1, Relaxed);
        LIVE.fetch_add(1, Relaxed);
        LIVE_BYTES.fetch_add(l.size() as u64, Relaxed);
        BYTES.fetch_add(l.size() as u64, Relaxed);
        if GUARD.load(Relaxed) && l.size() < (1 << 40) {
            let n = pages(l.size());
            let base = NEXT.fetch_add(n as u64 + 4096, Relaxed) as usize;
            let p = unsafe { mmap(base as *mut u8, n, 3, 0x32, -1, 0) };
            if p as isize == -1 {
                return std::ptr::null_mut();
            }
            // block ends at the end of the page, as far as alignment allows
            let at = (base + n - l.size()) & !(l.align() - 1);
            unsafe { std::ptr::write_bytes(at as *mut u8, 0xA5, l.size()) };
            return at as *mut u8;
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if counting() {
            LIVE.fetch_sub(1, Relaxed);
            LIVE_BYTES.fetch_sub(l.size() as u64, Relaxed);
        }
        let a = p as usize;
        if (LO..HI).contains(&a) {
            // touch first: a second free faults
            unsafe { std::ptr::write_volatile(p, 0xDD) };
            let base = a & !4095;
            unsafe { mprotect(base as *mut u8, pages(l.size()), 0) };
            return;
        }
        unsafe { System.dealloc(p, l) }
    }
}

#[global_allocator]
static A: Counting = Counting;

thread_local! {
    static MUTE: Cell<bool> = const { Cell::new(false) };
    /// this thread is running the harness (and not the runtime around it)
    static MINE: Cell<bool> = const { Cell::new(false) };
    /// where this thread's stack was when the harness started
    static BASE: Cell<u64> = const { Cell::new(0) };
    static ME: Cell<u64> = const { Cell::new(0) };
}

fn counting() -> bool {
    ON.load(Relaxed) && MINE.with(|m| m.get())
}

/// Threads run one at a time: the one whose number this is.
static BATON: Mutex<u64> = Mutex::new(0);
static PASSED: Condvar = Condvar::new();
static THREADS: AtomicU64 = AtomicU64::new(1);

fn pass_to(t: u64) {
    *BATON.lock().unwrap() = t;
    PASSED.notify_all();
}

fn wait_for(me: u64) {
    let mut b = BATON.lock().unwrap();
    while *b != me {
        b = PASSED.wait(b).unwrap();
    }
}

struct Rec {
    inputs: Vec<u64>,
    pos: usize,
    params: Vec<u64>,
    expect: Option<Vec<u64>>,
    opos: usize,
}
static mut REC: Rec = Rec { inputs: vec![], pos: 0, params: vec![], expect: None, opos: 0 };

#[allow(static_mut_refs)]
fn rec() -> &'static mut Rec {
    unsafe { &mut REC }
}

fn die(code: i32, msg: &str) -> ! {
    ON.store(false, Relaxed);
    let mut e = std::io::stdout();
    let _ = writeln!(e, "{msg}");
    let _ = e.flush();
    unsafe { _exit(code) }
}

fn next() -> u64 {
    let r = rec();
    if r.pos >= r.inputs.len() {
        die(5, "DIVERGED: inputs exhausted");
    }
    r.pos += 1;
    r.inputs[r.pos - 1]
}

#[unsafe(no_mangle)]
extern "C-unwind" fn sym_u64(bits: u32) -> u64 {
    let v = next();
    if bits >= 64 { v } else { v & ((1 << bits) - 1) }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_choice(n: u64) -> u64 {
    let v = next();
    if v >= n {
        die(5, "DIVERGED: choice out of range");
    }
    v
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_assume(c: bool) {
    if !c {
        die(5, "DIVERGED: assumption false");
    }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_check(c: bool, id: u32) {
    if !c {
        die(3, &format!("CHECK {id} FAILS"));
    }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_concrete(v: u64) -> u64 {
    v
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_cover(_: u64) {}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_observe(v: u64) {
    let r = rec();
    if let Some(e) = &r.expect {
        if r.opos >= e.len() || e[r.opos] != v {
            let x = e.get(r.opos).copied();
            die(6, &format!("OBSERVATION {} DIFFERS: native {v} predicted {x:?}", r.opos));
        }
    }
    r.opos += 1;
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u64 {
    struct Send(*mut u8);
    let d = Send(d);
    let on = ON.load(Relaxed);
    MUTE.with(|m| m.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let d = d;
        f(d.0)
    }));
    MUTE.with(|m| m.set(false));
    match r {
        Ok(()) => 0,
        Err(p) => {
            // the panic payload is the runtime's, not the program's
            ON.store(false, Relaxed);
            drop(p);
            ON.store(on, Relaxed);
            1
        }
    }
}
/// How far down the stack is painted, and from where: what is below is overwritten by whatever goes deeper.
const PAINT: usize = 1 << 20;
const CLEAR: usize = 2048;

#[inline(never)]
fn paint(sp: usize) -> u64 {
    for a in (sp - PAINT..sp - CLEAR).step_by(8).rev() {
        unsafe { std::ptr::write_volatile((a & !7) as *mut u64, 0xa55a_a55a_a55a_a55a) };
    }
    0
}
#[inline(never)]
fn painted(sp: usize) -> u64 {
    // the caller of this may be a little above or below the caller of paint
    let mut a = (sp - PAINT + 4096) & !7;
    while a < sp - CLEAR && unsafe { std::ptr::read_volatile(a as *const u64) } == 0xa55a_a55a_a55a_a55a {
        a += 8;
    }
    a as u64
}

#[unsafe(no_mangle)]
extern "C-unwind" fn sym_stat(k: u32) -> u64 {
    let local = 0u8;
    match k {
        0 => ALLOCS.load(Relaxed),
        1 => LIVE.load(Relaxed),
        2 => LIVE_BYTES.load(Relaxed),
        3 => BASE.with(|b| b.get()) - (&local as *const u8 as u64),
        4 => BYTES.load(Relaxed),
        6 => BASE.with(|b| b.get()) - painted(&raw const local as usize),
        7 => paint(&raw const local as usize),
        _ => 0,
    }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_param(k: u32) -> u64 {
    rec().params.get(k as usize).copied().unwrap_or(0)
}

#[unsafe(no_mangle)]
extern "C-unwind" fn sym_spawn(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u64 {
    struct Send2(extern "C-unwind" fn(*mut u8), usize);
    let me = THREADS.fetch_add(1, Relaxed);
    let a = Send2(f, d as usize);
    MINE.with(|m| m.set(false));
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let a = a;
            ME.with(|m| m.set(me));
            wait_for(me);
            let local = 0u8;
            BASE.with(|b| b.set(&raw const local as u64 + 4096));
            MINE.with(|m| m.set(true));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (a.0)(a.1 as *mut u8)));
            if r.is_err() {
                die(4, "UNCAUGHT PANIC");
            }
        })
        .unwrap();
    MINE.with(|m| m.set(true));
    me
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_switch(t: u64) {
    MINE.with(|m| m.set(false));
    let me = ME.with(|m| m.get());
    if t != me {
        pass_to(t);
        wait_for(me);
    }
    MINE.with(|m| m.set(true));
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_exit(t: u64) {
    MINE.with(|m| m.set(false));
    pass_to(t);
}

fn nums(s: Option<&String>) -> Vec<u64> {
    s.map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("number")).collect()).unwrap_or_default()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let on = ON.swap(false, Relaxed);
        if !MUTE.with(|m| m.get()) {
            println!("PANIC: {i}");
            let _ = std::io::stdout().flush();
        }
        ON.store(on, Relaxed);
    }));
    let name = args.get(1).expect("harness name").clone();
    {
        let r = rec();
        r.params = nums(args.get(2));
        r.inputs = nums(args.get(3));
        r.expect = args.get(4).map(|_| nums(args.get(4)));
    }
    let f = vh::lookup(&name).unwrap_or_else(|| die(2, "no such harness"));
    if args.get(1).is_some() {
        GUARD.store(std::env::var("VH_GUARD").map(|v| v != "0").unwrap_or(true), Relaxed);
    }
    let local = 0u8;
    BASE.with(|b| b.set(&raw const local as u64 + 4096));
    MINE.with(|m| m.set(true));
    ON.store(true, Relaxed);
    let r = std::panic::catch_unwind(|| f());
    ON.store(false, Relaxed);
    if r.is_err() {
        die(4, "UNCAUGHT PANIC");
    }
    let r = rec();
    if let Some(e) = &r.expect {
        if r.opos != e.len() {
            die(6, &format!("{} observations, predicted {}", r.opos, e.len()));
        }
    }
    die(0, "OK");
}
