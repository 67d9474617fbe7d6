//! Byte-addressed memory made of separate objects; every object lives in its own 16 MB window, so that an
//! out-of-bounds or dangling access is always detected.  Copy-on-write between execution states.
use crate::expr::*;
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy)]
pub struct Cell {
    pub off: u32,
    pub len: u8,
    pub e: Eid,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<Cell>, // sorted by offset, disjoint
    pub align: u32,
}

const CH: usize = 32;
const TID_SHIFT: u32 = 18;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem {
    heap: Vec<Rc<Chunk>>,
    pub nheap: u32,
    pub stack: Vec<Rc<Obj>>,
    /// stacks of the threads that are not running
    parked: Vec<Vec<Rc<Obj>>>,
    tid: u32,
    globals: Rc<HashMap<u32, Rc<Obj>>>,
    pub allocs: u64,
    pub alloc_bytes: u64,
    pub live: u64,
    pub live_bytes: u64,
}

#[derive(Debug, Clone)]
pub struct MemErr(pub String);

pub enum Where {
    Heap(u32),
    Stack(u32),
    Global(u32),
}

impl Mem {
    pub fn new() -> Mem {
        Mem {
            heap: vec![],
            nheap: 0,
            stack: vec![],
            parked: vec![vec![]],
            tid: 0,
            globals: Rc::new(HashMap::new()),
            allocs: 0,
            alloc_bytes: 0,
            live: 0,
            live_bytes: 0,
        }
    }

    pub fn alloc(&mut self, size: u64, align: u64, fill: u8) -> u64 {
        let id = self.nheap;
        self.nheap += 1;
        let o = Rc::new(Obj { data: vec![fill; size as usize], sym: vec![], align: align as u32 });
        let (c, i) = (id as usize / CH, id as usize % CH);
        if c == self.heap.len() {
            self.heap.push(Rc::new(std::array::from_fn(|_| None)));
        }
        Rc::make_mut(&mut self.heap[c])[i] = Some(o);
        self.allocs += 1;
        self.alloc_bytes += size;
        self.live += 1;
        self.live_bytes += size;
        HEAP_BASE + ((id as u64) << OBJ_SHIFT)
    }

    pub fn free(&mut self, addr: u64, size: u64, align: u64) -> Result<(), MemErr> {
        if !(HEAP_BASE..STACK_BASE).contains(&addr) {
            return Err(MemErr(format!("free of a non-heap pointer {addr:#x}")));
        }
        let id = (addr - HEAP_BASE) >> OBJ_SHIFT;
        if addr & ((1 << OBJ_SHIFT) - 1) != 0 {
            return Err(MemErr("free of an interior pointer".into()));
        }
        if id >= self.nheap as u64 {
            return Err(MemErr("free of an invalid pointer".into()));
        }
        let (c, i) = (id as usize / CH, id as usize % CH);
        match &self.heap[c][i] {
            None => return Err(MemErr("double free".into())),
            Some(o) => {
                if o.data.len() as u64 != size || o.align as u64 != align {
                    return Err(MemErr(format!(
                        "free with size {size} align {align} of a block of size {} align {}",
                        o.data.len(),
                        o.align
                    )));
                }
            }
        }
        self.live -= 1;
        self.live_bytes -= size;
        Rc::make_mut(&mut self.heap[c])[i] = None;
        Ok(())
    }

    pub fn push_stack(&mut self, size: u64) -> u64 {
        let id = self.stack.len() as u64 | (self.tid as u64) << TID_SHIFT;
        self.stack.push(Rc::new(Obj { data: vec![0xAA; size as usize], sym: vec![], align: 16 }));
        STACK_BASE + (id << OBJ_SHIFT)
    }

    pub fn new_thread(&mut self) -> u32 {
        self.parked.push(vec![]);
        self.parked.len() as u32 - 1
    }

    pub fn switch(&mut self, to: u32) {
        let next = std::mem::take(&mut self.parked[to as usize]);
        self.parked[self.tid as usize] = std::mem::replace(&mut self.stack, next);
        self.tid = to;
    }

    pub fn tid(&self) -> u32 {
        self.tid
    }

    fn slot(&self, id: u32) -> Option<&Rc<Obj>> {
        let (t, i) = (id >> TID_SHIFT, (id & ((1 << TID_SHIFT) - 1)) as usize);
        if t == self.tid { self.stack.get(i) } else { self.parked.get(t as usize)?.get(i) }
    }

    fn global(&self, id: u32, p: &'static Program) -> Rc<Obj> {
        if let Some(o) = self.globals.get(&id) {
            return o.clone();
        }
        Rc::new(Obj { data: p.global_init(id).to_vec(), sym: vec![], align: 16 })
    }

    pub fn locate(&self, addr: u64, len: u64, p: &'static Program) -> Result<(Where, usize), MemErr> {
        let off = addr & ((1 << OBJ_SHIFT) - 1);
        let (w, size) = if addr >= STACK_BASE {
            let id = (addr - STACK_BASE) >> OBJ_SHIFT;
            match self.slot(id as u32) {
                Some(o) => (Where::Stack(id as u32), o.data.len()),
                None => return Err(MemErr(format!("access to a dead stack slot {addr:#x}"))),
            }
        } else if addr >= HEAP_BASE {
            let id = (addr - HEAP_BASE) >> OBJ_SHIFT;
            if id >= self.nheap as u64 {
                return Err(MemErr(format!("access to unallocated memory {addr:#x}")));
            }
            match &self.heap[id as usize / CH][id as usize % CH] {
                Some(o) => (Where::Heap(id as u32), o.data.len()),
                None => return Err(MemErr("use after free".into())),
            }
        } else if addr >= GLOBAL_BASE {
            let id = (addr - GLOBAL_BASE) >> OBJ_SHIFT;
            match p.globals.get(id as usize) {
                Some(g) => (Where::Global(id as u32), g.size as usize),
                None => return Err(MemErr(format!("wild access {addr:#x}"))),
            }
        } else if addr < 4096 {
            return Err(MemErr(format!("null pointer access {addr:#x}")));
        } else {
            return Err(MemErr(format!("wild access {addr:#x}")));
        };
        if off + len > size as u64 {
            return Err(MemErr(format!("out-of-bounds access: offset {off} length {len} in a block of {size}")));
        }
        Ok((w, off as usize))
    }

    pub fn with<R>(&self, w: &Where, p: &'static Program, f: impl FnOnce(&[u8], &[Cell]) -> R) -> R {
        match w {
            Where::Stack(i) => {
                let o = self.slot(*i).unwrap();
                f(&o.data, &o.sym)
            }
            Where::Heap(i) => {
                let o = self.heap[*i as usize / CH][*i as usize % CH].as_ref().unwrap();
                f(&o.data, &o.sym)
            }
            Where::Global(i) => {
                if let Some(o) = self.globals.get(i) {
                    f(&o.data, &o.sym)
                } else {
                    let d = p.global_init(*i);
                    f(&d, &[])
                }
            }
        }
    }

    pub fn obj_mut(&mut self, w: &Where, p: &'static Program) -> &mut Obj {
        match w {
            Where::Stack(i) => {
                let (t, i) = (*i >> TID_SHIFT, (*i & ((1 << TID_SHIFT) - 1)) as usize);
                let st = if t == self.tid { &mut self.stack } else { &mut self.parked[t as usize] };
                Rc::make_mut(&mut st[i])
            }
            Where::Heap(i) => {
                let c = Rc::make_mut(&mut self.heap[*i as usize / CH]);
                Rc::make_mut(c[*i as usize % CH].as_mut().unwrap())
            }
            Where::Global(i) => {
                if !self.globals.contains_key(i) {
                    let o = self.global(*i, p);
                    Rc::make_mut(&mut self.globals).insert(*i, o);
                }
                Rc::make_mut(Rc::make_mut(&mut self.globals).get_mut(i).unwrap())
            }
        }
    }

    pub fn writable(&self, w: &Where, p: &'static Program) -> bool {
        match w {
            Where::Global(i) => !p.globals[*i as usize].konst,
            _ => true,
        }
    }
}

/// Removes symbolic content from [off, off+len), splitting partially covered cells into bytes.
pub fn clear_sym(o: &mut Obj, off: u32, len: u32, ar: &mut Arena) {
    if o.sym.is_empty() {
        return;
    }
    let end = off + len;
    if !o.sym.iter().any(|c| c.off < end && c.off + c.len as u32 > off) {
        return;
    }
    let mut out = Vec::with_capacity(o.sym.len());
    for c in o.sym.iter() {
        let cend = c.off + c.len as u32;
        if cend <= off || c.off >= end {
            out.push(*c);
            continue;
        }
        for b in 0..c.len as u32 {
            let at = c.off + b;
            if at < off || at >= end {
                let e = ar.extract(c.e, (b * 8) as u16, 8);
                out.push(Cell { off: at, len: 1, e });
            }
        }
    }
    o.sym = out;
}

pub fn put_sym(o: &mut Obj, c: Cell) {
    let i = o.sym.partition_point(|x| x.off < c.off);
    o.sym.insert(i, c);
}

/// Expression for the byte at `off`.
pub fn byte_at(data: &[u8], sym: &[Cell], off: u32, ar: &mut Arena) -> Eid {
    let i = sym.partition_point(|x| x.off + x.len as u32 <= off);
    if let Some(c) = sym.get(i) {
        if c.off <= off {
            return ar.extract(c.e, ((off - c.off) * 8) as u16, 8);
        }
    }
    ar.konst(data[off as usize] as u128, 8)
}
