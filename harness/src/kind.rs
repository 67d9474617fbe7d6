//! A user-supplied pointer kind: counts by itself, insists on the contract, and calls a hook around every operation.
use crate::common::g;
use crate::sym::*;
use archery::SharedPointerKind;

#[derive(Debug)]
pub struct TK {
    p: *mut u8,
    spent: bool,
}

struct Inner<T> {
    count: usize,
    size: usize,
    align: usize,
    value: T,
}

pub struct Hook {
    pub f: Option<fn()>,
    pub blocks: u64,
    pub handles: u64,
    /// looks at what is pointed to
    pub visits: u64,
}
static mut HOOK: Hook = Hook { f: None, blocks: 0, handles: 0, visits: 0 };
#[allow(static_mut_refs)]
pub fn hook() -> &'static mut Hook {
    unsafe { &mut HOOK }
}

fn point() {
    g().depth();
    if let Some(f) = hook().f {
        f();
    }
}

impl TK {
    fn make<T>(value: T) -> TK {
        hook().blocks += 1;
        hook().handles += 1;
        let b = Box::new(Inner { count: 1, size: size_of::<T>(), align: align_of::<T>(), value });
        TK { p: Box::into_raw(b) as *mut u8, spent: false }
    }
    fn inner<T>(&self) -> *mut Inner<T> {
        check(!self.spent, 9100);
        let i = self.p as *mut Inner<T>;
        unsafe {
            check((*i).count > 0, 9101);
            check((*i).size == size_of::<T>() && (*i).align == align_of::<T>(), 9102);
        }
        i
    }
}

unsafe impl SharedPointerKind for TK {
    fn new<T>(v: T) -> TK {
        // nobody else can see the new block: no scheduling point
        g().depth();
        TK::make(v)
    }
    fn from_box<T>(v: Box<T>) -> TK {
        TK::make(*v)
    }
    unsafe fn as_ptr<T>(&self) -> *const T {
        hook().visits += 1;
        unsafe { &raw const (*self.inner::<T>()).value }
    }
    unsafe fn deref<T>(&self) -> &T {
        hook().visits += 1;
        unsafe { &(*self.inner::<T>()).value }
    }
    unsafe fn try_unwrap<T>(mut self) -> Result<T, TK> {
        hook().visits += 1;
        point();
        let i = self.inner::<T>();
        let alone = unsafe { (*i).count == 1 };
        if alone {
            self.spent = true;
            hook().blocks -= 1;
            hook().handles -= 1;
            let b = unsafe { Box::from_raw(i) };
            return Ok(b.value);
        }
        point();
        Err(self)
    }
    unsafe fn get_mut<T>(&mut self) -> Option<&mut T> {
        hook().visits += 1;
        point();
        let i = self.inner::<T>();
        unsafe { if (*i).count == 1 { Some(&mut (*i).value) } else { None } }
    }
    unsafe fn make_mut<T: Clone>(&mut self) -> &mut T {
        hook().visits += 1;
        point();
        let i = self.inner::<T>();
        unsafe {
            if (*i).count != 1 {
                let fresh = TK::make((*i).value.clone());
                let mut old = TK { p: self.p, spent: false };
                self.p = fresh.p;
                SharedPointerKind::drop::<T>(&mut old);
                return &mut (*self.inner::<T>()).value;
            }
            &mut (*i).value
        }
    }
    unsafe fn strong_count<T>(&self) -> usize {
        hook().visits += 1;
        unsafe { (*self.inner::<T>()).count }
    }
    unsafe fn clone<T>(&self) -> TK {
        point();
        let i = self.inner::<T>();
        unsafe { (*i).count += 1 };
        hook().handles += 1;
        TK { p: self.p, spent: false }
    }
    unsafe fn drop<T>(&mut self) {
        point();
        let i = self.inner::<T>();
        self.spent = true;
        hook().handles -= 1;
        unsafe {
            (*i).count -= 1;
            if (*i).count == 0 {
                hook().blocks -= 1;
                std::ptr::drop_in_place(&raw mut (*i).value);
                drop(Box::from_raw(i as *mut Inner<std::mem::ManuallyDrop<T>>));
            }
        }
        point();
    }
}
