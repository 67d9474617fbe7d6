//! Display.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;
use archery::*;
use rpds::*;
use std::fmt::{self, Display, Write};

/// An element prints as `idx'tag` in hexadecimal digits, in two pieces.
impl Display for K {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.touch();
        let mut b = Buf::new(u64::MAX);
        b.num(self.idx);
        f.write_str(b.text())?;
        b.len = 0;
        b.raw("'");
        b.num(self.tag);
        f.write_str(b.text())
    }
}

/// Fails instead of the `left`-th write, and of all that follow it unless the failure passes.
struct Buf {
    b: Vec<u8>,
    len: usize,
    left: u64,
    /// the failure passes
    once: bool,
}
impl Buf {
    fn new(left: u64) -> Buf {
        Buf { b: vec![0; 4096], len: 0, left, once: false }
    }
    fn raw(&mut self, s: &str) {
        for x in s.bytes() {
            self.b[self.len] = x;
            self.len += 1;
        }
    }
    fn num(&mut self, mut v: u64) {
        loop {
            self.b[self.len] = b"0123456789abcdef"[(v & 15) as usize];
            self.len += 1;
            v >>= 4;
            if v == 0 {
                break;
            }
        }
    }
    fn text(&self) -> &str {
        unsafe { std::str::from_utf8_unchecked(&self.b[..self.len]) }
    }
}
impl Write for Buf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.left == 0 {
            if self.once {
                self.left = u64::MAX;
            }
            return Err(fmt::Error);
        }
        self.left -= 1;
        self.raw(s);
        Ok(())
    }
}

fn shown<C: Coll + Display>(open: &str, close: &str, map: bool) {
    let mut s = start::<C>();
    for i in 0..param(7) {
        step(&mut s.c, &mut s.m, &mut s.u, 1 + 10 * i);
    }
    let mut want = Buf::new(0);
    want.raw(open);
    for (i, e) in s.c.contents().iter().enumerate() {
        if i > 0 {
            want.raw(", ");
        }
        want.num(e.0);
        want.raw("'");
        want.num(e.1);
        if map {
            want.raw(": ");
            // the value's identity is its mark
            want.num(e.2);
            want.raw("'");
            want.num(e.2);
        }
    }
    want.raw(close);
    let mut got = Buf::new(u64::MAX);
    check(write!(got, "{}", s.c).is_ok(), 220);
    check(got.text() == want.text(), 221);
    let writes = u64::MAX - got.left;
    // a writer that fails
    let left = choice(param(8) + 1);
    if left < writes {
        let mut part = Buf::new(left);
        part.once = choice(2) == 1;
        check(write!(part, "{}", s.c).is_err(), 222);
        check(part.len <= want.len && part.text() == &want.text()[..part.len], 223);
        cover(2);
    }
    s.c.verify(&s.m, &s.u);
    cover(1);
}

fn which<P: SharedPointerKind>() {
    match param(0) {
        0 => shown::<Vector<K, P>>("[", "]", false),
        1 => shown::<List<K, P>>("[", "]", false),
        2 => shown::<Queue<K, P>>("Queue(", ")", false),
        3 => shown::<Stack<K, P>>("Stack(", ")", false),
        4 => shown::<HashTrieMap<K, K, P, BH>>("{", "}", true),
        5 => shown::<RedBlackTreeMap<K, K, P>>("{", "}", true),
        6 => shown::<HashTrieSet<K, P, BH>>("{", "}", false),
        _ => shown::<RedBlackTreeSet<K, P>>("{", "}", false),
    }
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p25_shown() {
    if param(1) == 0 { which::<RcK>() } else { which::<ArcTK>() }
}

entries!(p25_shown);
