//! Persistent and in-place forms agree.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;

/// param 7: in-place operations first (leaving unshared or shared state: 9 = 1 holds a clone from the start);
/// 8: operations compared one after another.
fn agree<C: Coll>() {
    let mut s = start::<C>();
    let held = if param(9) == 1 { Some((s.c.clone(), s.m.clone())) } else { None };
    for i in 0..param(7) {
        step(&mut s.c, &mut s.m, &mut s.u, 100 + 10 * i);
    }
    for i in 0..param(8) {
        let kind = choice(C::NOPS);
        let arg = C::pick(&s.m, kind, &mut s.u);
        let o = Op { kind, arg, mark: 500 + 10 * i };
        let mut m = s.m.clone();
        let want = C::run_model(&mut m, o);
        let Some(p) = s.c.run_pers(o, &s.u) else {
            cover(2);
            return;
        };
        s.c.verify(&s.m, &s.u);
        // on a clone, where everything is shared
        let mut shared = s.c.clone();
        let got = shared.run_mut(o, &s.u);
        check(got == 2 || got == want, 10);
        s.c.verify(&s.m, &s.u);
        // on a collection with the same contents; its own memory once the others go
        let before = s.c.contents();
        match p {
            Some(p) => {
                check(C::KEYED || want == 1, 11);
                check(p == shared, 50);
                check(shared == p, 51);
                check(p.len() == shared.len() && (C::HASHED || p.contents() == shared.contents()), 52);
                p.verify(&m, &s.u);
                drop(shared);
                check(before == s.c.contents(), 53);
                // in place, unshared unless a clone is held
                if choice(2) == 0 {
                    let keep = p.contents();
                    drop(p);
                    let got = s.c.run_mut(o, &s.u);
                    check(got == 2 || got == want, 10);
                    check(C::HASHED || s.c.contents() == keep, 54);
                    s.c.verify(&m, &s.u);
                } else {
                    s.c = p;
                }
                s.m = m;
            }
            None => {
                check(!C::KEYED && want == 0, 11);
                check(shared == s.c, 55);
                let got = s.c.run_mut(o, &s.u);
                check(got == 0, 10);
                check(before == s.c.contents(), 56);
            }
        }
    }
    s.c.verify(&s.m, &s.u);
    if let Some((c, m)) = held {
        drop(s.c);
        c.verify(&m, &s.u);
    }
    cover(1);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p10_agree() {
    with_coll!(param(0), param(1), agree());
}

entries!(p10_agree);
