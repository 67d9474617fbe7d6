//! Versions of a collection are independent.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;

/// param 7: steps; 8: versions that may exist at once; 9: clones of the start held from the beginning.
fn fork<C: Coll>() {
    let mut s = start::<C>();
    let mut vs: Vec<(C, C::M)> = vec![(s.c.clone(), s.m.clone())];
    for _ in 0..param(9) {
        vs.push((s.c.clone(), s.m.clone()));
    }
    drop(s.c);
    for i in 0..param(7) {
        let who = choice(vs.len() as u64) as usize;
        let room = (vs.len() as u64) < param(8);
        let form = choice(3 + room as u64);
        if form == 2 {
            // a version is overwritten by a clone of another, or a collection of another configuration by one of it
            let from = choice(vs.len() as u64) as usize;
            if from == who {
                let mut c = C::make(if param(2) == 1 || param(2) == 2 { 4 } else { 2 });
                let mut m = C::model();
                for _ in 0..choice(2) {
                    let o = Op { kind: 0, arg: 0, mark: 900 + i };
                    C::run_model(&mut m, o);
                    c.run_mut(o, &s.u);
                }
                c.clone_from(&vs[who].0);
                vs[who].0 = c;
            } else {
                let m = vs[from].1.clone();
                let c = std::mem::replace(&mut vs[from].0, C::make(0));
                vs[who].0.clone_from(&c);
                vs[who].1 = m;
                vs[from].0 = c;
            }
            continue;
        }
        if form == 1 {
            // a version goes away
            if vs.len() > 1 {
                vs.swap_remove(who);
            }
            continue;
        }
        let kind = choice(C::NOPS);
        let arg = C::pick(&vs[who].1, kind, &mut s.u);
        let o = Op { kind, arg, mark: 100 + 10 * i };
        if form == 0 {
            let v = &mut vs[who];
            let want = C::run_model(&mut v.1, o);
            let got = v.0.run_mut(o, &s.u);
            check(got == 2 || got == want, 10);
        } else {
            let mut m = vs[who].1.clone();
            let want = C::run_model(&mut m, o);
            let made = match vs[who].0.run_pers(o, &s.u) {
                Some(x) => {
                    check(C::KEYED || x.is_some() == (want == 1), 10);
                    x
                }
                None => {
                    let mut c = vs[who].0.clone();
                    let got = c.run_mut(o, &s.u);
                    check(got == 2 || got == want, 10);
                    Some(c)
                }
            };
            if let Some(c) = made {
                vs.push((c, m));
            }
        }
    }
    for (c, m) in &vs {
        c.verify(m, &s.u);
    }
    // and once the others are gone
    if vs.len() > 1 {
        let keep = choice(vs.len() as u64) as usize;
        let (c, m) = vs.swap_remove(keep);
        drop(vs);
        c.verify(&m, &s.u);
    }
    cover(1);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p09_fork() {
    with_coll!(param(0), param(1), fork());
}

entries!(p09_fork);
