//! Lifetimes of elements.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;

/// Element objects that some version can reach.
fn reachable<C: Coll>(vs: &[(C, C::M)]) -> u64 {
    let mut seen: Vec<usize> = Vec::new();
    for (c, _) in vs {
        for a in c.addrs().into_iter().chain(c.vaddrs()) {
            if !seen.contains(&a) {
                seen.push(a);
            }
        }
    }
    seen.len() as u64
}

/// param 7: steps; 8: versions at once.
fn life<C: Coll>() {
    let mut s = start::<C>();
    let mut vs: Vec<(C, C::M)> = vec![(s.c, s.m)];
    check(g().alive() == reachable(&vs), 120);
    for i in 0..param(7) {
        let who = choice(vs.len() as u64) as usize;
        let room = (vs.len() as u64) < param(8);
        match choice(2 + 2 * room as u64) {
            0 => {
                let kind = choice(C::NOPS);
                let arg = C::pick(&vs[who].1, kind, &mut s.u);
                let o = Op { kind, arg, mark: 100 + 10 * i };
                let v = &mut vs[who];
                C::run_model(&mut v.1, o);
                v.0.run_mut(o, &s.u);
            }
            1 => {
                vs.swap_remove(who);
            }
            2 => {
                let kind = choice(C::NOPS);
                let arg = C::pick(&vs[who].1, kind, &mut s.u);
                let o = Op { kind, arg, mark: 100 + 10 * i };
                let mut m = vs[who].1.clone();
                C::run_model(&mut m, o);
                if let Some(Some(c)) = vs[who].0.run_pers(o, &s.u) {
                    vs.push((c, m));
                }
            }
            _ => {
                let c = (vs[who].0.clone(), vs[who].1.clone());
                vs.push(c);
            }
        }
        check(g().alive() == reachable(&vs), 121);
        if vs.is_empty() {
            break;
        }
    }
    for (c, m) in &vs {
        c.verify(m, &s.u);
    }
    check(g().alive() == reachable(&vs), 122);
    // the versions go in any order
    while !vs.is_empty() {
        let who = choice(vs.len() as u64) as usize;
        vs.swap_remove(who);
        check(g().alive() == reachable(&vs), 123);
    }
    check(g().alive() == 0, 124);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p19_life() {
    let before = live_blocks();
    with_coll!(param(0), param(1), life());
    check(g().alive() == 0, 125);
    check(live_blocks() == before, 126);
    cover(1);
}

entries!(p19_life);
