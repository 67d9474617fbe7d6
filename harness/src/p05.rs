//! HashTrieMap against an association table.
use crate::coll::*;
use crate::common::*;
use crate::r#gen::*;
use crate::sym::*;

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p05_hist() {
    with_coll!(4, param(1), hist());
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p05_pers() {
    with_coll!(4, param(1), hist_pers());
}


/// Every degree is refused at construction or gives a working map.
fn degree<P: archery::SharedPointerKind>() {
    let d = any(8);
    let mut u = Universe::hashed(3, 64, 0);
    u.used = 3;
    let mut m = Vec::new();
    let Some(mut c) = attempt(|| rpds::HashTrieMap::<K, K, P, BH>::new_with_hasher_and_degree_and_ptr_kind(BH::default(), d as u8))
    else {
        cover(2);
        // what the documentation asks for is not refused
        check(d != 2 && d != 4 && d != 8 && d != 16 && d != 32 && d != 64, 50);
        return;
    };
    concrete(d);
    cover(3);
    for i in 0..param(0) {
        let o = Op { kind: 0, arg: i, mark: 100 + i };
        <rpds::HashTrieMap<K, K, P, BH> as Coll>::run_model(&mut m, o);
        c.run_mut(o, &u);
        c.verify(&m, &u);
    }
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p05_degree() {
    degree::<archery::RcK>();
}

entries!(p05_hist, p05_pers, p05_degree);
