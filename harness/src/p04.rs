//! Stack against a LIFO.
use crate::r#gen::*;
use crate::sym::*;

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p04_hist() {
    with_coll!(3, param(1), hist());
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p04_pers() {
    with_coll!(3, param(1), hist_pers());
}

entries!(p04_hist, p04_pers);
