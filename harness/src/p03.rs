//! Queue against a FIFO.
use crate::r#gen::*;
use crate::sym::*;

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p03_hist() {
    with_coll!(2, param(1), hist());
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p03_pers() {
    with_coll!(2, param(1), hist_pers());
}

entries!(p03_hist, p03_pers);
