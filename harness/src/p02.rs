//! List against a plain sequence.
use crate::r#gen::*;
use crate::sym::*;

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p02_hist() {
    with_coll!(1, param(1), hist());
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p02_pers() {
    with_coll!(1, param(1), hist_pers());
}

entries!(p02_hist, p02_pers);
