//! RedBlackTreeMap against an association table.
use crate::r#gen::*;
use crate::sym::*;

#[unsafe(no_mangle)]
pub extern "C-unwind" fn p06_hist() {
    with_coll!(5, param(1), hist());
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn p06_pers() {
    with_coll!(5, param(1), hist_pers());
}

entries!(p06_hist, p06_pers);
