//! Scheduling points of the model (not part of the real crate).
use hs::raw;

pub(crate) fn reverse() -> bool {
    unsafe { raw::hs_flag(1) != 0 }
}
/// Start of a map operation: another thread may run first.
pub(crate) fn op() {
    unsafe { raw::hs_yield() }
}
pub(crate) fn block() {
    unsafe { raw::hs_block() }
}
pub(crate) fn wake() {
    unsafe { raw::hs_wake() }
}
pub(crate) fn me() -> usize {
    unsafe { raw::hs_thread() as usize }
}
