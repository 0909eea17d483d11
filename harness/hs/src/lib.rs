//! Harness interface of hopsym.
//!
//! Under the symbolic executor the `hs_*` functions are builtins; with the
//! `native` feature they are provided by `rt` so that a counterexample (or a
//! sampled path) runs natively, from recorded inputs and a recorded schedule.

pub mod raw {
    extern "C" {
        pub fn hs_sym(bits: u32) -> u64;
        pub fn hs_choice(n: u64) -> u64;
        pub fn hs_assume(c: bool);
        pub fn hs_assert(c: bool, msg: *const u8, len: usize);
        pub fn hs_cover(msg: *const u8, len: usize);
        pub fn hs_bound(msg: *const u8, len: usize, v: u64);
        pub fn hs_note(v: u64);
        pub fn hs_concretize(v: u64) -> u64;
        pub fn hs_is_symbolic() -> bool;
        pub fn hs_known(c: bool) -> bool;
        pub fn hs_spawn(f: extern "C" fn(usize), arg: usize);
        pub fn hs_yield();
        pub fn hs_block();
        pub fn hs_wake();
        pub fn hs_join();
        pub fn hs_thread() -> u64;
        pub fn hs_set_flag(k: u64, v: u64);
        pub fn hs_flag(k: u64) -> u64;
    }
}

#[cfg(feature = "native")]
pub mod rt;

pub fn sym_u8() -> u8 {
    unsafe { raw::hs_sym(8) as u8 }
}
pub fn sym_u16() -> u16 {
    unsafe { raw::hs_sym(16) as u16 }
}
pub fn sym_u32() -> u32 {
    unsafe { raw::hs_sym(32) as u32 }
}
pub fn sym_u64() -> u64 {
    unsafe { raw::hs_sym(64) }
}
pub fn sym_i64() -> i64 {
    sym_u64() as i64
}
pub fn sym_f64() -> f64 {
    f64::from_bits(sym_u64())
}
pub fn sym_bool() -> bool {
    unsafe { raw::hs_sym(1) != 0 }
}
/// `n` arbitrary bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(sym_u8());
    }
    v
}
/// An arbitrary number below `n`, split into its cases.
pub fn choice(n: usize) -> usize {
    unsafe { raw::hs_choice(n as u64) as usize }
}
/// An arbitrary number in `lo..=hi`, split into its cases.
pub fn range(lo: usize, hi: usize) -> usize {
    lo + choice(hi - lo + 1)
}
pub fn assume(c: bool) {
    unsafe { raw::hs_assume(c) }
}
pub fn check(c: bool, msg: &'static str) {
    unsafe { raw::hs_assert(c, msg.as_ptr(), msg.len()) }
}
pub fn cover(msg: &'static str) {
    unsafe { raw::hs_cover(msg.as_ptr(), msg.len()) }
}
pub fn bound(msg: &'static str, v: u64) {
    unsafe { raw::hs_bound(msg.as_ptr(), msg.len(), v) }
}
/// An observation: compared between the encoding and the native run.
pub fn note(v: u64) {
    unsafe { raw::hs_note(v) }
}
pub fn note_bytes(b: &[u8]) {
    note(b.len() as u64);
    for x in b {
        note(*x as u64);
    }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { raw::hs_concretize(v) }
}
pub fn is_symbolic() -> bool {
    unsafe { raw::hs_is_symbolic() }
}
/// Whether the condition is true whatever the inputs are, as far as that can
/// be told without the solver. Only to save work: natively it is `c`.
pub fn known(c: bool) -> bool {
    unsafe { raw::hs_known(c) }
}
/// Whether this is the thorough run, with larger bounds.
pub fn deep() -> bool {
    unsafe { raw::hs_flag(100) != 0 }
}
pub fn join() {
    unsafe { raw::hs_join() }
}
/// Let iteration over unordered containers run in either order.
pub fn any_iteration_order() {
    let r = choice(2);
    unsafe { raw::hs_set_flag(1, r as u64) }
}

extern "C" fn tramp<F: FnOnce()>(p: usize) {
    let f = unsafe { Box::from_raw(p as *mut F) };
    f();
}
/// Start a concurrent thread. The closure must own its data.
pub fn spawn<F: FnOnce() + 'static>(f: F) {
    let p = Box::into_raw(Box::new(f)) as usize;
    unsafe { raw::hs_spawn(tramp::<F>, p) }
}

/// A pair of boolean conditions combined without branching.
pub fn both(a: bool, b: bool) -> bool {
    a & b
}

#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C" fn $n() $b )*
        #[allow(dead_code)]
        pub const TABLE: &[(&str, extern "C" fn())] = &[ $((stringify!($n), $n)),* ];
    };
}
