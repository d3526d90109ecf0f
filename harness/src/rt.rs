//! Symbolic interface: `sym_*` are interpreted by the engine; natively they read a replay file.
#![allow(dead_code)]
pub use llm_samplers::prelude::*;
pub use llm_samplers::configure::*;
extern "C" {
    fn sym_bits(n: *const u8, l: u64, w: u32) -> u64;
    fn sym_range(n: *const u8, l: u64, lo: u64, hi: u64) -> u64;
    fn sym_assume(b: bool);
    fn sym_assert(b: bool, n: *const u8, l: u64);
    fn sym_reach(n: *const u8, l: u64);
    fn sym_require(n: *const u8, l: u64);
    fn sym_observe(v: u64);
    fn sym_concretize(v: u64) -> u64;
    fn sym_is_engine() -> bool;
    fn sym_may_wait();
}
#[inline]
pub fn bits(n: &str, w: u32) -> u64 {
    unsafe { sym_bits(n.as_ptr(), n.len() as u64, w) }
}
#[inline]
pub fn u(n: &str, lo: u64, hi: u64) -> u64 {
    unsafe { sym_range(n.as_ptr(), n.len() as u64, lo, hi) }
}
#[inline]
pub fn boolean(n: &str) -> bool {
    u(n, 0, 1) != 0
}
/// from here on another thread is taken to hold what the code waits for: a call that blocks is fine
pub fn may_wait() {
    unsafe { sym_may_wait() }
}
/// any f32 bit pattern
#[inline]
pub fn f_any(n: &str) -> f32 {
    f32::from_bits(bits(n, 32) as u32)
}
/// any f32 except NaN
#[inline]
pub fn f_num(n: &str) -> f32 {
    let f = f_any(n);
    assume(!nan(f));
    f
}
/// any finite f32
#[inline]
pub fn f_fin(n: &str) -> f32 {
    let f = f_any(n);
    assume((f.to_bits() & 0x7f80_0000) != 0x7f80_0000);
    f
}
/// finite f32 in [lo,hi]
#[inline]
pub fn f_in(n: &str, lo: f32, hi: f32) -> f32 {
    let f = f_any(n);
    assume((lo <= f) & (f <= hi));
    f
}
#[inline]
pub fn nan(f: f32) -> bool {
    (f.to_bits() & 0x7fff_ffff) > 0x7f80_0000
}
#[inline]
pub fn finite(f: f32) -> bool {
    (f.to_bits() & 0x7f80_0000) != 0x7f80_0000
}
#[inline]
pub fn assume(b: bool) {
    unsafe { sym_assume(b) }
}
#[inline]
pub fn check(b: bool, id: &str) {
    unsafe { sym_assert(b, id.as_ptr(), id.len() as u64) }
}
/// coverage label: recorded when some explored path gets here
#[inline]
pub fn reach(id: &str) {
    unsafe { sym_reach(id.as_ptr(), id.len() as u64) }
}
/// declares that label `id` must be reached by some path of this run (vacuity guard)
#[inline]
pub fn require(id: &str) {
    unsafe { sym_require(id.as_ptr(), id.len() as u64) }
}
#[inline]
pub fn obs(v: u64) {
    unsafe { sym_observe(v) }
}
#[inline]
pub fn pin(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
#[inline]
pub fn engine() -> bool {
    unsafe { sym_is_engine() }
}
#[inline]
pub fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits()
}
/// observe a float (all NaNs are alike)
pub fn obs_f(f: f32) {
    obs(if nan(f) { 0x7fc0_0000 } else { f.to_bits() as u64 })
}
pub fn obs_logits(l: &Logits) {
    obs(l.len() as u64);
    obs(l.get_sorted() as u64 | (l.get_softmax() as u64) << 1);
    for x in l.iter() {
        obs(x.token_id as u64);
        obs_f(x.logit);
        obs_f(x.prob);
    }
}
#[macro_export]
macro_rules! entries {
    ($($n:ident $b:block)*) => {
        $( #[no_mangle] pub extern "C" fn $n() $b )*
        pub const ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n as extern "C" fn())),*];
    };
}
