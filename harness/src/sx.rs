//! Interface to the symbolic executor (or, in the `native` build, to the
//! replayer, which feeds one concrete assignment through the same functions).

extern "C-unwind" {
    fn sx_var(id: u32, lo: u64, hi: u64) -> u64;
    fn sx_fork(x: u64) -> u64;
    fn sx_job(n: u32) -> u32;
    fn sx_tier() -> u32;
    fn sx_assume(c: bool);
    fn sx_check(c: bool, id: u32);
    fn sx_eq(a: *const u8, alen: usize, b: *const u8, blen: usize, id: u32);
    fn sx_emit(a: *const u8, alen: usize);
    fn sx_reach(id: u32);
    fn sx_expect_panic(on: bool);
}

/// Symbolic integer in `lo..=hi` (a finite-domain variable named by `id`).
#[inline(always)]
pub fn var(id: u32, lo: u64, hi: u64) -> u64 {
    unsafe { sx_var(id, lo, hi) }
}
/// The same value, but concrete on every path (one path per value).
#[inline(always)]
pub fn fork(x: u64) -> u64 {
    unsafe { sx_fork(x) }
}
#[inline(always)]
pub fn pick(id: u32, lo: u64, hi: u64) -> u64 {
    fork(var(id, lo, hi))
}
/// Splits the exploration into `n` separately scheduled jobs.
#[inline(always)]
pub fn job(n: u32) -> u32 {
    unsafe { sx_job(n) }
}
/// 0 for the quick bounds, 1 for the thorough ones.
#[inline(always)]
pub fn tier() -> u32 {
    unsafe { sx_tier() }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
/// Assertion: a solver obligation on every path.
#[inline(always)]
pub fn check(c: bool, id: u32) {
    unsafe { sx_check(c, id) }
}
/// Assertion: the two texts are equal, byte for byte.
#[inline(always)]
pub fn eq(a: &[u8], b: &[u8], id: u32) {
    unsafe { sx_eq(a.as_ptr(), a.len(), b.as_ptr(), b.len(), id) }
}
/// Assertion: the two numbers are equal.
#[inline(always)]
pub fn num<T: Copy>(a: T, b: T, id: u32) {
    let (p, q) = (&a as *const T, &b as *const T);
    unsafe { sx_eq(p.cast(), core::mem::size_of::<T>(), q.cast(), core::mem::size_of::<T>(), id) }
}
/// Output to be compared between the symbolic and the native run.
#[inline(always)]
pub fn emit(a: &[u8]) {
    unsafe { sx_emit(a.as_ptr(), a.len()) }
}
/// Vacuity witness: at least one path must get here.
#[inline(always)]
pub fn reach(id: u32) {
    unsafe { sx_reach(id) }
}
/// From here on a panic is the expected outcome of this path.
#[inline(always)]
pub fn expect_panic(on: bool) {
    unsafe { sx_expect_panic(on) }
}
