//! Interface to the symbolic executor. Under the executor the `sym_*` functions are builtins; in the
//! native replay binary they are provided by `native.rs`, reading concrete values from a file.
extern "C" {
    fn sym_uint(bits: u32) -> u64;
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(c: bool);
    fn sym_check(c: bool, m: *const u8, n: usize);
    fn sym_reach(m: *const u8, n: usize);
    fn sym_observe(m: *const u8, n: usize, p: *const u8, k: usize);
    fn sym_fork(v: u64) -> u64;
    fn sym_alloc_limit(n: usize);
    fn sym_is_symbolic() -> bool;
    fn sym_memeq(a: *const u8, b: *const u8, n: usize) -> bool;
    fn sym_ite(c: bool, a: u64, b: u64) -> u64;
}
pub fn u64() -> u64 {
    unsafe { sym_uint(64) }
}
pub fn u32() -> u32 {
    unsafe { sym_uint(32) as u32 }
}
pub fn u16() -> u16 {
    unsafe { sym_uint(16) as u16 }
}
pub fn u8() -> u8 {
    unsafe { sym_uint(8) as u8 }
}
pub fn bool() -> bool {
    unsafe { sym_uint(1) == 1 }
}
pub fn fill(b: &mut [u8]) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn arr<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
#[track_caller]
pub fn check(c: bool, m: &'static str) {
    unsafe { sym_check(c, m.as_ptr(), m.len()) }
}
pub fn reach(m: &'static str) {
    unsafe { sym_reach(m.as_ptr(), m.len()) }
}
pub fn observe(m: &'static str, b: &[u8]) {
    unsafe { sym_observe(m.as_ptr(), m.len(), b.as_ptr(), b.len()) }
}
pub fn observe_u64(m: &'static str, v: u64) {
    observe(m, &v.to_le_bytes())
}
/// concrete value; the executor forks over every feasible one
pub fn fork(v: u64) -> u64 {
    unsafe { sym_fork(v) }
}
/// one of lo..=hi, concrete on each path
pub fn choose(lo: u64, hi: u64) -> u64 {
    if lo == hi {
        return lo;
    }
    let v = u8() as u64;
    assume(v <= hi - lo);
    fork(v) + lo
}
/// symbolic index, not forked
pub fn below(n: u64) -> u64 {
    let v = u8() as u64;
    assume(v < n);
    v
}
pub fn alloc_limit(n: usize) {
    unsafe { sym_alloc_limit(n) }
}
pub fn is_symbolic() -> bool {
    unsafe { sym_is_symbolic() }
}
/// byte equality as one formula (no branching per byte)
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { sym_memeq(a.as_ptr(), b.as_ptr(), a.len()) }
}
/// if-then-else as one formula
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { sym_ite(c, a, b) }
}
extern "C" {
    fn sym_param() -> u64;
    fn sym_live_alloc() -> u64;
}
/// 0 in the quick tier, 1 in the thorough tier
pub fn thorough() -> bool {
    unsafe { sym_param() != 0 }
}
/// upper bound of a size: `q` in the quick tier, `t` in the thorough tier
pub fn bound(q: u64, t: u64) -> u64 {
    if thorough() {
        t
    } else {
        q
    }
}
pub fn live_alloc() -> u64 {
    unsafe { sym_live_alloc() }
}
