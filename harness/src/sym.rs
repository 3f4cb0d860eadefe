//! Interface to the symbolic executor. Under native replay the same symbols are provided by the
//! `replay` crate, which feeds the values of a recorded input vector.
extern "C" {
    fn sym_u8() -> u8;
    fn sym_u16() -> u16;
    fn sym_u32() -> u32;
    fn sym_u64() -> u64;
    fn sym_choice(n: u32) -> u32;
    fn sym_assume(b: bool);
    fn sym_assert_(b: bool, p: *const u8, n: usize);
    fn sym_fail_(p: *const u8, n: usize) -> !;
    fn sym_observe(v: u64);
    fn sym_cover(id: u32);
    fn sym_cmp_(a: *const u8, an: usize, b: *const u8, bn: usize) -> i32;
    fn sym_ite(c: bool, x: u64, y: u64) -> u64;
}
pub fn u8() -> u8 {
    unsafe { sym_u8() }
}
pub fn u16() -> u16 {
    unsafe { sym_u16() }
}
pub fn u32() -> u32 {
    unsafe { sym_u32() }
}
pub fn u64() -> u64 {
    unsafe { sym_u64() }
}
/// n-way case split: explores every value below `n` (no solver involved).
pub fn choice(n: u32) -> u32 {
    if n == 1 {
        return 0;
    }
    unsafe { sym_choice(n) }
}
pub fn flip() -> bool {
    choice(2) == 1
}
pub fn assume(b: bool) {
    unsafe { sym_assume(b) }
}
/// The property: the executor asks the solver for values on this path that make `b` false.
#[inline(never)]
pub fn check(b: bool, msg: &'static str) {
    unsafe { sym_assert_(b, msg.as_ptr(), msg.len()) }
}
#[inline(never)]
pub fn fail(msg: &str) -> ! {
    unsafe { sym_fail_(msg.as_ptr(), msg.len()) }
}
/// Values compared between the symbolic run and the native replay of the same path.
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for c in b.chunks(8) {
        let mut v = 0u64;
        for x in c {
            v = (v << 8) | *x as u64;
        }
        observe(v);
    }
}
/// Marks a situation as reached (vacuity check).
pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}
/// Lexicographic comparison without branching: <0, 0, >0.
pub fn cmp(a: &[u8], b: &[u8]) -> i32 {
    unsafe { sym_cmp_(a.as_ptr(), a.len(), b.as_ptr(), b.len()) }
}
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && cmp(a, b) == 0
}
pub fn ite(c: bool, x: u64, y: u64) -> u64 {
    unsafe { sym_ite(c, x, y) }
}
/// Harness-side unwrap that does not depend on panic formatting.
pub fn must<T, E>(r: Result<T, E>, msg: &'static str) -> T {
    match r {
        Ok(v) => v,
        Err(_) => fail(msg),
    }
}
