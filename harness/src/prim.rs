//! Primitives of the symbolic executor (builtins there, input replay in the native build).
extern "C" {
    fn sx_u8() -> u8;
    fn sx_u16() -> u16;
    fn sx_u32() -> u32;
    fn sx_u64() -> u64;
    fn sx_choose(n: u64) -> u64;
    fn sx_assume(c: bool);
    fn sx_assert(c: bool, p: *const u8, n: usize);
    fn sx_fail(p: *const u8, n: usize) -> !;
    fn sx_observe(v: u64);
    fn sx_observe_bytes(p: *const u8, n: usize);
    fn sx_reach(p: *const u8, n: usize);
    fn sx_param(i: u64) -> u64;
    fn sx_note(p: *const u8, n: usize, v: u64);
    fn sx_concretize(v: u64) -> u64;
}
#[inline(always)] pub fn u8s() -> u8 { unsafe { sx_u8() } }
#[inline(always)] pub fn u16s() -> u16 { unsafe { sx_u16() } }
#[inline(always)] pub fn u32s() -> u32 { unsafe { sx_u32() } }
#[inline(always)] pub fn u64s() -> u64 { unsafe { sx_u64() } }
/// one path per value 0..n
#[inline(always)] pub fn choose(n: usize) -> usize { if n <= 1 { 0 } else { unsafe { sx_choose(n as u64) as usize } } }
#[inline(always)] pub fn assume(c: bool) { unsafe { sx_assume(c) } }
#[inline(always)] pub fn check(c: bool, m: &str) { unsafe { sx_assert(c, m.as_ptr(), m.len()) } }
#[inline(always)] pub fn fail(m: &str) -> ! { unsafe { sx_fail(m.as_ptr(), m.len()) } }
#[inline(always)] pub fn observe(v: u64) { unsafe { sx_observe(v) } }
#[inline(always)] pub fn observe_bytes(b: &[u8]) { unsafe { sx_observe_bytes(b.as_ptr(), b.len()) } }
#[inline(always)] pub fn reach(m: &str) { unsafe { sx_reach(m.as_ptr(), m.len()) } }
#[inline(always)] pub fn param(i: u64) -> usize { unsafe { sx_param(i) as usize } }
#[inline(always)] pub fn note(m: &str, v: u64) { unsafe { sx_note(m.as_ptr(), m.len(), v) } }
#[inline(always)] pub fn concretize(v: u64) -> u64 { unsafe { sx_concretize(v) } }

/// exact equality as one solver-level assertion (no branching per byte)
#[inline(never)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    let mut i = 0;
    while i < a.len() { d |= a[i] ^ b[i]; i += 1; }
    d == 0
}
