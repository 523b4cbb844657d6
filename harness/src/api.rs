//! The interface between the harnesses and whatever runs them: the symbolic
//! executor (unknown bytes are solver variables) or the native replayer
//! (bytes come from a file).

extern "C-unwind" {
    fn verif_any(p: *mut u8, n: usize);
    fn verif_any_u64() -> u64;
    fn verif_choose(lo: u64, hi: u64) -> u64;
    fn verif_tier() -> u64;
    fn verif_assume(c: u8);
    fn verif_cover(t: *const u8, n: usize);
    fn verif_eq(t: *const u8, n: usize, a: *const u8, b: *const u8, len: usize);
    fn verif_check(t: *const u8, n: usize, c: u8);
    fn verif_fuel(n: u64);
    fn verif_work() -> u64;
    fn verif_live() -> u64;
    fn verif_skip(min_work: u64, n: u64);
    fn verif_quiet(on: u64);
    fn verif_snap(o: *const u8, size: usize, refs: *const u8, n: usize);
    fn verif_leap(o: *mut u8, size: usize, refs: *const u8, n: usize, m: u64, width: u64) -> u8;
    fn verif_leap_closed(o: *const u8, size: usize, refs: *const u8, n: usize, m: u64) -> u8;
    fn verif_deep(t: *const u8, n: usize, c: u8);
}

/// n arbitrary bytes
pub fn any(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { verif_any(v.as_mut_ptr(), n) };
    v
}
pub fn any16() -> [u8; 16] {
    let mut v = [0u8; 16];
    unsafe { verif_any(v.as_mut_ptr(), 16) };
    v
}
pub fn any_usize() -> usize {
    unsafe { verif_any_u64() as usize }
}
/// every value in lo..=hi, each explored as a job of its own
pub fn choose(lo: usize, hi: usize) -> usize {
    unsafe { verif_choose(lo as u64, hi as u64) as usize }
}
/// one of the listed values, each explored as a job of its own
pub fn pick(l: &[usize]) -> usize {
    l[choose(0, l.len() - 1)]
}
pub fn thorough() -> bool {
    unsafe { verif_tier() != 0 }
}
pub fn assume(c: bool) {
    unsafe { verif_assume(c as u8) }
}
/// a witness that this point is reachable
pub fn cover(t: &str) {
    unsafe { verif_cover(t.as_ptr(), t.len()) }
}
pub fn check(t: &str, c: bool) {
    unsafe { verif_check(t.as_ptr(), t.len(), c as u8) }
}
pub fn deep(t: &str, c: bool) {
    unsafe { verif_deep(t.as_ptr(), t.len(), c as u8) }
}
pub fn eq(t: &str, a: &[u8], b: &[u8]) {
    if a.len() != b.len() {
        check(t, false);
    } else {
        unsafe { verif_eq(t.as_ptr(), t.len(), a.as_ptr(), b.as_ptr(), a.len()) }
    }
}

/// Follow at most n instructions from here on each path; 0 ends the limit.
pub fn fuel(n: u64) {
    unsafe { verif_fuel(n) }
}
/// Work done since `fuel`: instructions, or nanoseconds on the real machine.
pub fn work() -> u64 {
    unsafe { verif_work() }
}
/// Bytes of heap memory in use.
pub fn live() -> u64 {
    unsafe { verif_live() }
}
/// Pass over n iterations of the first loop with at least `min_work`
/// instructions per iteration, once its state has been seen to advance
/// linearly.  The real machine runs them all.
pub fn skip(min_work: u64, n: u64) {
    unsafe { verif_skip(min_work, n) }
}
/// Paths that panic are left to other harnesses.
pub fn quiet(on: bool) {
    unsafe { verif_quiet(on as u64) }
}
/// Remember the state of an object after one more regular step; `refs` are
/// bytes it may have stored.
pub fn snap<T>(o: &T, refs: &[u8]) {
    unsafe { verif_snap(o as *const T as *const u8, std::mem::size_of::<T>(), refs.as_ptr(), refs.len()) }
}
/// Set the object to where m further steps take it: counters of `width` bytes
/// advanced, stored bytes replaced by `refs`, everything else as it was.
/// False: it does not evolve like that.
pub fn leap<T>(o: &mut T, refs: &[u8], m: u64, width: usize) -> bool {
    unsafe { verif_leap(o as *mut T as *mut u8, std::mem::size_of::<T>(), refs.as_ptr(), refs.len(), m, width as u64) != 0 }
}
/// After one real step from a leap to m - 1: is this the leap to m?
pub fn leap_closed<T>(o: &T, refs: &[u8], m: u64) -> bool {
    unsafe { verif_leap_closed(o as *const T as *const u8, std::mem::size_of::<T>(), refs.as_ptr(), refs.len(), m) != 0 }
}
/// an arbitrary number below 2^bits
pub fn any_bits(bits: usize) -> u64 {
    let b = any((bits + 7) / 8);
    let mut v = 0u64;
    for i in 0..b.len() {
        v |= (b[i] as u64) << (8 * i);
    }
    if bits % 8 != 0 {
        v &= (1u64 << bits) - 1;
    }
    v
}
