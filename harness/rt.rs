//! Harness interface. Under `vf_ir` the primitives are externals interpreted by
//! the symbolic executor; otherwise they replay a recorded list of input bytes.
#![allow(dead_code, improper_ctypes)]

#[cfg(vf_ir)]
extern "C-unwind" {
    fn vf_sym(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn vf_choice(n: u32) -> u32;
    fn vf_assume(c: u8);
    fn vf_assert(c: u8, m: *const u8, n: usize);
    fn vf_reach(m: *const u8, n: usize);
    fn vf_observe(p: *const u8, n: usize);
    fn vf_concretize(v: u64) -> u64;
    fn vf_catch(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32;
    fn vf_config(k: u32, v: u64);
    fn vf_print(p: *const u8, n: usize);
    fn vf_set_clock(secs: i64, nanos: i64);
    fn vf_steps() -> u64;
    fn vf_net_listening(port: u32) -> u32;
    fn vf_net_connect(port: u32) -> i32;
    fn vf_net_send(c: i32, p: *const u8, n: usize) -> isize;
    fn vf_net_recv(c: i32, p: *mut u8, n: usize) -> isize;
    fn vf_net_close(c: i32);
}
#[cfg(not(vf_ir))]
use super::verif_native::*;

/// `N` unconstrained bytes.
pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { vf_sym(b.as_mut_ptr(), N, name.as_ptr(), name.len()) };
    b
}
pub fn byte(name: &str) -> u8 {
    bytes::<1>(name)[0]
}
/// A symbolic byte from an inclusive range.
pub fn range(name: &str, lo: u8, hi: u8) -> u8 {
    let b = byte(name);
    assume((b >= lo) & (b <= hi));
    b
}
/// Branches: every value below `n` is explored.
pub fn choice(n: u32) -> u32 {
    if n < 256 {
        return unsafe { vf_choice(n) };
    }
    let m = (n + 127) / 128;
    let h = choice(m);
    h * 128 + choice(if h + 1 == m { n - 128 * (m - 1) } else { 128 })
}
pub fn flag() -> bool {
    choice(2) == 1
}
pub fn assume(c: bool) {
    unsafe { vf_assume(c as u8) }
}
/// The property: `label` names what fails.
pub fn check(c: bool, label: &str) {
    unsafe { vf_assert(c as u8, label.as_ptr(), label.len()) }
}
/// Vacuity witness: the run must reach every declared label.
pub fn reach(label: &str) {
    unsafe { vf_reach(label.as_ptr(), label.len()) }
}
/// Compared between the symbolic run and the native build.
pub fn observe(b: &[u8]) {
    unsafe { vf_observe(b.as_ptr(), b.len()) }
}
pub fn observe_n(v: u64) {
    observe(&v.to_le_bytes())
}
pub fn concretize(v: u64) -> u64 {
    unsafe { vf_concretize(v) }
}
pub fn config(k: u32, v: u64) {
    unsafe { vf_config(k, v) }
}
pub fn print(s: &str) {
    unsafe { vf_print(s.as_ptr(), s.len()) }
}
pub fn set_clock(secs: i64) {
    unsafe { vf_set_clock(secs, 0) }
}
pub fn set_clock_nanos(secs: i64, nanos: i64) {
    unsafe { vf_set_clock(secs, nanos) }
}
/// Runs `f`; None when it panicked.
pub fn catch<R, F: FnOnce() -> R>(f: F) -> Option<R> {
    struct D<F, R> {
        f: Option<F>,
        r: Option<R>,
    }
    extern "C-unwind" fn go<R, F: FnOnce() -> R>(p: *mut u8) {
        let d = unsafe { &mut *(p as *mut D<F, R>) };
        let f = d.f.take().unwrap();
        d.r = Some(f());
    }
    let mut d = D { f: Some(f), r: None };
    let c = unsafe { vf_catch(go::<R, F>, &mut d as *mut D<F, R> as *mut u8) };
    if c == 0 {
        d.r.take()
    } else {
        None
    }
}
/// Runs `f`; a panic is a violation named `label`.
pub fn no_panic<R, F: FnOnce() -> R>(label: &str, f: F) -> R {
    match catch(f) {
        Some(r) => r,
        None => {
            check(false, label);
            assume(false);
            unreachable!()
        }
    }
}
/// Adversarial map iteration order: up to `n` distinct keys take any order.
pub fn any_order(n: u64) {
    config(2, n)
}
/// Adversarial map iteration order: every pair of keys is iterated in both orders.
pub fn pair_order() {
    config(2, 1000)
}
/// What the process has done so far: instructions, or natively nanoseconds of processor time.
pub fn work() -> u64 {
    unsafe { vf_steps() }
}
pub fn net_listening(port: u16) -> bool {
    unsafe { vf_net_listening(port as u32) != 0 }
}
pub fn net_connect(port: u16) -> i32 {
    unsafe { vf_net_connect(port as u32) }
}
pub fn net_send(c: i32, b: &[u8]) -> bool {
    unsafe { vf_net_send(c, b.as_ptr(), b.len()) == b.len() as isize }
}
/// None: nothing available now; Some(0 bytes): end of stream.
pub fn net_recv(c: i32, max: usize) -> Option<Vec<u8>> {
    let mut v = vec![0u8; max];
    let n = unsafe { vf_net_recv(c, v.as_mut_ptr(), max) };
    if n < 0 {
        None
    } else {
        v.truncate(n as usize);
        Some(v)
    }
}
pub fn net_close(c: i32) {
    unsafe { vf_net_close(c) }
}
/// A port nothing listens on.
pub fn free_port(k: u16) -> u16 {
    #[cfg(vf_ir)]
    return 10114 + k;
    #[cfg(not(vf_ir))]
    return super::verif_native::vf_port();
}
