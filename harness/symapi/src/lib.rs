//! Harness-side API of the symbolic executor (`/verif/engine`).  Under `symrs` these are
//! interpreted; in the native replay binary they read back a recorded assignment.
#![no_std]
extern crate std;
extern "C" {
    fn symrs_make(p: *mut u8, n: usize);
    fn symrs_choose(n: u32) -> u32;
    fn symrs_u64() -> u64;
    fn symrs_assume(b: bool);
    fn symrs_check(b: bool, m: *const u8, ml: usize);
    fn symrs_check_known(b: bool, m: *const u8, ml: usize, id: *const u8, il: usize);
    fn symrs_reach(m: *const u8, ml: usize);
    fn symrs_observe(p: *const u8, n: usize);
    fn symrs_conc(v: u64) -> u64;
    fn symrs_hash_mode(m: u32);
    fn symrs_panic_mode(m: u32, p: *const u8, n: usize);
    fn symrs_is_sym() -> bool;
    fn symrs_vfs_put(n: *const u8, nl: usize, d: *const u8, dl: usize);
    fn symrs_vfs_mode(n: *const u8, nl: usize, mode: u32);
    fn symrs_stdout(n: *const u8, nl: usize);
    fn symrs_vfs_get(n: *const u8, nl: usize, o: *mut u8, cap: usize) -> i64;
}
/// N fresh symbolic bytes.
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { symrs_make(b.as_mut_ptr(), N) };
    b
}
pub fn fill(b: &mut [u8]) {
    unsafe { symrs_make(b.as_mut_ptr(), b.len()) }
}
/// A value in `0..n`; the executor forks when it is branched on.
pub fn choose(n: u32) -> u32 {
    unsafe { symrs_choose(n) }
}
/// A value in `0..n`; the executor forks one path per value at once.
pub fn pick(n: u32) -> u32 {
    conc(choose(n) as u64) as u32
}
pub fn any_u64() -> u64 {
    unsafe { symrs_u64() }
}
pub fn any_bool() -> bool {
    choose(2) == 1
}
pub fn assume(b: bool) {
    unsafe { symrs_assume(b) }
}
#[inline(never)]
pub fn check(b: bool, msg: &str) {
    unsafe { symrs_check(b, msg.as_ptr(), msg.len()) }
}
/// As `check`, but a failure is the recorded finding `id` (see /verif/known_findings.jsonl).
#[inline(never)]
pub fn check_known(b: bool, msg: &str, id: &str) {
    unsafe { symrs_check_known(b, msg.as_ptr(), msg.len(), id.as_ptr(), id.len()) }
}
#[inline(never)]
pub fn reach(label: &str) {
    unsafe { symrs_reach(label.as_ptr(), label.len()) }
}
/// Bytes compared between symbolic execution and native replay of sampled paths.
pub fn observe(b: &[u8]) {
    unsafe { symrs_observe(b.as_ptr(), b.len()) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { symrs_conc(v) }
}
pub fn hash_mode(m: u32) {
    unsafe { symrs_hash_mode(m) }
}
/// From here on a panic is the failure it is by default.
pub fn panic_fails() {
    unsafe { symrs_panic_mode(0, [0u8; 1].as_ptr(), 0) }
}
/// From here on a panic ends the path without a verdict: it is what the property asks for.
pub fn panic_ends() {
    unsafe { symrs_panic_mode(1, [0u8; 1].as_ptr(), 0) }
}
/// From here on a panic is the recorded finding `id`.
pub fn panic_known(id: &str) {
    unsafe { symrs_panic_mode(2, id.as_ptr(), id.len()) }
}
pub fn is_sym() -> bool {
    unsafe { symrs_is_sym() }
}
pub fn vfs_put(name: &str, data: &[u8]) {
    unsafe { symrs_vfs_put(name.as_ptr(), name.len(), data.as_ptr(), data.len()) }
}
pub fn vfs_get(name: &str, out: &mut [u8]) -> Option<usize> {
    let r = unsafe { symrs_vfs_get(name.as_ptr(), name.len(), out.as_mut_ptr(), out.len()) };
    if r < 0 {
        None
    } else {
        Some(r as usize)
    }
}
/// Make `name` a directory.
pub fn vfs_dir(name: &str) {
    unsafe { symrs_vfs_mode(name.as_ptr(), name.len(), 2) }
}
/// Make opening `name` fail with "permission denied".
pub fn vfs_deny(name: &str) {
    unsafe { symrs_vfs_mode(name.as_ptr(), name.len(), 1) }
}
/// From here on standard output goes to the file `name`.
pub fn stdout_to(name: &str) {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { symrs_stdout(name.as_ptr(), name.len()) }
}
/// From here on standard output goes where it went before.
pub fn stdout_back() {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { symrs_stdout([0u8; 1].as_ptr(), 0) }
}
