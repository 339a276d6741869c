//! Native replay of one assignment of the symbolic inputs against the compiled code.
//! usage: replay ENTRY SCRATCH v0 v1 ...   (decimal, in creation order)
//! exit 0: the entry returned;  1: a check failed or the code panicked;  4: an assumption failed;
//! 5: the inputs ran out.  Observations are printed as `obs <hex>`, failures as `FAIL ...`.
extern crate props;
include!(concat!(env!("OUT_DIR"), "/table.rs"));
use std::cell::RefCell;
#[derive(Default)]
struct St {
    vals: Vec<u64>,
    at: usize,
    obs: String,
    dir: String,
    known: Vec<String>,
    panics: (u32, String),
}
thread_local! { static ST: RefCell<St> = RefCell::new(St::default()); }
fn next() -> u64 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let i = s.at;
        s.at += 1;
        match s.vals.get(i) {
            Some(v) => *v,
            None => {
                drop(s);
                finish(5)
            }
        }
    })
}
static SAVED: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
extern "C" {
    fn dup(a: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(a: i32) -> i32;
}
fn restore() {
    use std::io::Write;
    let s = SAVED.swap(-1, std::sync::atomic::Ordering::SeqCst);
    if s >= 0 {
        let _ = std::io::stdout().flush();
        unsafe {
            dup2(s, 1);
            close(s);
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn symrs_stdout(n: *const u8, nl: usize) {
    use std::os::fd::AsRawFd;
    restore();
    if nl > 0 {
        let f = std::fs::File::create(scratch(st(n, nl))).unwrap();
        SAVED.store(dup(1), std::sync::atomic::Ordering::SeqCst);
        dup2(f.as_raw_fd(), 1);
    }
}
fn finish(c: i32) -> ! {
    use std::io::Write;
    restore();
    ST.with(|s| {
        if let Ok(s) = s.try_borrow() {
            println!("obs {}", s.obs);
            for k in &s.known { println!("known {}", k); }
        }
    });
    let _ = std::io::stdout().flush();
    std::process::exit(c)
}
unsafe fn st(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
#[no_mangle]
pub unsafe extern "C" fn symrs_make(p: *mut u8, n: usize) {
    for i in 0..n { *p.add(i) = next() as u8; }
}
#[no_mangle]
pub extern "C" fn symrs_choose(_n: u32) -> u32 { next() as u32 }
#[no_mangle]
pub extern "C" fn symrs_u64() -> u64 { next() }
#[no_mangle]
pub extern "C" fn symrs_assume(b: bool) { if !b { finish(4) } }
#[no_mangle]
pub unsafe extern "C" fn symrs_check(b: bool, m: *const u8, ml: usize) {
    if !b {
        restore();
        println!("FAIL check: {}", st(m, ml));
        finish(1)
    }
}
#[no_mangle]
pub unsafe extern "C" fn symrs_check_known(b: bool, m: *const u8, ml: usize, id: *const u8, il: usize) {
    if !b {
        let t = format!("{} {}", st(id, il), st(m, ml));
        ST.with(|s| s.borrow_mut().known.push(t));
    }
}
#[no_mangle]
pub extern "C" fn symrs_reach(_m: *const u8, _ml: usize) {}
#[no_mangle]
pub unsafe extern "C" fn symrs_observe(p: *const u8, n: usize) {
    let mut h = String::new();
    for b in std::slice::from_raw_parts(p, n) { h.push_str(&format!("{:02x}", b)); }
    ST.with(|s| s.borrow_mut().obs.push_str(&h));
}
#[no_mangle]
pub extern "C" fn symrs_conc(v: u64) -> u64 { v }
#[no_mangle]
pub extern "C" fn symrs_hash_mode(_m: u32) {}
#[no_mangle]
pub unsafe extern "C" fn symrs_panic_mode(m: u32, p: *const u8, n: usize) {
    let id = st(p, n);
    ST.with(|s| s.borrow_mut().panics = (m, id));
}
#[no_mangle]
pub extern "C" fn symrs_is_sym() -> bool { false }
fn scratch(n: String) -> std::path::PathBuf {
    assert!(!n.contains("..") );
    let d = ST.with(|s| s.borrow().dir.clone());
    std::path::Path::new(&d).join(n.trim_start_matches('/'))
}
#[no_mangle]
pub unsafe extern "C" fn symrs_vfs_put(n: *const u8, nl: usize, d: *const u8, dl: usize) {
    let p = scratch(st(n, nl));
    std::fs::write(p, std::slice::from_raw_parts(d, dl)).unwrap();
}
#[no_mangle]
pub unsafe extern "C" fn symrs_vfs_get(n: *const u8, nl: usize, o: *mut u8, cap: usize) -> i64 {
    match std::fs::read(scratch(st(n, nl))) {
        Err(_) => -1,
        Ok(b) => {
            let k = b.len().min(cap);
            std::ptr::copy_nonoverlapping(b.as_ptr(), o, k);
            b.len() as i64
        }
    }
}
extern "C" {
    fn seteuid(u: u32) -> i32;
}
#[no_mangle]
pub unsafe extern "C" fn symrs_vfs_mode(n: *const u8, nl: usize, mode: u32) {
    use std::os::unix::fs::PermissionsExt;
    let p = scratch(st(n, nl));
    match mode {
        // nobody has no rights on the file; root would ignore them
        1 => {
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0)).unwrap();
            std::fs::set_permissions(scratch(String::new()), std::fs::Permissions::from_mode(0o777)).unwrap();
            seteuid(65534);
        }
        2 => std::fs::create_dir_all(&p).unwrap(),
        _ => drop(std::fs::remove_file(&p)),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = match TABLE.iter().find(|x| x.0 == a[1]) {
        Some(f) => f.1,
        None => {
            println!("no entry {}", a[1]);
            std::process::exit(6)
        }
    };
    let dir = a[2].clone();
    let vals: Vec<u64> = a[3..].iter().map(|x| x.parse().unwrap()).collect();
    std::env::set_current_dir(&dir).unwrap();
    std::panic::set_hook(Box::new(|i| {
        let mode = ST.with(|s| s.try_borrow().map(|s| s.panics.clone()).unwrap_or_default());
        restore();
        let text = i.to_string().replace('\n', " ");
        if mode.0 == 1 {
            finish(0)
        }
        if mode.0 == 2 {
            println!("known {} panic: {}", mode.1, text);
            finish(0)
        }
        println!("FAIL panic: {}", text);
        finish(1)
    }));
    let t = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            ST.with(|s| {
                let mut s = s.borrow_mut();
                s.vals = vals;
                s.dir = dir;
            });
            unsafe { f() };
            finish(0)
        })
        .unwrap();
    let _ = t.join();
}
