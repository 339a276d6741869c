//! Models of the environment: allocator, libc, panics, hashing and the `symrs_*` harness interface.
use crate::expr::{self, C as Cm, E};
use crate::ir::*;
use crate::vm::*;
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum M {
    None,
    Ignore,
    Zero,
    One,
    MinusOne,
    StackRem,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    RAlloc,
    RAllocZ,
    RDealloc,
    RRealloc,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Getenv,
    Write,
    Writev,
    Abort,
    Panic,
    PanicNoLoc,
    HashWrite,
    HashFinish,
    HashKeys,
    CpuFeatures,
    Print,
    Errno,
    GetrandomSyscall,
    Getrandom,
    Open,
    Close,
    Read,
    Statx,
    Stat,
    Fstat,
    Lseek,
    Ignore0,
    // llvm
    WithOv(u8), // 0 uadd 1 sadd 2 usub 3 ssub 4 umul 5 smul
    MinMax(u8), // 0 umin 1 umax 2 smin 3 smax
    Sat(u8),    // 0 uadd 1 usub 2 sadd 3 ssub
    Cmp3(bool),
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    Abs,
    Expect,
    Assume,
    IsConst,
    Trap,
    TlsAddr,
    Ptrmask,
    ObjectSize,
    FAbs,
    FMisc(u8), // 0 floor 1 ceil 2 trunc 3 rint/roundeven 4 round 5 sqrt 6 copysign 7 minnum 8 maxnum 9 powi
    FpToIntSat(bool),
    VReduce(u8), // 0 or 1 and 2 add 3 xor 4 umax 5 umin
    // harness
    SMake,
    SChoose,
    SU64,
    SAssume,
    SCheck,
    SCheckKnown,
    SReach,
    SObserve,
    SConc,
    SHashMode,
    SPanicMode,
    SIsSym,
    SVfsPut,
    SVfsGet,
    SVfsMode,
    SStdout,
    Opendir,
    Readdir,
}

#[derive(Default)]
pub struct Vfs {
    pub random: u64,
    pub files: Vec<(Vec<u8>, Vec<V>)>,
    pub fds: Vec<Option<(usize, usize, bool, bool)>>, // file, pos, readable, writable
    pub errno: Option<u64>,
    /// names that are directories
    pub dirs: Vec<Vec<u8>>,
    /// names the process may not open
    pub denied: Vec<Vec<u8>>,
    /// open directory streams: handle, entry buffer, names left
    pub streams: Vec<(u64, u64, Vec<Vec<u8>>)>,
    /// the file that takes what is written to standard output, while it is captured
    pub stdout: Option<Vec<u8>>,
}

pub fn resolve(m: &Module) -> Vec<M> {
    m.funcs
        .iter()
        .map(|f| {
            let n = std::str::from_utf8(f.name).unwrap_or("");
            if let Some(r) = n.strip_prefix("llvm.") {
                return llvm(r);
            }
            match n {
                "malloc" => return M::Malloc,
                "calloc" => return M::Calloc,
                "realloc" => return M::Realloc,
                "free" => return M::Free,
                "posix_memalign" => return M::PosixMemalign,
                "memcpy" | "memmove" => return M::Memcpy,
                "memset" => return M::Memset,
                "memcmp" => return M::Memcmp,
                "bcmp" => return M::Bcmp,
                "strlen" => return M::Strlen,
                "getenv" => return M::Getenv,
                "write" => return M::Write,
                "writev" => return M::Writev,
                "abort" | "exit" | "_exit" => return M::Abort,
                "__cxa_thread_atexit_impl" | "pthread_self" | "sched_yield" | "sigaction" | "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" | "dlsym" | "fcntl" => return M::Zero,
                "sched_getaffinity" | "isatty" | "dirfd" => return M::MinusOne,
                "sysconf" => return M::One,
                "__errno_location" => return M::Errno,
                "getrandom" => return M::Getrandom,
                "syscall" => return M::GetrandomSyscall,
                "open64" | "open" => return M::Open,
                "close" => return M::Close,
                "read" => return M::Read,
                "statx" => return M::Statx,
                "fstat64" => return M::Fstat,
                "stat64" | "lstat64" => return M::Stat,
                "lseek64" => return M::Lseek,
                "symrs_make" => return M::SMake,
                "symrs_choose" => return M::SChoose,
                "symrs_u64" => return M::SU64,
                "symrs_assume" => return M::SAssume,
                "symrs_check" => return M::SCheck,
                "symrs_check_known" => return M::SCheckKnown,
                "symrs_reach" => return M::SReach,
                "symrs_observe" => return M::SObserve,
                "symrs_conc" => return M::SConc,
                "symrs_hash_mode" => return M::SHashMode,
                "symrs_panic_mode" => return M::SPanicMode,
                "symrs_is_sym" => return M::SIsSym,
                "symrs_vfs_put" => return M::SVfsPut,
                "symrs_vfs_get" => return M::SVfsGet,
                "symrs_vfs_mode" => return M::SVfsMode,
                "symrs_stdout" => return M::SStdout,
                "opendir" => return M::Opendir,
                "readdir64" => return M::Readdir,
                "closedir" => return M::Zero,
                _ => {}
            }
            if !n.starts_with("_R") && !n.starts_with("_ZN") {
                return M::None;
            }
            let interesting = ["panic", "3sip", "alloc", "hashmap_random_keys", "print", "remaining_stack", "detect", "abort", "unwrap_failed"].iter().any(|k| n.contains(k));
            if !interesting {
                return M::None;
            }
            let d = format!("{:#}", rustc_demangle::demangle(n));
            match d.as_str() {
                "__rustc::__rust_alloc" => M::RAlloc,
                "__rustc::__rust_alloc_zeroed" => M::RAllocZ,
                "__rustc::__rust_dealloc" => M::RDealloc,
                "__rustc::__rust_realloc" => M::RRealloc,
                "__rustc::__rust_no_alloc_shim_is_unstable_v2" | "__rustc::__rust_no_alloc_shim_is_unstable" => M::Ignore,
                "core::panicking::panic_fmt" | "core::panicking::panic_nounwind_fmt" | "core::panicking::panic_nounwind" => M::Panic,
                "std::process::abort" | "std::sys::abort_internal" | "std::sys::pal::unix::abort_internal" => M::Abort,
                "<core::hash::sip::Hasher<core::hash::sip::Sip13Rounds> as core::hash::Hasher>::write" => M::HashWrite,
                "<core::hash::sip::Hasher<core::hash::sip::Sip13Rounds> as core::hash::Hasher>::finish" => M::HashFinish,
                "std::io::stdio::_print" => M::Print,
                "std::io::stdio::_eprint" => M::Ignore,
                "stacker::remaining_stack" => M::StackRem,
                _ if d.ends_with("::hashmap_random_keys") => M::HashKeys,
                _ if d.starts_with("std::panicking::begin_panic") || d.starts_with("std::panicking::panic_any") => M::PanicNoLoc,
                _ if d.starts_with("std_detect::detect::os::detect_features") || d.starts_with("std_detect::detect::cache::detect_and_initialize") => M::CpuFeatures,
                _ => M::None,
            }
        })
        .collect()
}

fn llvm(r: &str) -> M {
    let s = |p: &str| r.starts_with(p);
    if s("lifetime.") || s("dbg.") || s("experimental.noalias") || s("donothing") || s("prefetch") || s("x86.sse2.pause") || s("invariant.") {
        M::Ignore
    } else if s("memcpy.") || s("memmove.") {
        M::Memcpy
    } else if s("memset.") {
        M::Memset
    } else if s("uadd.with.overflow") {
        M::WithOv(0)
    } else if s("sadd.with.overflow") {
        M::WithOv(1)
    } else if s("usub.with.overflow") {
        M::WithOv(2)
    } else if s("ssub.with.overflow") {
        M::WithOv(3)
    } else if s("umul.with.overflow") {
        M::WithOv(4)
    } else if s("smul.with.overflow") {
        M::WithOv(5)
    } else if s("umin.") {
        M::MinMax(0)
    } else if s("umax.") {
        M::MinMax(1)
    } else if s("smin.") {
        M::MinMax(2)
    } else if s("smax.") {
        M::MinMax(3)
    } else if s("uadd.sat") {
        M::Sat(0)
    } else if s("usub.sat") {
        M::Sat(1)
    } else if s("sadd.sat") {
        M::Sat(2)
    } else if s("ssub.sat") {
        M::Sat(3)
    } else if s("ucmp.") {
        M::Cmp3(false)
    } else if s("scmp.") {
        M::Cmp3(true)
    } else if s("ctpop.") {
        M::Ctpop
    } else if s("ctlz.") {
        M::Ctlz
    } else if s("cttz.") {
        M::Cttz
    } else if s("bswap.") {
        M::Bswap
    } else if s("bitreverse.") {
        M::Bitreverse
    } else if s("fshl.") {
        M::Fshl
    } else if s("fshr.") {
        M::Fshr
    } else if s("abs.") {
        M::Abs
    } else if s("expect.") {
        M::Expect
    } else if s("assume") {
        M::Assume
    } else if s("is.constant") {
        M::IsConst
    } else if s("trap") || s("ubsantrap") {
        M::Trap
    } else if s("threadlocal.address") {
        M::TlsAddr
    } else if s("ptrmask") {
        M::Ptrmask
    } else if s("objectsize") {
        M::ObjectSize
    } else if s("fabs.") {
        M::FAbs
    } else if s("floor.") {
        M::FMisc(0)
    } else if s("ceil.") {
        M::FMisc(1)
    } else if s("trunc.") {
        M::FMisc(2)
    } else if s("rint.") || s("roundeven.") || s("nearbyint.") {
        M::FMisc(3)
    } else if s("round.") {
        M::FMisc(4)
    } else if s("sqrt.") {
        M::FMisc(5)
    } else if s("copysign.") {
        M::FMisc(6)
    } else if s("minnum.") {
        M::FMisc(7)
    } else if s("maxnum.") {
        M::FMisc(8)
    } else if s("fptoui.sat") {
        M::FpToIntSat(false)
    } else if s("fptosi.sat") {
        M::FpToIntSat(true)
    } else if s("vector.reduce.or") {
        M::VReduce(0)
    } else if s("vector.reduce.and") {
        M::VReduce(1)
    } else if s("vector.reduce.add") {
        M::VReduce(2)
    } else if s("vector.reduce.xor") {
        M::VReduce(3)
    } else if s("vector.reduce.umax") {
        M::VReduce(4)
    } else if s("vector.reduce.umin") {
        M::VReduce(5)
    } else {
        M::None
    }
}

impl Vm {
    fn arg(&mut self, a: &[V], i: usize) -> X<u64> {
        let v = a[i].clone();
        self.conc_v(&v)
    }
    fn cstr(&mut self, p: u64) -> X<Vec<u8>> {
        let mut v = vec![];
        let mut i = 0;
        loop {
            let b = self.load_int(p + i, 1, 8)?;
            let b = self.conc_v(&b)? as u8;
            if b == 0 {
                return Ok(v);
            }
            v.push(b);
            i += 1;
        }
    }
    fn text(&mut self, p: u64, n: u64) -> X<String> {
        let b = self.conc_bytes(p, n)?;
        Ok(String::from_utf8_lossy(&b).into_owned())
    }
    fn set_errno(&mut self, e: u64) -> X<()> {
        let p = match self.files.errno {
            Some(p) => p,
            None => {
                let p = self.alloc(4)?;
                self.files.errno = Some(p);
                p
            }
        };
        self.store_int(p, &V::C(e), 4, 32)
    }
    fn elementwise(&mut self, md: M, f: u32, args: &[V], c: &Call) -> X<Option<V>> {
        // apply a scalar intrinsic to vectors
        let n = match &args[0] {
            V::A(v) => v.len(),
            _ => return inc("elementwise"),
        };
        let (_, et) = match self.m.elem(c.rty) {
            Some(x) => x,
            None => return inc("vector intrinsic"),
        };
        let mut out = vec![];
        for i in 0..n {
            let mut a2 = vec![];
            let mut at = vec![];
            for (k, a) in args.iter().enumerate() {
                match a {
                    V::A(v) => {
                        a2.push(v[i].clone());
                        at.push((Op::K(V::C(0)), self.m.elem(c.args[k].1).map(|x| x.1).unwrap_or(et)));
                    }
                    v => {
                        a2.push(v.clone());
                        at.push((Op::K(V::C(0)), c.args[k].1));
                    }
                }
            }
            let sub = Call { callee: Callee::Fn(f), args: at, d: c.d, rty: et, next: None };
            match self.model_call(md, f, a2, &sub)? {
                Some(v) => out.push(v),
                None => return inc("elementwise"),
            }
        }
        Ok(Some(V::A(Rc::new(out))))
    }

    /// Some(v): handled; None: a frame was entered instead.
    pub fn model_call(&mut self, md: M, f: u32, args: Vec<V>, c: &Call) -> X<Option<V>> {
        let unit = Ok(Some(V::C(0)));
        if let (M::WithOv(_) | M::MinMax(_) | M::Sat(_) | M::Cmp3(_) | M::Ctpop | M::Ctlz | M::Cttz | M::Bswap | M::Bitreverse | M::Fshl | M::Fshr | M::Abs, Some(V::A(_))) = (md, args.first()) {
            return self.elementwise(md, f, &args, c);
        }
        match md {
            M::None => {
                self.enter(f, args, c.d, c.next)?;
                Ok(None)
            }
            M::Print if self.files.stdout.is_some() => {
                self.enter(f, args, c.d, c.next)?;
                Ok(None)
            }
            M::Ignore | M::Ignore0 | M::Zero | M::Print => unit,
            M::StackRem => Ok(Some(V::A(Rc::new(vec![V::C(1), V::C(1 << 40)])))),
            M::One => Ok(Some(V::C(1))),
            M::MinusOne => Ok(Some(V::C(u32::MAX as u64))),
            M::Malloc => {
                let n = self.arg(&args, 0)?;
                Ok(Some(V::C(self.alloc(n)?)))
            }
            M::Calloc => {
                let n = self.arg(&args, 0)?.wrapping_mul(self.arg(&args, 1)?);
                Ok(Some(V::C(self.alloc(n)?)))
            }
            M::RAlloc | M::RAllocZ => {
                let n = self.arg(&args, 0)?;
                Ok(Some(V::C(self.alloc(n)?)))
            }
            M::Free | M::RDealloc => {
                let p = self.arg(&args, 0)?;
                self.dealloc(p)?;
                unit
            }
            M::PosixMemalign => {
                let out = self.arg(&args, 0)?;
                let n = self.arg(&args, 2)?;
                let p = self.alloc(n)?;
                self.store_int(out, &V::C(p), 8, 64)?;
                unit
            }
            M::Realloc | M::RRealloc => {
                let p = self.arg(&args, 0)?;
                let n = self.arg(&args, if md == M::Realloc { 1 } else { 3 })?;
                if p == 0 {
                    return Ok(Some(V::C(self.alloc(n)?)));
                }
                let id = self.obj(p, 0)?;
                if p & 0xffff_ffff != 0 || n > 1 << 31 {
                    return inc("bad realloc");
                }
                let o = &mut self.objs[id];
                o.data.resize(n as usize, 0);
                if !o.sym.is_empty() {
                    o.sym.resize(n as usize, 0);
                }
                Ok(Some(V::C(p)))
            }
            M::Memcpy => {
                let n = self.arg(&args, 2)?;
                let d = self.arg(&args, 0)?;
                let s = self.arg(&args, 1)?;
                self.copy(d, s, n)?;
                Ok(Some(V::C(d)))
            }
            M::Memset => {
                let n = self.arg(&args, 2)?;
                let d = self.arg(&args, 0)?;
                let mut v = args[1].clone();
                if let V::S(e) = v {
                    if self.ar.w(e) > 8 {
                        let x = self.ar.trunc(e, 8);
                        v = self.v(x);
                    }
                }
                self.fill(d, &v, n)?;
                Ok(Some(V::C(d)))
            }
            M::Memcmp | M::Bcmp => {
                let n = self.arg(&args, 2)?;
                let (a, b) = (self.arg(&args, 0)?, self.arg(&args, 1)?);
                if n == 0 {
                    return unit;
                }
                if self.all_concrete(a, n)? && self.all_concrete(b, n)? {
                    let (ia, ib) = (self.obj(a, n)?, self.obj(b, n)?);
                    let (oa, ob) = ((a & 0xffff_ffff) as usize, (b & 0xffff_ffff) as usize);
                    let r = self.objs[ia].data[oa..oa + n as usize].cmp(&self.objs[ib].data[ob..ob + n as usize]) as i32;
                    return Ok(Some(V::C(r as u32 as u64)));
                }
                let (x, y) = (self.bytes(a, n)?, self.bytes(b, n)?);
                if md == M::Bcmp {
                    let mut all = self.ar.con(1, 1);
                    for i in 0..n as usize {
                        let e = self.ar.cmp(Cm::Eq, x[i], y[i]);
                        all = self.ar.and1(all, e);
                    }
                    let (z, o) = (self.ar.con(0, 32), self.ar.con(1, 32));
                    let r = self.ar.ite(all, z, o);
                    return Ok(Some(self.v(r)));
                }
                let mut r = self.ar.con(0, 32);
                let (m1, p1) = (self.ar.con(0xffff_ffff, 32), self.ar.con(1, 32));
                for i in (0..n as usize).rev() {
                    let e = self.ar.cmp(Cm::Eq, x[i], y[i]);
                    let l = self.ar.cmp(Cm::Ult, x[i], y[i]);
                    let d = self.ar.ite(l, m1, p1);
                    r = self.ar.ite(e, r, d);
                }
                Ok(Some(self.v(r)))
            }
            M::Strlen => {
                let p = self.arg(&args, 0)?;
                let s = self.cstr(p)?;
                Ok(Some(V::C(s.len() as u64)))
            }
            M::Getenv => unit,
            M::Write => {
                let fd = self.arg(&args, 0)?;
                let n = self.arg(&args, 2)?;
                if fd <= 2 {
                    if let (1, Some(name)) = (fd, self.files.stdout.clone()) {
                        let p = self.arg(&args, 1)?;
                        let bs = self.bytes(p, n)?;
                        let data: Vec<V> = bs.into_iter().map(|b| self.v(b)).collect();
                        match self.files.files.iter_mut().find(|f| f.0 == name) {
                            Some(f) => f.1.extend(data),
                            None => return inc("captured output has no file"),
                        }
                    }
                    return Ok(Some(V::C(n)));
                }
                let p = self.arg(&args, 1)?;
                match self.files.fds.get(fd as usize - 3).cloned().flatten() {
                    Some((fi, pos, _, w)) => {
                        if !w {
                            self.set_errno(9)?;
                            return Ok(Some(V::C(!0)));
                        }
                        let bs = self.bytes(p, n)?;
                        for (k, b) in bs.into_iter().enumerate() {
                            let v = self.v(b);
                            let d = &mut self.files.files[fi].1;
                            if pos + k < d.len() {
                                d[pos + k] = v;
                            } else {
                                d.push(v);
                            }
                        }
                        self.files.fds[fd as usize - 3].as_mut().unwrap().1 = pos + n as usize;
                        Ok(Some(V::C(n)))
                    }
                    None => inc("write to an unknown descriptor"),
                }
            }
            M::Writev => inc("writev"),
            M::Open => {
                let p = self.arg(&args, 0)?;
                let flags = self.arg(&args, 1)?;
                let name = self.cstr(p)?;
                let acc = flags & 3;
                if self.files.denied.contains(&name) {
                    self.set_errno(13)?;
                    return Ok(Some(V::C(0xffff_ffff)));
                }
                let isdir = self.files.dirs.contains(&name);
                if isdir && acc != 0 {
                    self.set_errno(21)?;
                    return Ok(Some(V::C(0xffff_ffff)));
                }
                let pos = self.files.files.iter().position(|f| f.0 == name);
                let fi = match pos {
                    Some(i) => i,
                    None => {
                        let parent_ok = match name.iter().rposition(|c| *c == b'/') {
                            None | Some(0) => true,
                            Some(k) => self.files.dirs.iter().any(|d| d[..] == name[..k]),
                        };
                        if !isdir && (flags & 0x40 == 0 || !parent_ok) {
                            self.set_errno(2)?;
                            return Ok(Some(V::C(0xffff_ffff)));
                        }
                        self.files.files.push((name, vec![]));
                        self.files.files.len() - 1
                    }
                };
                if flags & 0x200 != 0 {
                    self.files.files[fi].1.clear();
                }
                let start = if flags & 0x400 != 0 { self.files.files[fi].1.len() } else { 0 };
                self.files.fds.push(Some((fi, start, acc != 1, acc != 0)));
                Ok(Some(V::C(2 + self.files.fds.len() as u64)))
            }
            M::Close => {
                let fd = self.arg(&args, 0)?;
                if fd >= 3 {
                    if let Some(f) = self.files.fds.get_mut(fd as usize - 3) {
                        *f = None;
                    }
                }
                unit
            }
            M::Read => {
                let fd = self.arg(&args, 0)?;
                let p = self.arg(&args, 1)?;
                let n = self.arg(&args, 2)? as usize;
                if fd < 3 {
                    return unit;
                }
                match self.files.fds.get(fd as usize - 3).cloned().flatten() {
                    Some((fi, pos, r, _)) => {
                        if !r {
                            self.set_errno(9)?;
                            return Ok(Some(V::C(!0)));
                        }
                        if self.files.dirs.contains(&self.files.files[fi].0) {
                            self.set_errno(21)?;
                            return Ok(Some(V::C(!0)));
                        }
                        let d: Vec<V> = self.files.files[fi].1.iter().skip(pos).take(n).cloned().collect();
                        for (k, v) in d.iter().enumerate() {
                            self.store_int(p + k as u64, v, 1, 8)?;
                        }
                        self.files.fds[fd as usize - 3].as_mut().unwrap().1 = pos + d.len();
                        Ok(Some(V::C(d.len() as u64)))
                    }
                    None => inc("read from an unknown descriptor"),
                }
            }
            M::Statx => {
                // not available: the caller falls back to stat64
                self.set_errno(38)?;
                Ok(Some(V::C(0xffff_ffff)))
            }
            M::Lseek => {
                let (fd, off, wh) = (self.arg(&args, 0)?, self.arg(&args, 1)?, self.arg(&args, 2)? & 0xffff_ffff);
                match if fd >= 3 { self.files.fds.get(fd as usize - 3).cloned().flatten() } else { None } {
                    Some((fi, pos, _, _)) => {
                        let base = match wh {
                            0 => 0,
                            1 => pos as u64,
                            _ => self.files.files[fi].1.len() as u64,
                        };
                        let at = base.wrapping_add(off);
                        self.files.fds[fd as usize - 3].as_mut().unwrap().1 = at as usize;
                        Ok(Some(V::C(at)))
                    }
                    None => {
                        self.set_errno(9)?;
                        Ok(Some(V::C(!0)))
                    }
                }
            }
            M::Stat | M::Fstat => {
                let buf = self.arg(&args, 1)?;
                let found = if md == M::Stat {
                    let p = self.arg(&args, 0)?;
                    let name = self.cstr(p)?;
                    if self.files.dirs.contains(&name) {
                        Some((true, 0))
                    } else {
                        self.files.files.iter().find(|f| f.0 == name).map(|f| (false, f.1.len()))
                    }
                } else {
                    let fd = self.arg(&args, 0)?;
                    match if fd >= 3 { self.files.fds.get(fd as usize - 3).cloned().flatten() } else { None } {
                        Some((fi, ..)) => Some((self.files.dirs.contains(&self.files.files[fi].0), self.files.files[fi].1.len())),
                        None => None,
                    }
                };
                match found {
                    None => {
                        self.set_errno(2)?;
                        Ok(Some(V::C(0xffff_ffff)))
                    }
                    Some((dir, n)) => {
                        for k in 0..18 {
                            self.store_int(buf + 8 * k, &V::C(0), 8, 64)?;
                        }
                        let mode = if dir { 0o40755 } else { 0o100644 };
                        self.store_int(buf + 24, &V::C(mode), 4, 32)?;
                        self.store_int(buf + 48, &V::C(n as u64), 8, 64)?;
                        unit
                    }
                }
            }
            M::Opendir => {
                let p = self.arg(&args, 0)?;
                let name = self.cstr(p)?;
                if self.files.denied.contains(&name) || !self.files.dirs.contains(&name) {
                    let e = if self.files.denied.contains(&name) { 13 } else { 2 };
                    self.set_errno(e)?;
                    return Ok(Some(V::C(0)));
                }
                let mut names: Vec<Vec<u8>> = vec![];
                for f in self.files.files.iter().map(|f| &f.0).chain(self.files.dirs.iter()) {
                    if f.len() > name.len() + 1 && f.starts_with(&name) && f[name.len()] == b'/' {
                        let base = f[name.len() + 1..].to_vec();
                        if !base.contains(&b'/') && !names.contains(&base) {
                            names.push(base);
                        }
                    }
                }
                names.reverse();
                let (h, e) = (self.alloc(16)?, self.alloc(280)?);
                self.files.streams.push((h, e, names));
                Ok(Some(V::C(h)))
            }
            M::Readdir => {
                let h = self.arg(&args, 0)?;
                match self.files.streams.iter().position(|s| s.0 == h) {
                    None => inc("readdir of an unknown stream"),
                    Some(i) => {
                        let e = self.files.streams[i].1;
                        match self.files.streams[i].2.pop() {
                            None => Ok(Some(V::C(0))),
                            Some(n) => {
                                for k in 0..35 {
                                    self.store_int(e + 8 * k, &V::C(0), 8, 64)?;
                                }
                                self.store_int(e + 16, &V::C(280), 2, 16)?;
                                for (k, c) in n.iter().enumerate() {
                                    self.store_int(e + 19 + k as u64, &V::C(*c as u64), 1, 8)?;
                                }
                                Ok(Some(V::C(e)))
                            }
                        }
                    }
                }
            }
            M::SVfsMode => {
                let (p, n, mode) = (self.arg(&args, 0)?, self.arg(&args, 1)?, self.arg(&args, 2)? & 0xffff_ffff);
                let name = self.conc_bytes(p, n)?;
                match mode {
                    1 => self.files.denied.push(name),
                    2 => self.files.dirs.push(name),
                    _ => self.files.files.retain(|f| f.0 != name),
                }
                unit
            }
            M::SStdout => {
                let (p, n) = (self.arg(&args, 0)?, self.arg(&args, 1)?);
                let name = self.conc_bytes(p, n)?;
                self.files.stdout = None;
                if !name.is_empty() {
                    self.files.files.retain(|f| f.0 != name);
                    self.files.files.push((name.clone(), vec![]));
                    self.files.stdout = Some(name);
                }
                unit
            }
            M::SVfsPut => {
                let (p, n, d, dn) = (self.arg(&args, 0)?, self.arg(&args, 1)?, self.arg(&args, 2)?, self.arg(&args, 3)?);
                let name = self.conc_bytes(p, n)?;
                let bs = self.bytes(d, dn)?;
                let data: Vec<V> = bs.into_iter().map(|b| self.v(b)).collect();
                self.files.files.retain(|f| f.0 != name);
                self.files.files.push((name, data));
                unit
            }
            M::SVfsGet => {
                // (name, len, out, cap) -> length or -1
                let (p, n, d, cap) = (self.arg(&args, 0)?, self.arg(&args, 1)?, self.arg(&args, 2)?, self.arg(&args, 3)?);
                let name = self.conc_bytes(p, n)?;
                match self.files.files.iter().find(|f| f.0 == name).map(|f| f.1.clone()) {
                    None => Ok(Some(V::C(!0))),
                    Some(data) => {
                        for (k, v) in data.iter().take(cap as usize).enumerate() {
                            self.store_int(d + k as u64, v, 1, 8)?;
                        }
                        Ok(Some(V::C(data.len() as u64)))
                    }
                }
            }
            M::Abort => {
                self.violation("process abort", None);
                Err(Stop::Violated)
            }
            M::Trap => {
                self.violation("trap", None);
                Err(Stop::Violated)
            }
            M::Panic | M::PanicNoLoc => {
                let mut loc = String::new();
                if md == M::Panic {
                    if let Some(V::C(p)) = args.last() {
                        let p = *p;
                        if let (Ok(V::C(fp)), Ok(V::C(fl)), Ok(V::C(line))) = (self.load_int(p, 8, 64), self.load_int(p + 8, 8, 64), self.load_int(p + 16, 4, 32)) {
                            if fl < 400 {
                                // &CStr-style file names carry their NUL in the length
                                if let Ok(s) = self.text(fp, fl) {
                                    loc = format!(" at {}:{}", s.trim_end_matches('\0'), line);
                                }
                            }
                        }
                    }
                }
                match self.panic_mode.0 {
                    1 => return Err(Stop::Done),
                    2 => {
                        let id = self.panic_mode.1.clone();
                        self.violation(&format!("panic{}", loc), Some(&id));
                    }
                    _ => self.violation(&format!("panic{}", loc), None),
                }
                Err(Stop::Violated)
            }
            M::HashKeys => Ok(Some(match self.m.types[c.rty as usize] {
                Ty::Struct(..) => V::A(Rc::new(vec![V::C(0x0123456789abcdef), V::C(0xfedcba9876543210)])),
                _ => V::C(0x0123456789abcdef),
            })),
            M::HashWrite => {
                // self.0 accumulates a digest that depends only on the shape of what was hashed, so that
                // keys that may be equal always collide and equality is decided by the real `Eq`.
                let (s, p, n) = (self.arg(&args, 0)?, self.arg(&args, 1)?, self.arg(&args, 2)?);
                let acc = match self.load_int(s, 8, 64)? {
                    V::C(x) => x,
                    _ => return inc("symbolic hash state"),
                };
                let mut h = (acc ^ n.wrapping_add(0x9e37)).wrapping_mul(0x2545F4914F6CDD1D).rotate_left(23);
                // 1, 2: additionally one bit of the content (the parity of the low bits), so that keys are
                // iterated in other orders; forks when the content is symbolic.  3..: all of a concrete
                // content, for many orders.
                if self.hash_mode >= 3 {
                    let b = self.bytes(p, n)?;
                    for e in b {
                        match self.ar.is_con(e) {
                            Some(v) => h = (h ^ v as u64 ^ ((self.hash_mode as u64) << 9)).wrapping_mul(0x2545F4914F6CDD1D).rotate_left(23),
                            None => return inc("symbolic bytes hashed in concrete hash mode"),
                        }
                    }
                } else if self.hash_mode >= 1 {
                    let b = self.bytes(p, n)?;
                    let mut x = self.ar.con(0, 8);
                    for e in b {
                        x = self.ar.bin(crate::expr::B::Xor, x, e);
                    }
                    let bit = self.ar.extract(x, 0, 1);
                    let v = self.conc(bit)? as u64;
                    h = (h ^ (v + 1 + ((self.hash_mode as u64) << 9))).wrapping_mul(0x2545F4914F6CDD1D).rotate_left(23);
                }
                self.store_int(s, &V::C(h), 8, 64)?;
                unit
            }
            M::HashFinish => {
                let s = self.arg(&args, 0)?;
                let v = self.load_int(s, 8, 64)?;
                match v {
                    V::C(x) => {
                        let mut h = x;
                        h ^= h >> 29;
                        h = h.wrapping_mul(0xbf58476d1ce4e5b9);
                        h ^= h >> 32;
                        Ok(Some(V::C(h)))
                    }
                    _ => inc("symbolic hash state"),
                }
            }
            M::CpuFeatures => Ok(Some(self.m.zero(c.rty))),
            M::Errno => {
                if self.files.errno.is_none() {
                    self.set_errno(0)?;
                }
                Ok(Some(V::C(self.files.errno.unwrap())))
            }
            M::GetrandomSyscall => inc("syscall"),
            M::Getrandom => {
                // distinct bytes on every call; what they are is not observable to a property
                let (p, n) = match (&args[0], &args[1]) {
                    (V::C(p), V::C(n)) => (*p, *n),
                    _ => return inc("symbolic getrandom"),
                };
                for k in 0..n {
                    self.files.random += 1;
                    let h = self.files.random.wrapping_mul(0x9e3779b97f4a7c15);
                    self.store_int(p + k, &V::C((h >> 56) & 255), 1, 8)?;
                }
                Ok(Some(V::C(n)))
            }
            M::WithOv(k) => {
                let w = self.m.width(c.args[0].1);
                let (a, b) = (&args[0], &args[1]);
                if let (Some(x), Some(y)) = (Vm::conc_u128(a), Vm::conc_u128(b)) {
                    let (sx, sy) = (expr::sext(x, w), expr::sext(y, w));
                    let m = expr::mask(w);
                    let (r, o) = match k {
                        0 => {
                            let (r, o) = x.overflowing_add(y);
                            (r & m, o || r > m)
                        }
                        2 => (x.wrapping_sub(y) & m, x < y),
                        4 => {
                            let (r, o) = x.overflowing_mul(y);
                            (r & m, o || r > m)
                        }
                        _ => {
                            let (r, o) = match k {
                                1 => sx.overflowing_add(sy),
                                3 => sx.overflowing_sub(sy),
                                _ => sx.overflowing_mul(sy),
                            };
                            let t = (r as u128) & m;
                            (t, o || expr::sext(t, w) != r)
                        }
                    };
                    return Ok(Some(V::A(Rc::new(vec![vint(r, w), V::C(o as u64)]))));
                }
                let (x, y) = (self.e(a, w), self.e(b, w));
                let ar = &mut self.ar;
                let ew = match k {
                    4 | 5 => 2 * w,
                    _ => w + 1,
                };
                if ew > 128 {
                    return inc("wide symbolic overflow check");
                }
                let signed = k & 1 == 1;
                let (xe, ye) = if signed { (ar.sext(x, ew), ar.sext(y, ew)) } else { (ar.zext(x, ew), ar.zext(y, ew)) };
                let op = match k {
                    0 | 1 => expr::B::Add,
                    2 | 3 => expr::B::Sub,
                    _ => expr::B::Mul,
                };
                let full = ar.bin(op, xe, ye);
                let r = ar.bin(op, x, y);
                let back = if signed { ar.sext(r, ew) } else { ar.zext(r, ew) };
                let eq = ar.cmp(Cm::Eq, full, back);
                let o = ar.not(eq);
                let (r, o) = (self.v(r), self.v(o));
                Ok(Some(V::A(Rc::new(vec![r, o]))))
            }
            M::MinMax(k) => {
                let w = self.m.width(c.rty);
                let p = [Pred::Ult, Pred::Ugt, Pred::Slt, Pred::Sgt][k as usize];
                let cnd = self.icmp(p, w, &args[0], &args[1])?;
                Ok(Some(match cnd {
                    V::C(x) => {
                        if x == 1 {
                            args[0].clone()
                        } else {
                            args[1].clone()
                        }
                    }
                    V::S(e) => {
                        let (x, y) = (self.e(&args[0], w), self.e(&args[1], w));
                        let r = self.ar.ite(e, x, y);
                        self.v(r)
                    }
                    _ => return inc("minmax"),
                }))
            }
            M::Sat(k) => {
                let w = self.m.width(c.rty);
                match k {
                    0 => {
                        let s = self.bin(BinOp::Add, w, &args[0], &args[1])?;
                        let o = self.icmp(Pred::Ult, w, &s, &args[0])?;
                        self.pick(&o, &vint(!0, w), &s, w)
                    }
                    1 => {
                        let s = self.bin(BinOp::Sub, w, &args[0], &args[1])?;
                        let o = self.icmp(Pred::Ult, w, &args[0], &args[1])?;
                        self.pick(&o, &vint(0, w), &s, w)
                    }
                    _ => {
                        let x = expr::sext(self.conc_lim(&args[0])?, w);
                        let y = expr::sext(self.conc_lim(&args[1])?, w);
                        let r = if k == 2 { x + y } else { x - y };
                        let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                        Ok(Some(vint(r.clamp(lo, hi) as u128, w)))
                    }
                }
            }
            M::Cmp3(s) => {
                let w = self.m.width(c.args[0].1);
                let rw = self.m.width(c.rty);
                let lt = self.icmp(if s { Pred::Slt } else { Pred::Ult }, w, &args[0], &args[1])?;
                let gt = self.icmp(if s { Pred::Sgt } else { Pred::Ugt }, w, &args[0], &args[1])?;
                let g = match self.pick(&gt, &vint(1, rw), &vint(0, rw), rw)? {
                    Some(v) => v,
                    None => unreachable!(),
                };
                self.pick(&lt, &vint(!0, rw), &g, rw)
            }
            M::Ctpop => {
                let w = self.m.width(c.rty);
                match Vm::conc_u128(&args[0]) {
                    Some(x) => Ok(Some(vint(x.count_ones() as u128, w))),
                    None => {
                        let e = self.e(&args[0], w);
                        let mut r = self.ar.con(0, w);
                        for i in 0..w {
                            let b = self.ar.extract(e, i, 1);
                            let b = self.ar.zext(b, w);
                            r = self.ar.bin(expr::B::Add, r, b);
                        }
                        Ok(Some(self.v(r)))
                    }
                }
            }
            M::Ctlz | M::Cttz => {
                let w = self.m.width(c.rty);
                match Vm::conc_u128(&args[0]) {
                    Some(x) => {
                        let r = if x == 0 {
                            w
                        } else if md == M::Cttz {
                            x.trailing_zeros()
                        } else {
                            x.leading_zeros() - (128 - w)
                        };
                        Ok(Some(vint(r as u128, w)))
                    }
                    None => {
                        let e = self.e(&args[0], w);
                        let mut r = self.ar.con(w as u128, w);
                        // last assignment wins: scan from the far end
                        for k in 0..w {
                            let i = if md == M::Cttz { w - 1 - k } else { k };
                            let pos = if md == M::Cttz { i } else { w - 1 - i };
                            let b = self.ar.extract(e, i, 1);
                            let v = self.ar.con(pos as u128, w);
                            r = self.ar.ite(b, v, r);
                        }
                        Ok(Some(self.v(r)))
                    }
                }
            }
            M::Bswap => {
                let w = self.m.width(c.rty);
                match Vm::conc_u128(&args[0]) {
                    Some(x) => Ok(Some(vint(x.swap_bytes() >> (128 - w), w))),
                    None => {
                        let e = self.e(&args[0], w);
                        let mut r: Option<E> = None;
                        for i in 0..w / 8 {
                            let b = self.ar.extract(e, i * 8, 8);
                            r = Some(match r {
                                None => b,
                                Some(r) => self.ar.concat(r, b),
                            });
                        }
                        Ok(Some(self.v(r.unwrap())))
                    }
                }
            }
            M::Bitreverse => {
                let w = self.m.width(c.rty);
                match Vm::conc_u128(&args[0]) {
                    Some(x) => Ok(Some(vint(x.reverse_bits() >> (128 - w), w))),
                    None => inc("symbolic bitreverse"),
                }
            }
            M::Fshl | M::Fshr => {
                let w = self.m.width(c.rty);
                let s = match Vm::conc_u128(&args[2]) {
                    Some(x) => (x % w as u128) as u32,
                    None => return inc("symbolic funnel shift amount"),
                };
                let (a, b) = (self.e(&args[0], w), self.e(&args[1], w));
                let r = if s == 0 {
                    if md == M::Fshl {
                        a
                    } else {
                        b
                    }
                } else {
                    let s = if md == M::Fshl { s } else { w - s };
                    let hi = self.ar.extract(a, 0, w - s);
                    let lo = self.ar.extract(b, w - s, s);
                    self.ar.concat(hi, lo)
                };
                Ok(Some(self.v(r)))
            }
            M::Abs => {
                let w = self.m.width(c.rty);
                let neg = self.icmp(Pred::Slt, w, &args[0], &vint(0, w))?;
                let n = self.bin(BinOp::Sub, w, &vint(0, w), &args[0])?;
                self.pick(&neg, &n, &args[0], w)
            }
            M::Expect => Ok(Some(args[0].clone())),
            M::Assume => unit,
            M::IsConst => Ok(Some(V::C(0))),
            M::TlsAddr => Ok(Some(args[0].clone())),
            M::Ptrmask => {
                let r = self.bin(BinOp::And, 64, &args[0], &args[1])?;
                Ok(Some(r))
            }
            M::ObjectSize => Ok(Some(V::C(!0))),
            M::FAbs => {
                let x = self.conc_lim(&args[0])? as u64;
                let w = self.m.width(c.rty);
                Ok(Some(V::C(x & !(1u64 << (w - 1)))))
            }
            M::FMisc(k) => {
                let w = self.m.width(c.rty);
                let mut args = args;
                for a in args.iter_mut() {
                    if let V::S(_) = a {
                        *a = V::C(self.conc_lim(a)? as u64);
                    }
                }
                let g = |v: &V| -> Option<f64> {
                    match v {
                        V::C(x) => Some(if w == 64 { f64::from_bits(*x) } else { f32::from_bits(*x as u32) as f64 }),
                        _ => None,
                    }
                };
                let x = match g(&args[0]) {
                    Some(x) => x,
                    None => return inc("symbolic float function"),
                };
                let y = args.get(1).and_then(|v| g(v)).unwrap_or(0.0);
                let r = match k {
                    0 => x.floor(),
                    1 => x.ceil(),
                    2 => x.trunc(),
                    3 => x.round_ties_even(),
                    4 => x.round(),
                    5 => x.sqrt(),
                    6 => x.copysign(y),
                    7 => x.min(y),
                    _ => x.max(y),
                };
                Ok(Some(V::C(if w == 64 { r.to_bits() } else { (r as f32).to_bits() as u64 })))
            }
            M::FpToIntSat(signed) => {
                let w = self.m.width(c.rty);
                let fw = self.m.width(c.args[0].1);
                let x = match &args[0] {
                    V::C(x) => {
                        if fw == 64 {
                            f64::from_bits(*x)
                        } else {
                            f32::from_bits(*x as u32) as f64
                        }
                    }
                    _ => return inc("symbolic float to int"),
                };
                let r = if signed {
                    let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                    (x as i128).clamp(lo, hi) as u128
                } else {
                    (x as u128).min(expr::mask(w))
                };
                Ok(Some(vint(r, w)))
            }
            M::VReduce(k) => {
                let w = self.m.width(c.rty);
                let v = match &args[0] {
                    V::A(v) => v.clone(),
                    _ => return inc("vector reduce"),
                };
                let mut r = v[0].clone();
                for x in v[1..].iter() {
                    r = match k {
                        0 => self.bin(BinOp::Or, w, &r, x)?,
                        1 => self.bin(BinOp::And, w, &r, x)?,
                        2 => self.bin(BinOp::Add, w, &r, x)?,
                        3 => self.bin(BinOp::Xor, w, &r, x)?,
                        _ => {
                            let p = if k == 4 { Pred::Ugt } else { Pred::Ult };
                            let cnd = self.icmp(p, w, &r, x)?;
                            self.pick(&cnd, &r.clone(), x, w)?.unwrap()
                        }
                    };
                }
                Ok(Some(r))
            }
            // ------------------------------------------------ harness interface
            M::SMake => {
                let p = self.arg(&args, 0)?;
                let n = self.arg(&args, 1)?;
                for i in 0..n {
                    let e = self.new_input(8);
                    self.store_int(p + i, &V::S(e), 1, 8)?;
                }
                unit
            }
            M::SU64 => {
                let e = self.new_input(64);
                Ok(Some(V::S(e)))
            }
            M::SChoose => {
                let n = self.arg(&args, 0)?;
                if n == 0 || n > 256 {
                    return inc("choose bound");
                }
                let e = self.new_input(8);
                if n < 256 {
                    let k = self.ar.con(n as u128, 8);
                    let cnd = self.ar.cmp(Cm::Ult, e, k);
                    self.assume(&V::S(cnd))?;
                }
                let r = self.ar.zext(e, 32);
                Ok(Some(V::S(r)))
            }
            M::SAssume => {
                self.assume(&args[0])?;
                unit
            }
            M::SCheck => {
                let (p, n) = (self.arg(&args, 1)?, self.arg(&args, 2)?);
                let msg = self.text(p, n)?;
                self.check(&args[0], &msg, None)?;
                unit
            }
            M::SCheckKnown => {
                let (p, n) = (self.arg(&args, 1)?, self.arg(&args, 2)?);
                let msg = self.text(p, n)?;
                let (p, n) = (self.arg(&args, 3)?, self.arg(&args, 4)?);
                let id = self.text(p, n)?;
                self.check(&args[0], &msg, Some(&id))?;
                unit
            }
            M::SReach => {
                let (p, n) = (self.arg(&args, 0)?, self.arg(&args, 1)?);
                let s = self.text(p, n)?;
                let mut h: u64 = 0xcbf29ce484222325;
                for b in s.bytes() {
                    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                }
                let h = h | 1;
                for i in 0..NREACH {
                    let slot = (h as usize + i) % NREACH;
                    let cur = self.sh.reach[2 * slot].load(SeqCst);
                    if cur == h {
                        self.sh.reach[2 * slot + 1].fetch_add(1, SeqCst);
                        break;
                    }
                    if cur == 0 && self.sh.reach[2 * slot].compare_exchange(0, h, SeqCst, SeqCst).is_ok() {
                        self.sh.reach[2 * slot + 1].fetch_add(1, SeqCst);
                        let w = self.witness();
                        self.record(&format!("{{\"kind\":\"reach\",\"label\":\"{}\",\"inputs\":{}}}", esc(&s), w));
                        break;
                    }
                }
                unit
            }
            M::SObserve => {
                let (p, n) = (self.arg(&args, 0)?, self.arg(&args, 1)?);
                let b = self.bytes(p, n)?;
                for e in b {
                    let v = self.v(e);
                    self.obs.push(v);
                }
                unit
            }
            M::SConc => {
                let v = self.arg(&args, 0)?;
                Ok(Some(V::C(v)))
            }
            M::SHashMode => {
                self.hash_mode = self.arg(&args, 0)? as u32;
                unit
            }
            M::SPanicMode => {
                let mode = self.arg(&args, 0)? as u32;
                let (p, n) = (self.arg(&args, 1)?, self.arg(&args, 2)?);
                let id = self.text(p, n)?;
                self.panic_mode = (mode, id);
                unit
            }
            M::SIsSym => Ok(Some(V::C(1))),
        }
    }
    fn pick(&mut self, c: &V, a: &V, b: &V, w: u32) -> X<Option<V>> {
        match c {
            V::C(x) => Ok(Some(if *x & 1 == 1 { a.clone() } else { b.clone() })),
            V::S(e) => {
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.ar.ite(*e, x, y);
                Ok(Some(self.v(r)))
            }
            _ => inc("pick"),
        }
    }
}
