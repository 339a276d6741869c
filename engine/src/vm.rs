//! The symbolic interpreter: memory, path conditions, forking and instruction semantics.
use crate::expr::{self, cmp_c, mask, sext, Arena, FxMap, B, C as Cm, E, K};
use crate::ir::*;
use crate::models::M;
use crate::z3::{Solver as ZS, Z3};
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

pub const NREACH: usize = 512;
#[repr(C)]
pub struct Shared {
    pub active: AtomicI64,
    pub paths: AtomicU64,
    pub done: AtomicU64,
    pub assumed: AtomicU64,
    pub incomplete: AtomicU64,
    pub violations: AtomicU64,
    pub known: AtomicU64,
    pub checks_const: AtomicU64,
    pub checks_solver: AtomicU64,
    pub q_sat: AtomicU64,
    pub q_unsat: AtomicU64,
    pub q_unknown: AtomicU64,
    pub fd_q: AtomicU64,
    pub fd_audit: AtomicU64,
    pub solver_ns: AtomicU64,
    pub insts: AtomicU64,
    pub forks: AtomicU64,
    pub max_path: AtomicU64,
    pub max_solver_ns: AtomicU64,
    pub stop: AtomicU64,
    pub samples: AtomicU64,
    pub reach: [AtomicU64; NREACH * 2],
    pub cov: [AtomicU64; 2048], // function coverage bitmap (131072 functions)
}
impl Shared {
    pub fn new() -> &'static Shared {
        unsafe {
            let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
            &*(p as *const Shared)
        }
    }
}

pub enum Stop {
    Done,
    Assumed,
    Violated,
    Incomplete(String),
}
pub type X<T> = Result<T, Stop>;
pub fn inc<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Incomplete(s.into()))
}

#[derive(Default)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<E>,
    pub st: u8, // 0 unallocated, 1 live, 2 freed, 3 lazy global
    pub ro: bool,
}

pub struct Frame {
    pub f: Rc<Func>,
    pub pc: usize,
    pub base: usize,
    pub ret: Option<u32>,
    pub ret_edge: Option<u32>,
    pub stack: u64,
}

pub struct Cfg {
    pub jobs: i64,
    pub max_insts: u64,
    pub rlimit: u32,
    pub out: std::fs::File,
    pub sample_every: u64,
    pub max_samples: u64,
    pub stop_on_violation: bool,
    pub trace: bool,
    pub no_fd: bool,
    /// Every n-th finite-domain decision is decided by z3 too.
    pub audit: u64,
}

pub struct Vm {
    pub m: Module,
    pub ar: Arena,
    pub z: Option<Z3>,
    pub zs: Option<ZS>,
    pub sh: &'static Shared,
    pub objs: Vec<Obj>,
    pub free: Vec<u32>,
    pub regs: Vec<V>,
    pub frames: Vec<Frame>,
    pub stack_base: u64,
    pub dom: Vec<[u64; 4]>,
    pub multi: Vec<E>,
    pub multi_mask: u128,
    pub model: Vec<u128>,
    pub inputs: Vec<E>,
    pub obs: Vec<V>,
    pub children: Vec<i32>,
    pub models: Vec<M>,
    pub cfg: Cfg,
    pub insts: u64,
    pub nforks: u64,
    pub hash_mode: u32,
    pub panic_mode: (u32, String),
    pub files: crate::models::Vfs,
    pub seen_cov: Vec<bool>,
    pub insts_base: u64,
}

const MAXDEPTH: u64 = 6000;

pub fn vmask(w: u32) -> u64 {
    mask(w) as u64
}

impl Vm {
    pub fn new(m: Module, cfg: Cfg, sh: &'static Shared) -> Vm {
        let ng = m.globals.len() as u64;
        let stack_base = ng + 1;
        let mut objs: Vec<Obj> = Vec::with_capacity((ng + MAXDEPTH + 2000) as usize);
        objs.push(Obj::default());
        for _ in 0..ng {
            objs.push(Obj { st: 3, ..Default::default() });
        }
        for _ in 0..MAXDEPTH {
            objs.push(Obj::default());
        }
        let models = crate::models::resolve(&m);
        let nf = m.funcs.len();
        Vm {
            m,
            ar: Arena::new(),
            z: None,
            zs: None,
            sh,
            objs,
            free: vec![],
            regs: vec![],
            frames: vec![],
            stack_base,
            dom: vec![],
            multi: vec![],
            multi_mask: 0,
            model: vec![],
            inputs: vec![],
            obs: vec![],
            children: vec![],
            models,
            cfg,
            insts: 0,
            nforks: 0,
            hash_mode: 0,
            panic_mode: (0, String::new()),
            files: Default::default(),
            seen_cov: vec![false; nf],
            insts_base: 0,
        }
    }

    // ---------------------------------------------------------------- values
    pub fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(x) => self.ar.con(*x as u128, w),
            V::W(x) => self.ar.con(**x, w),
            V::S(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            V::A(_) => panic!("aggregate as expression"),
        }
    }
    pub fn v(&self, e: E) -> V {
        match self.ar.is_con(e) {
            Some(x) => vint(x, self.ar.w(e)),
            None => V::S(e),
        }
    }
    pub fn conc_u128(v: &V) -> Option<u128> {
        match v {
            V::C(x) => Some(*x as u128),
            V::W(x) => Some(**x),
            _ => None,
        }
    }
    #[inline(always)]
    fn get(&self, base: usize, o: &Op) -> V {
        match o {
            Op::R(r) => self.regs[base + *r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }

    // ---------------------------------------------------------------- path condition
    pub fn new_input(&mut self, w: u32) -> E {
        let id = self.ar.vars.len();
        let e = self.ar.new_var(&format!("in{}", id), w);
        self.dom.push([!0; 4]);
        if w < 8 {
            let n = 1u32 << w;
            let mut d = [0u64; 4];
            for i in 0..n {
                d[(i / 64) as usize] |= 1 << (i % 64);
            }
            *self.dom.last_mut().unwrap() = d;
        }
        self.model.push(0);
        self.ar.next_gen();
        self.inputs.push(e);
        e
    }
    fn table_set(&mut self, c: E) -> Option<(u32, [u64; 4])> {
        let x = self.ar.single_byte_var(c)?;
        let t = self.ar.table(c)?;
        let mut s = [0u64; 4];
        for i in 0..256 {
            if t[i] == 1 {
                s[i / 64] |= 1 << (i % 64);
            }
        }
        Some((x, s))
    }
    /// Assert `c`, which must hold under the current model.
    pub fn assert(&mut self, c: E) {
        if self.ar.is_con(c).is_some() {
            return;
        }
        // conjunctions split so that unary parts land in the domains
        if let K::Bin(B::And, a, b) = self.ar.n[c as usize].k {
            self.assert(a);
            self.assert(b);
            return;
        }
        if !self.cfg.no_fd {
            if let Some((x, s)) = self.table_set(c) {
                for k in 0..4 {
                    self.dom[x as usize][k] &= s[k];
                }
                return;
            }
        }
        self.multi_mask |= self.ar.sup(c);
        self.multi.push(c);
    }
    pub fn eval(&mut self, e: E) -> u128 {
        let mdl = std::mem::take(&mut self.model);
        let r = self.ar.eval(e, &mdl);
        self.model = mdl;
        r
    }
    /// Is PC ∧ c satisfiable?  Some(model) / None; `solver` forces the SMT solver to decide.
    pub fn feasible(&mut self, c: E, solver: bool) -> X<Option<Vec<u128>>> {
        if let Some(v) = self.ar.is_con(c) {
            return Ok(if v == 1 { Some(self.model.clone()) } else { None });
        }
        if !self.cfg.no_fd && !solver {
            if let Some((x, s)) = self.table_set(c) {
                let d = self.dom[x as usize];
                let mut f = [0u64; 4];
                let mut any = false;
                for k in 0..4 {
                    f[k] = d[k] & s[k];
                    any |= f[k] != 0;
                }
                if !any {
                    self.fd_decided(c, false)?;
                    return Ok(None);
                }
                if self.multi_mask & expr::vbit(x) == 0 {
                    self.fd_decided(c, true)?;
                    let mut m = self.model.clone();
                    let cur = m[x as usize] as usize;
                    if f[cur / 64] >> (cur % 64) & 1 == 0 {
                        // prefer printable witnesses
                        let pick = (0x61..0x7b).chain(0x20..0x7f).chain(0..256).find(|v: &usize| f[v / 64] >> (v % 64) & 1 == 1).unwrap();
                        m[x as usize] = pick as u128;
                    }
                    return Ok(Some(m));
                }
            }
        }
        self.z3_query(c)
    }
    /// Counts a finite-domain decision; every n-th is put to z3, which must agree.
    fn fd_decided(&mut self, c: E, sat: bool) -> X<()> {
        let n = self.sh.fd_q.fetch_add(1, SeqCst);
        if self.cfg.audit != 0 && n % self.cfg.audit == 0 {
            self.sh.fd_audit.fetch_add(1, SeqCst);
            if self.z3_query(c)?.is_some() != sat {
                return inc("a finite-domain decision that z3 contradicts");
            }
        }
        Ok(())
    }
    fn z3_query(&mut self, c: E) -> X<Option<Vec<u128>>> {
        let t0 = std::time::Instant::now();
        if self.z.is_none() {
            match Z3::new() {
                Ok(z) => {
                    self.zs = Some(z.new_solver(self.cfg.rlimit));
                    self.z = Some(z);
                }
                Err(e) => return inc(e),
            }
        }
        // slice
        let mut vars = self.ar.sup(c);
        let mut used = vec![false; self.multi.len()];
        loop {
            let mut ch = false;
            for (i, k) in self.multi.iter().enumerate() {
                if !used[i] && self.ar.sup(*k) & vars != 0 {
                    used[i] = true;
                    let n = vars | self.ar.sup(*k);
                    if n != vars {
                        vars = n;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut cons = vec![c];
        for (i, k) in self.multi.iter().enumerate() {
            if used[i] {
                cons.push(*k);
            }
        }
        let nv = self.ar.vars.len();
        let mut vlist = vec![];
        for i in 0..nv {
            if vars & expr::vbit(i as u32) != 0 {
                vlist.push(i);
                let d = self.dom[i];
                let w = self.ar.vars[i].w;
                let full = if w >= 8 { [!0u64; 4] } else { [vmask(1 << w.min(6)), 0, 0, 0] };
                if w <= 8 && d != full && !(w < 8 && (0..(1usize << w)).all(|b| d[b / 64] >> (b % 64) & 1 == 1)) {
                    let t: Vec<Option<u128>> = (0..(1usize << w)).map(|b| Some((d[b / 64] >> (b % 64) & 1) as u128)).collect();
                    let x = self.ar.vars[i].e;
                    let e = self.ar.from_table(x, 1, &t);
                    cons.push(e);
                }
            }
        }
        let z = self.z.take().unwrap();
        let s = self.zs.unwrap();
        let mut asts = vec![];
        for k in &cons {
            asts.push(self.ar.to_bool(&z, *k));
        }
        let r;
        let mut newm = None;
        unsafe {
            (z.a.solver_push)(z.c, s);
            for a in asts {
                (z.a.solver_assert)(z.c, s, a);
            }
            r = (z.a.solver_check)(z.c, s);
            if r == 1 {
                let m = (z.a.solver_get_model)(z.c, s);
                (z.a.model_inc_ref)(z.c, m);
                let mut nm = self.model.clone();
                for i in &vlist {
                    let a = {
                        let e = self.ar.vars[*i].e;
                        self.ar.to_bv(&z, e)
                    };
                    nm[*i] = z.eval_u128(m, a).unwrap_or(0);
                }
                (z.a.model_dec_ref)(z.c, m);
                newm = Some(nm);
            }
            (z.a.solver_pop)(z.c, s, 1);
        }
        let err = unsafe { (z.a.get_error_code)(z.c) };
        self.z = Some(z);
        let ns = t0.elapsed().as_nanos() as u64;
        self.sh.solver_ns.fetch_add(ns, SeqCst);
        self.sh.max_solver_ns.fetch_max(ns, SeqCst);
        if err != 0 {
            return inc(format!("z3 error {}", err));
        }
        match r {
            1 => {
                self.sh.q_sat.fetch_add(1, SeqCst);
                let nm = newm.unwrap();
                // the model must satisfy what was asked
                self.ar.next_gen();
                for k in &cons {
                    if self.ar.eval(*k, &nm) != 1 {
                        return inc("solver model does not satisfy the query");
                    }
                }
                self.ar.next_gen();
                Ok(Some(nm))
            }
            -1 => {
                self.sh.q_unsat.fetch_add(1, SeqCst);
                Ok(None)
            }
            _ => {
                self.sh.q_unknown.fetch_add(1, SeqCst);
                inc("solver returned unknown")
            }
        }
    }
    fn set_model(&mut self, m: Vec<u128>) {
        self.model = m;
        self.ar.next_gen();
    }

    /// Fork the exploration. Returns true in the child.
    fn fork(&mut self) -> X<bool> {
        self.sh.forks.fetch_add(1, SeqCst);
        self.nforks += 1;
        if self.sh.stop.load(SeqCst) != 0 {
            return inc("stopped");
        }
        let act = self.sh.active.fetch_add(1, SeqCst);
        let par = act < self.cfg.jobs;
        if !par {
            self.sh.active.fetch_sub(1, SeqCst);
        }
        let pid = unsafe { fork() };
        if pid < 0 {
            return inc("fork failed");
        }
        if pid == 0 {
            self.children.clear();
            self.sh.insts.fetch_add(0, SeqCst);
            self.insts_base = self.insts;
            return Ok(true);
        }
        if par {
            self.children.push(pid);
        } else {
            self.wait(pid);
            self.sh.active.fetch_add(1, SeqCst);
            if self.sh.stop.load(SeqCst) != 0 {
                return inc("stopped");
            }
        }
        Ok(false)
    }
    fn wait(&self, pid: i32) {
        let mut st = 0;
        unsafe {
            let r = waitpid(pid, &mut st, 0);
            if r != pid || st != 0 {
                self.sh.incomplete.fetch_add(1, SeqCst);
                self.record(&format!("{{\"kind\":\"incomplete\",\"msg\":\"explorer process ended abnormally (status {})\"}}", st));
            }
        }
    }
    pub fn finish(&mut self) -> ! {
        self.sh.insts.fetch_add(self.insts - self.insts_base, SeqCst);
        self.sh.max_path.fetch_max(self.insts, SeqCst);
        self.sh.active.fetch_sub(1, SeqCst);
        let ch = std::mem::take(&mut self.children);
        for p in ch {
            self.wait(p);
        }
        unsafe { _exit(0) }
    }
    pub fn record(&self, s: &str) {
        use std::io::Write;
        let mut l = s.to_string();
        l.push('\n');
        let _ = (&self.cfg.out).write_all(l.as_bytes());
    }

    /// Decide a symbolic boolean; forks if both values are feasible.
    pub fn decide(&mut self, c: E) -> X<bool> {
        if let Some(v) = self.ar.is_con(c) {
            return Ok(v == 1);
        }
        let cur = self.eval(c) == 1;
        let nc = self.ar.not(c);
        let (here, other) = if cur { (c, nc) } else { (nc, c) };
        match self.feasible(other, false)? {
            None => Ok(cur),
            Some(m) => {
                if self.fork()? {
                    self.set_model(m);
                    self.assert(other);
                    Ok(!cur)
                } else {
                    self.assert(here);
                    Ok(cur)
                }
            }
        }
    }
    pub fn decide_v(&mut self, v: &V) -> X<bool> {
        match v {
            V::C(x) => Ok(*x & 1 == 1),
            V::S(e) => self.decide(*e),
            _ => inc("boolean"),
        }
    }
    /// Make an expression concrete, forking over every feasible value.
    pub fn conc(&mut self, e: E) -> X<u128> {
        loop {
            if let Some(v) = self.ar.is_con(e) {
                return Ok(v);
            }
            let cur = self.eval(e);
            let w = self.ar.w(e);
            let k = self.ar.con(cur, w);
            let eq = self.ar.cmp(Cm::Eq, e, k);
            let ne = self.ar.not(eq);
            match self.feasible(ne, false)? {
                None => return Ok(cur),
                Some(m) => {
                    if self.fork()? {
                        self.set_model(m);
                        self.assert(ne);
                        continue;
                    } else {
                        self.assert(eq);
                        return Ok(cur);
                    }
                }
            }
        }
    }
    /// Enumerate the values of an operand the engine only handles concretely (floats, signed
    /// saturation); more than 512 values on one path is reported as incomplete, not dropped.
    pub fn conc_lim(&mut self, v: &V) -> X<u128> {
        match v {
            V::S(e) => {
                let mut n = 0;
                loop {
                    if let Some(v) = self.ar.is_con(*e) {
                        return Ok(v);
                    }
                    let cur = self.eval(*e);
                    let w = self.ar.w(*e);
                    let k = self.ar.con(cur, w);
                    let eq = self.ar.cmp(Cm::Eq, *e, k);
                    let ne = self.ar.not(eq);
                    match self.feasible(ne, false)? {
                        None => return Ok(cur),
                        Some(m) => {
                            if self.fork()? {
                                self.set_model(m);
                                self.assert(ne);
                                n += 1;
                                if n > 512 {
                                    return inc("too many values of a concretely handled operand");
                                }
                                continue;
                            } else {
                                self.assert(eq);
                                return Ok(cur);
                            }
                        }
                    }
                }
            }
            V::C(x) => Ok(*x as u128),
            V::W(x) => Ok(**x),
            V::A(_) => inc("aggregate as scalar"),
        }
    }
    pub fn conc_v(&mut self, v: &V) -> X<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::S(e) => Ok(self.conc(*e)? as u64),
            V::W(x) => Ok(**x as u64),
            V::A(_) => inc("aggregate as scalar"),
        }
    }
    pub fn assume(&mut self, v: &V) -> X<()> {
        match v {
            V::C(x) => {
                if *x & 1 == 1 {
                    Ok(())
                } else {
                    Err(Stop::Assumed)
                }
            }
            V::S(e) => {
                let e = *e;
                if self.eval(e) != 1 {
                    match self.feasible(e, false)? {
                        None => return Err(Stop::Assumed),
                        Some(m) => self.set_model(m),
                    }
                }
                self.assert(e);
                Ok(())
            }
            _ => inc("assume"),
        }
    }
    pub fn witness(&self) -> String {
        let mut s = String::from("[");
        for (i, e) in self.inputs.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let x = match self.ar.n[*e as usize].k {
                K::Var(v) => self.model[v as usize],
                _ => 0,
            };
            s.push_str(&format!("\"{}\"", x));
        }
        s.push(']');
        s
    }
    pub fn stack_trace(&self) -> String {
        let mut v = vec![];
        for f in self.frames.iter().rev().take(14) {
            let n = String::from_utf8_lossy(self.m.funcs[f.f.idx as usize].name).into_owned();
            v.push(format!("{:#}", rustc_demangle::demangle(&n)));
        }
        v.join(" <- ")
    }
    pub fn violation(&mut self, msg: &str, known: Option<&str>) {
        let st = esc(&self.stack_trace());
        let k = match known {
            Some(f) => {
                self.sh.known.fetch_add(1, SeqCst);
                format!("\"known\":\"{}\",", esc(f))
            }
            None => {
                self.sh.violations.fetch_add(1, SeqCst);
                String::new()
            }
        };
        let r = format!("{{\"kind\":\"violation\",{}\"msg\":\"{}\",\"stack\":\"{}\",\"inputs\":{}}}", k, esc(msg), st, self.witness());
        self.record(&r);
        if known.is_none() && self.cfg.stop_on_violation {
            self.sh.stop.store(1, SeqCst);
        }
    }
    /// The property assertion: the solver decides whether it can fail on this path.
    pub fn check(&mut self, v: &V, msg: &str, known: Option<&str>) -> X<()> {
        match v {
            V::C(x) => {
                self.sh.checks_const.fetch_add(1, SeqCst);
                if *x & 1 == 1 {
                    return Ok(());
                }
                self.violation(msg, known);
                Err(Stop::Violated)
            }
            V::S(e) => {
                let e = *e;
                self.sh.checks_solver.fetch_add(1, SeqCst);
                let ne = self.ar.not(e);
                if let Some(m) = self.feasible(ne, true)? {
                    let old = std::mem::replace(&mut self.model, m);
                    self.violation(msg, known);
                    self.set_model(old);
                    // go on with the inputs on which it holds
                    if self.eval(e) != 1 {
                        match self.feasible(e, false)? {
                            None => return Err(Stop::Violated),
                            Some(m) => self.set_model(m),
                        }
                    }
                }
                self.assert(e);
                Ok(())
            }
            _ => inc("check"),
        }
    }

    // ---------------------------------------------------------------- memory
    pub fn alloc(&mut self, n: u64) -> X<u64> {
        if n > 1 << 31 {
            return inc(format!("allocation of {} bytes", n));
        }
        let id = match self.free.pop() {
            Some(i) => i as usize,
            None => {
                self.objs.push(Obj::default());
                self.objs.len() - 1
            }
        };
        let o = &mut self.objs[id];
        o.st = 1;
        o.ro = false;
        o.data = vec![0; n as usize];
        o.sym = vec![];
        Ok((id as u64) << 32)
    }
    pub fn dealloc(&mut self, p: u64) -> X<()> {
        if p == 0 {
            return Ok(());
        }
        let id = (p >> 32) as usize;
        if p & 0xffff_ffff != 0 || id >= self.objs.len() || self.objs[id].st != 1 {
            return inc(format!("bad free {:#x}", p));
        }
        let o = &mut self.objs[id];
        o.st = 2;
        o.data = vec![];
        o.sym = vec![];
        self.free.push(id as u32);
        Ok(())
    }
    #[cold]
    #[inline(never)]
    fn bad(&mut self, p: u64, n: u64) -> X<usize> {
        let id = (p >> 32) as usize;
        if id < self.objs.len() && self.objs[id].st == 3 {
            let (d, ro) = self.m.init_global(id as u32 - 1).map_err(Stop::Incomplete)?;
            let o = &mut self.objs[id];
            o.data = d;
            o.ro = ro;
            o.st = 1;
            return self.obj(p, n);
        }
        inc(format!("memory access out of bounds: {:#x}+{} (object size {})", p, n, self.objs.get(id).map(|o| o.data.len() as i64).unwrap_or(-1)))
    }
    #[inline(always)]
    pub fn obj(&mut self, p: u64, n: u64) -> X<usize> {
        let id = (p >> 32) as usize;
        let off = p & 0xffff_ffff;
        if id < self.objs.len() {
            let o = &self.objs[id];
            if o.st == 1 && off + n <= o.data.len() as u64 {
                return Ok(id);
            }
        }
        self.bad(p, n)
    }
    pub fn load_int(&mut self, p: u64, n: u32, w: u32) -> X<V> {
        let id = self.obj(p, n as u64)?;
        let off = (p & 0xffff_ffff) as usize;
        let o = &self.objs[id];
        let n = n as usize;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| *x == 0) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(V::C(u64::from_le_bytes(b) & vmask(w)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(vint(u128::from_le_bytes(b), w));
        }
        let mut r = self.byte_e(id, off + n - 1);
        for k in (0..n - 1).rev() {
            let b = self.byte_e(id, off + k);
            r = self.ar.concat(r, b);
        }
        if self.ar.w(r) > w {
            r = self.ar.trunc(r, w);
        }
        Ok(self.v(r))
    }
    fn byte_e(&mut self, id: usize, off: usize) -> E {
        let o = &self.objs[id];
        if !o.sym.is_empty() && o.sym[off] != 0 {
            o.sym[off]
        } else {
            let b = o.data[off];
            self.ar.con(b as u128, 8)
        }
    }
    pub fn store_int(&mut self, p: u64, v: &V, n: u32, w: u32) -> X<()> {
        let id = self.obj(p, n as u64)?;
        let off = (p & 0xffff_ffff) as usize;
        let nn = n as usize;
        match v {
            V::C(x) => {
                let o = &mut self.objs[id];
                if o.ro {
                    return inc("store to constant memory");
                }
                if nn <= 8 {
                    o.data[off..off + nn].copy_from_slice(&x.to_le_bytes()[..nn]);
                } else {
                    o.data[off..off + 8].copy_from_slice(&x.to_le_bytes());
                    for b in &mut o.data[off + 8..off + nn] {
                        *b = 0;
                    }
                }
                if !o.sym.is_empty() {
                    for s in &mut o.sym[off..off + nn] {
                        *s = 0;
                    }
                }
            }
            V::W(x) => {
                let o = &mut self.objs[id];
                o.data[off..off + nn].copy_from_slice(&x.to_le_bytes()[..nn]);
                if !o.sym.is_empty() {
                    for s in &mut o.sym[off..off + nn] {
                        *s = 0;
                    }
                }
            }
            V::S(e) => {
                let mut e = *e;
                if self.ar.w(e) < n * 8 {
                    e = self.ar.zext(e, n * 8);
                }
                let _ = w;
                for k in 0..nn {
                    let b = self.ar.extract(e, 8 * k as u32, 8);
                    self.set_byte(id, off + k, b);
                }
            }
            V::A(_) => return inc("aggregate scalar store"),
        }
        Ok(())
    }
    fn set_byte(&mut self, id: usize, off: usize, b: E) {
        let c = self.ar.is_con(b);
        let o = &mut self.objs[id];
        match c {
            Some(v) => {
                o.data[off] = v as u8;
                if !o.sym.is_empty() {
                    o.sym[off] = 0;
                }
            }
            None => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                o.sym[off] = b;
            }
        }
    }
    pub fn load_ty(&mut self, p: u64, t: TyId) -> X<V> {
        let (n, w) = self.m.mem(t);
        if n > 0 {
            return self.load_int(p, n, w);
        }
        match self.m.types[t as usize].clone() {
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, ft) = self.m.field_off(t, i);
                    v.push(self.load_ty(p + o, ft)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Array(k, et) | Ty::Vec(k, et) => {
                if let (Ty::Vec(..), Ty::Int(1)) = (&self.m.types[t as usize], &self.m.types[et as usize]) {
                    let bytes = (k + 7) / 8;
                    let x = self.load_int(p, bytes as u32, (bytes * 8) as u32)?;
                    let mut v = vec![];
                    let e = self.e(&x, (bytes * 8) as u32);
                    for i in 0..k {
                        let b = self.ar.extract(e, i as u32, 1);
                        v.push(self.v(b));
                    }
                    return Ok(V::A(Rc::new(v)));
                }
                let s = self.m.size(et);
                let mut v = vec![];
                for i in 0..k {
                    v.push(self.load_ty(p + i * s, et)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            t => inc(format!("load type {:?}", t)),
        }
    }
    pub fn store_ty(&mut self, p: u64, v: &V, t: TyId) -> X<()> {
        let (n, w) = self.m.mem(t);
        if n > 0 {
            return self.store_int(p, v, n, w);
        }
        match (self.m.types[t as usize].clone(), v) {
            (Ty::Struct(f, _), V::A(xs)) => {
                for i in 0..f.len() {
                    let (o, ft) = self.m.field_off(t, i);
                    self.store_ty(p + o, &xs[i], ft)?;
                }
                Ok(())
            }
            (Ty::Array(_, et), V::A(xs)) | (Ty::Vec(_, et), V::A(xs)) => {
                if let Ty::Int(1) = self.m.types[et as usize] {
                    return inc("store of i1 vector");
                }
                let s = self.m.size(et);
                for (i, x) in xs.iter().enumerate() {
                    self.store_ty(p + i as u64 * s, x, et)?;
                }
                Ok(())
            }
            (t, _) => inc(format!("store type {:?}", t)),
        }
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let si = self.obj(s, n)?;
        let di = self.obj(d, n)?;
        let (so, d_o, n) = ((s & 0xffff_ffff) as usize, (d & 0xffff_ffff) as usize, n as usize);
        if self.objs[di].ro {
            return inc("copy to constant memory");
        }
        if si == di {
            let o = &mut self.objs[si];
            o.data.copy_within(so..so + n, d_o);
            if !o.sym.is_empty() {
                o.sym.copy_within(so..so + n, d_o);
            }
            return Ok(());
        }
        let (a, b) = if si < di {
            let (x, y) = self.objs.split_at_mut(di);
            (&x[si], &mut y[0])
        } else {
            let (x, y) = self.objs.split_at_mut(si);
            (&y[0], &mut x[di])
        };
        b.data[d_o..d_o + n].copy_from_slice(&a.data[so..so + n]);
        let has = !a.sym.is_empty() && a.sym[so..so + n].iter().any(|x| *x != 0);
        if has {
            if b.sym.is_empty() {
                b.sym = vec![0; b.data.len()];
            }
            b.sym[d_o..d_o + n].copy_from_slice(&a.sym[so..so + n]);
        } else if !b.sym.is_empty() {
            for x in &mut b.sym[d_o..d_o + n] {
                *x = 0;
            }
        }
        Ok(())
    }
    pub fn fill(&mut self, d: u64, v: &V, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let di = self.obj(d, n)?;
        let off = (d & 0xffff_ffff) as usize;
        match v {
            V::C(b) => {
                let o = &mut self.objs[di];
                for x in &mut o.data[off..off + n as usize] {
                    *x = *b as u8;
                }
                if !o.sym.is_empty() {
                    for x in &mut o.sym[off..off + n as usize] {
                        *x = 0;
                    }
                }
            }
            V::S(e) => {
                for k in 0..n as usize {
                    self.set_byte(di, off + k, *e);
                }
            }
            _ => return inc("memset value"),
        }
        Ok(())
    }
    pub fn bytes(&mut self, p: u64, n: u64) -> X<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let id = self.obj(p, n)?;
        let off = (p & 0xffff_ffff) as usize;
        Ok((0..n as usize).map(|k| self.byte_e(id, off + k)).collect())
    }
    pub fn all_concrete(&mut self, p: u64, n: u64) -> X<bool> {
        if n == 0 {
            return Ok(true);
        }
        let id = self.obj(p, n)?;
        let off = (p & 0xffff_ffff) as usize;
        let o = &self.objs[id];
        Ok(o.sym.is_empty() || o.sym[off..off + n as usize].iter().all(|x| *x == 0))
    }
    pub fn conc_bytes(&mut self, p: u64, n: u64) -> X<Vec<u8>> {
        let es = self.bytes(p, n)?;
        let mut v = vec![];
        for e in es {
            v.push(self.conc(e)? as u8);
        }
        Ok(v)
    }

    /// Load through a symbolic address.
    fn load_sym(&mut self, a: E, t: TyId) -> X<V> {
        let n = self.m.size(t).max(1);
        let (mn, w) = self.m.mem(t);
        let cur = self.eval(a) as u64;
        let nb = if mn > 0 { mn as u64 } else { n };
        let id = self.obj(cur, nb)?;
        let base = (id as u64) << 32;
        let len = self.objs[id].data.len() as u64;
        // can the address leave the object?
        let b = self.ar.con(base as u128, 64);
        let rel = self.ar.bin(B::Sub, a, b);
        let lim = self.ar.con((len - nb + 1) as u128, 64);
        let inside = self.ar.cmp(Cm::Ult, rel, lim);
        if mn == 0 || !self.decide_no_fork_implied(inside)? {
            let p = self.conc(a)? as u64;
            return self.load_ty(p, t);
        }
        // enumerate addresses
        if let Some(x) = self.ar.single_byte_var(a) {
            if let Some(tab) = self.ar.table(a) {
                let dom = self.dom[x as usize];
                let xv = self.ar.vars[x as usize].e;
                let xw = self.ar.vars[x as usize].w;
                let cnt = 1usize << xw;
                let mut conc: Vec<Option<u128>> = vec![None; cnt];
                let mut syms: Vec<(usize, E)> = vec![];
                for i in 0..cnt {
                    if dom[i / 64] >> (i % 64) & 1 == 0 {
                        continue;
                    }
                    let p = tab[i];
                    if p < base || p - base + nb > len {
                        continue;
                    }
                    match self.load_int(p, mn, w)? {
                        V::C(v) => conc[i] = Some(v as u128),
                        V::W(v) => conc[i] = Some(*v),
                        V::S(e) => syms.push((i, e)),
                        _ => unreachable!(),
                    }
                }
                let mut r = self.ar.from_table(xv, w, &conc);
                for (i, e) in syms {
                    let k = self.ar.con(i as u128, xw);
                    let c = self.ar.cmp(Cm::Eq, xv, k);
                    r = self.ar.ite(c, e, r);
                }
                return Ok(self.v(r));
            }
        }
        // small object: enumerate feasible addresses with the solver
        let mut cands = vec![];
        let mut excl = self.ar.con(1, 1);
        loop {
            match self.feasible(excl, false)? {
                None => break,
                Some(m) => {
                    let old = std::mem::replace(&mut self.model, m);
                    self.ar.next_gen();
                    let p = self.eval(a) as u64;
                    self.model = old;
                    self.ar.next_gen();
                    cands.push(p);
                    if cands.len() > 40 {
                        let p = self.conc(a)? as u64;
                        return self.load_ty(p, t);
                    }
                    let k = self.ar.con(p as u128, 64);
                    let eq = self.ar.cmp(Cm::Eq, a, k);
                    let ne = self.ar.not(eq);
                    excl = self.ar.and1(excl, ne);
                }
            }
        }
        let mut r: Option<E> = None;
        for p in cands {
            let x = self.load_int(p, mn, w)?;
            let x = self.e(&x, w);
            r = Some(match r {
                None => x,
                Some(r) => {
                    let k = self.ar.con(p as u128, 64);
                    let c = self.ar.cmp(Cm::Eq, a, k);
                    self.ar.ite(c, x, r)
                }
            });
        }
        Ok(self.v(r.unwrap()))
    }
    /// true iff c is implied by the path condition
    pub fn decide_no_fork_implied(&mut self, c: E) -> X<bool> {
        if let Some(v) = self.ar.is_con(c) {
            return Ok(v == 1);
        }
        if self.eval(c) != 1 {
            return Ok(false);
        }
        let n = self.ar.not(c);
        Ok(self.feasible(n, false)?.is_none())
    }

    // ---------------------------------------------------------------- arithmetic
    pub fn bin(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> X<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => return inc("division by zero"),
                    BinOp::UDiv => x / y,
                    BinOp::URem => x % y,
                    _ => expr::bin_c(bop(op), w, x as u128, y as u128) as u64,
                };
                return Ok(V::C(r & vmask(w)));
            }
        }
        if let (Some(x), Some(y)) = (Self::conc_u128(a), Self::conc_u128(b)) {
            return Ok(vint(expr::bin_c(bop(op), w, x, y), w));
        }
        if let (V::A(_), _) | (_, V::A(_)) = (a, b) {
            return inc("aggregate arithmetic");
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.ar.bin(bop(op), x, y);
        Ok(self.v(r))
    }
    pub fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> X<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                _ => {
                    let s = 64 - w.min(64);
                    let (i, j) = (((x << s) as i64) >> s, ((y << s) as i64) >> s);
                    match p {
                        Pred::Sgt => i > j,
                        Pred::Sge => i >= j,
                        Pred::Slt => i < j,
                        _ => i <= j,
                    }
                }
            };
            return Ok(V::C(r as u64));
        }
        if let (V::A(_), _) | (_, V::A(_)) = (a, b) {
            return inc("aggregate compare");
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match p {
            Pred::Eq => self.ar.cmp(Cm::Eq, x, y),
            Pred::Ne => {
                let e = self.ar.cmp(Cm::Eq, x, y);
                self.ar.not(e)
            }
            Pred::Ugt => self.ar.cmp(Cm::Ult, y, x),
            Pred::Uge => self.ar.cmp(Cm::Ule, y, x),
            Pred::Ult => self.ar.cmp(Cm::Ult, x, y),
            Pred::Ule => self.ar.cmp(Cm::Ule, x, y),
            Pred::Sgt => self.ar.cmp(Cm::Slt, y, x),
            Pred::Sge => self.ar.cmp(Cm::Sle, y, x),
            Pred::Slt => self.ar.cmp(Cm::Slt, x, y),
            Pred::Sle => self.ar.cmp(Cm::Sle, x, y),
        };
        Ok(self.v(r))
    }
    fn ite_v(&mut self, c: E, a: &V, b: &V, t: TyId) -> X<V> {
        let w = self.m.width(t);
        if w > 0 {
            let (x, y) = (self.e(a, w), self.e(b, w));
            let r = self.ar.ite(c, x, y);
            return Ok(self.v(r));
        }
        let (x, y) = match (a, b) {
            (V::A(x), V::A(y)) => (x.clone(), y.clone()),
            _ => return inc("select"),
        };
        let mut v = vec![];
        for i in 0..x.len() {
            let (_, et) = self.m.field_off(t, i);
            v.push(self.ite_v(c, &x[i], &y[i], et)?);
        }
        Ok(V::A(Rc::new(v)))
    }
    fn fbits(&mut self, v: &V) -> X<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::S(_) => Ok(self.conc_lim(v)? as u64),
            _ => inc("float vector"),
        }
    }

    pub fn flatten(&mut self, v: &V, t: TyId, out: &mut Vec<(E, u32)>) {
        // little-endian list of pieces
        if let Some((_, et)) = self.m.elem(t) {
            let w = self.m.width(et);
            if let V::A(xs) = v {
                for x in xs.iter() {
                    let e = self.e(x, w);
                    out.push((e, w));
                }
            }
        } else {
            let w = self.m.width(t);
            let e = self.e(v, w);
            out.push((e, w));
        }
    }
    pub fn bitcast(&mut self, v: &V, f: TyId, t: TyId) -> X<V> {
        if f == t {
            return Ok(v.clone());
        }
        let (wf, wt) = (self.m.width(f), self.m.width(t));
        if wf > 0 && wf == wt {
            return Ok(v.clone());
        }
        let mut p = vec![];
        self.flatten(v, f, &mut p);
        // take pieces of the wanted widths
        let (cnt, ew) = match self.m.elem(t) {
            Some((n, et)) => (n, self.m.width(et)),
            None => (1, wt),
        };
        if ew == 0 {
            return inc("bitcast");
        }
        let mut res = vec![];
        let mut i = 0;
        let mut off = 0;
        for _ in 0..cnt {
            let mut need = ew;
            let mut acc: Option<E> = None;
            while need > 0 {
                let (e, w) = p[i];
                let take = need.min(w - off);
                let x = self.ar.extract(e, off, take);
                acc = Some(match acc {
                    None => x,
                    Some(a) => self.ar.concat(x, a),
                });
                off += take;
                need -= take;
                if off == w {
                    off = 0;
                    i += 1;
                }
            }
            let r = acc.unwrap();
            res.push(self.v(r));
        }
        if self.m.elem(t).is_some() {
            Ok(V::A(Rc::new(res)))
        } else {
            Ok(res.pop().unwrap())
        }
    }
    pub fn cast(&mut self, op: CastOp, f: TyId, t: TyId, a: &V) -> X<V> {
        if let (Some((_, fe)), Some((_, te))) = (self.m.elem(f), self.m.elem(t)) {
            if op != CastOp::BitCast {
                let xs = match a {
                    V::A(x) => x.clone(),
                    _ => return inc("vector cast"),
                };
                let mut v = vec![];
                for x in xs.iter() {
                    v.push(self.cast(op, fe, te, x)?);
                }
                return Ok(V::A(Rc::new(v)));
            }
        }
        let (wf, wt) = (self.m.width(f), self.m.width(t));
        match op {
            CastOp::Trunc | CastOp::PtrToInt | CastOp::IntToPtr | CastOp::ZExt => {
                if let V::C(x) = a {
                    if wt <= 64 {
                        return Ok(V::C(*x & vmask(wt)));
                    }
                    return Ok(vint(*x as u128, wt));
                }
                if let V::W(x) = a {
                    return Ok(vint(**x, wt));
                }
                let e = self.e(a, wf);
                let r = if wt < wf {
                    self.ar.trunc(e, wt)
                } else {
                    self.ar.zext(e, wt)
                };
                Ok(self.v(r))
            }
            CastOp::SExt => {
                if let Some(x) = Self::conc_u128(a) {
                    return Ok(vint(sext(x, wf) as u128, wt));
                }
                let e = self.e(a, wf);
                let r = self.ar.sext(e, wt);
                Ok(self.v(r))
            }
            CastOp::BitCast => self.bitcast(a, f, t),
            CastOp::FpTrunc => {
                let x = f64::from_bits(self.fbits(a)?);
                if wt == 32 {
                    Ok(V::C((x as f32).to_bits() as u64))
                } else {
                    inc("fptrunc")
                }
            }
            CastOp::FpExt => {
                if wf != 32 || wt != 64 {
                    return inc("fpext");
                }
                let x = f32::from_bits(self.fbits(a)? as u32);
                Ok(V::C((x as f64).to_bits()))
            }
            CastOp::FpToUi | CastOp::FpToSi => {
                let b = self.fbits(a)?;
                let x = if wf == 64 { f64::from_bits(b) } else { f32::from_bits(b as u32) as f64 };
                if op == CastOp::FpToUi {
                    Ok(vint(x as u128, wt))
                } else {
                    Ok(vint(x as i128 as u128, wt))
                }
            }
            CastOp::UiToFp | CastOp::SiToFp => {
                let x = match Self::conc_u128(a) {
                    Some(x) => x,
                    // floating point is only handled concretely: enumerate the values
                    None => self.conc_lim(a)?,
                };
                let r = if op == CastOp::UiToFp {
                    if wt == 64 {
                        (x as f64).to_bits()
                    } else {
                        (x as f32).to_bits() as u64
                    }
                } else {
                    let s = sext(x, wf);
                    if wt == 64 {
                        (s as f64).to_bits()
                    } else {
                        (s as f32).to_bits() as u64
                    }
                };
                Ok(V::C(r))
            }
        }
    }

    // ---------------------------------------------------------------- calls
    pub fn enter(&mut self, f: u32, args: Vec<V>, ret: Option<u32>, ret_edge: Option<u32>) -> X<()> {
        let func = match &self.m.funcs[f as usize].body {
            Some(b) => b.clone(),
            None => {
                if self.m.funcs[f as usize].off.is_none() {
                    return inc(format!("call to external function {}", String::from_utf8_lossy(self.m.funcs[f as usize].name)));
                }
                match self.m.parse_func(f) {
                    Ok(b) => b,
                    Err(e) => return inc(format!("IR parse error: {}", e)),
                }
            }
        };
        if !self.seen_cov[f as usize] {
            self.seen_cov[f as usize] = true;
            if (f as usize) < 2048 * 64 {
                self.sh.cov[f as usize / 64].fetch_or(1 << (f % 64), SeqCst);
            }
        }
        if self.cfg.trace {
            eprintln!("{:indent$}> {:#}", "", rustc_demangle::demangle(&String::from_utf8_lossy(self.m.funcs[f as usize].name)), indent = self.frames.len());
        }
        let depth = self.frames.len() as u64;
        if depth + 2 >= MAXDEPTH {
            self.violation("call depth exceeds the modelled stack (unbounded recursion?)", None);
            return Err(Stop::Violated);
        }
        let id = self.stack_base + depth;
        if func.frame_size > 0 {
            let o = &mut self.objs[id as usize];
            o.st = 1;
            let n = func.frame_size as usize;
            o.data.clear();
            o.data.resize(n, 0);
            o.sym.clear();
        } else {
            self.objs[id as usize].st = 0;
        }
        let base = self.regs.len();
        self.regs.resize(base + func.nregs as usize, V::C(0));
        for (i, a) in args.into_iter().enumerate() {
            if i < func.params.len() {
                self.regs[base + func.params[i] as usize] = a;
            }
        }
        self.frames.push(Frame { f: func, pc: 0, base, ret, ret_edge, stack: id << 32 });
        Ok(())
    }

    fn take_edge(&mut self, fi: usize, e: u32) {
        let fr = &self.frames[fi];
        let base = fr.base;
        let f: *const Func = &*fr.f;
        let ed = unsafe { &(&(*f).edges)[e as usize] };
        match ed.copies.len() {
            0 => {}
            1 => {
                let v = self.get(base, &ed.copies[0].1);
                self.regs[base + ed.copies[0].0 as usize] = v;
            }
            _ => {
                let vs: Vec<V> = ed.copies.iter().map(|(_, o)| self.get(base, o)).collect();
                for ((d, _), v) in ed.copies.iter().zip(vs) {
                    self.regs[base + *d as usize] = v;
                }
            }
        }
        self.frames[fi].pc = ed.pc as usize;
    }

    pub fn run(&mut self) -> Stop {
        loop {
            match self.step_loop() {
                Ok(()) => return Stop::Done,
                Err(s) => return s,
            }
        }
    }

    fn step_loop(&mut self) -> X<()> {
        'frame: loop {
            let fi = match self.frames.len() {
                0 => return Ok(()),
                n => n - 1,
            };
            let func = self.frames[fi].f.clone();
            let code: &[I] = unsafe { std::slice::from_raw_parts(func.code.as_ptr(), func.code.len()) };
            let base = self.frames[fi].base;
            let mut pc = self.frames[fi].pc;
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    self.regs[base + $d as usize] = v;
                }};
            }
            loop {
                self.insts += 1;
                if self.insts & 0xfffff == 0 {
                    if self.sh.stop.load(SeqCst) != 0 {
                        return inc("stopped");
                    }
                    if self.insts > self.cfg.max_insts {
                        self.frames[fi].pc = pc;
                        // reported as incomplete: the driver replays the inputs natively
                        return inc("instruction budget of one path exceeded");
                    }
                }
                match &code[pc] {
                    I::Bin { op, w, a, b, d } => {
                        let (x, y) = (self.get(base, a), self.get(base, b));
                        let r = self.bin(*op, *w, &x, &y)?;
                        set!(*d, r);
                    }
                    I::ICmp { p, w, a, b, d } => {
                        let (x, y) = (self.get(base, a), self.get(base, b));
                        let r = self.icmp(*p, *w, &x, &y)?;
                        set!(*d, r);
                    }
                    I::VBin { op, w, a, b, d } => {
                        let (x, y) = (self.get(base, a), self.get(base, b));
                        let r = match (&x, &y) {
                            (V::A(x), V::A(y)) => {
                                let mut v = vec![];
                                for (i, j) in x.iter().zip(y.iter()) {
                                    v.push(self.bin(*op, *w, i, j)?);
                                }
                                V::A(Rc::new(v))
                            }
                            _ => return inc("vbin"),
                        };
                        set!(*d, r);
                    }
                    I::VICmp { p, w, a, b, d } => {
                        let (x, y) = (self.get(base, a), self.get(base, b));
                        let r = match (&x, &y) {
                            (V::A(x), V::A(y)) => {
                                let mut v = vec![];
                                for (i, j) in x.iter().zip(y.iter()) {
                                    v.push(self.icmp(*p, *w, i, j)?);
                                }
                                V::A(Rc::new(v))
                            }
                            _ => return inc("vicmp"),
                        };
                        set!(*d, r);
                    }
                    I::FBin { op, ty, a, b, d } => {
                        let (x, y) = (self.get(base, a), self.get(base, b));
                        let (x, y) = (self.fbits(&x)?, self.fbits(&y)?);
                        let r = if self.m.width(*ty) == 64 {
                            let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                            match op {
                                FOp::Add => x + y,
                                FOp::Sub => x - y,
                                FOp::Mul => x * y,
                                FOp::Div => x / y,
                                FOp::Rem => x % y,
                            }
                            .to_bits()
                        } else {
                            let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            match op {
                                FOp::Add => x + y,
                                FOp::Sub => x - y,
                                FOp::Mul => x * y,
                                FOp::Div => x / y,
                                FOp::Rem => x % y,
                            }
                            .to_bits() as u64
                        };
                        set!(*d, V::C(r));
                    }
                    I::FNeg { ty, a, d } => {
                        let x = self.get(base, a);
                        let x = self.fbits(&x)?;
                        let w = self.m.width(*ty);
                        set!(*d, V::C(x ^ (1u64 << (w - 1))));
                    }
                    I::FCmp { p, ty, a, b, d } => {
                        let (x, y) = (self.get(base, a), self.get(base, b));
                        let (x, y) = (self.fbits(&x)?, self.fbits(&y)?);
                        let (x, y) = if self.m.width(*ty) == 64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                        let uno = x.is_nan() || y.is_nan();
                        let r = match p {
                            0 => false,
                            1 => !uno && x == y,
                            2 => x > y,
                            3 => x >= y,
                            4 => x < y,
                            5 => x <= y,
                            6 => !uno && x != y,
                            7 => !uno,
                            8 => uno,
                            9 => uno || x == y,
                            10 => uno || x > y,
                            11 => uno || x >= y,
                            12 => uno || x < y,
                            13 => uno || x <= y,
                            14 => uno || x != y,
                            _ => true,
                        };
                        set!(*d, V::C(r as u64));
                    }
                    I::Sel { c, vec, a, b, d, ty } => {
                        let cv = self.get(base, c);
                        if *vec {
                            let (x, y) = (self.get(base, a), self.get(base, b));
                            let r = match (&cv, &x, &y) {
                                (V::A(cs), V::A(x), V::A(y)) => {
                                    let mut v = vec![];
                                    let et = self.m.elem(*ty).unwrap().1;
                                    for i in 0..cs.len() {
                                        v.push(match &cs[i] {
                                            V::C(k) => {
                                                if *k == 1 {
                                                    x[i].clone()
                                                } else {
                                                    y[i].clone()
                                                }
                                            }
                                            V::S(e) => self.ite_v(*e, &x[i], &y[i], et)?,
                                            _ => return inc("vselect"),
                                        });
                                    }
                                    V::A(Rc::new(v))
                                }
                                _ => return inc("vselect"),
                            };
                            set!(*d, r);
                        } else {
                            match cv {
                                V::C(k) => {
                                    let r = if k & 1 == 1 { self.get(base, a) } else { self.get(base, b) };
                                    set!(*d, r);
                                }
                                V::S(e) => {
                                    let (x, y) = (self.get(base, a), self.get(base, b));
                                    let is_ptr = matches!(self.m.types[*ty as usize], Ty::Ptr);
                                    if is_ptr {
                                        // keep pointers concrete
                                        let r = if self.decide(e)? { x } else { y };
                                        set!(*d, r);
                                    } else {
                                        let r = self.ite_v(e, &x, &y, *ty)?;
                                        set!(*d, r);
                                    }
                                }
                                _ => return inc("select"),
                            }
                        }
                    }
                    I::Cast { op, f, t, a, d } => {
                        let x = self.get(base, a);
                        let r = self.cast(*op, *f, *t, &x)?;
                        set!(*d, r);
                    }
                    I::Mov { a, d } => {
                        let x = self.get(base, a);
                        set!(*d, x);
                    }
                    I::Load { p, ty, n, w, d } => {
                        let pv = self.get(base, p);
                        let r = match pv {
                            V::C(a) => {
                                if *n > 0 {
                                    self.load_int(a, *n, *w)?
                                } else {
                                    self.load_ty(a, *ty)?
                                }
                            }
                            V::S(e) => self.load_sym(e, *ty)?,
                            _ => return inc("load address"),
                        };
                        set!(*d, r);
                    }
                    I::Store { p, v, ty, n, w } => {
                        let pv = self.get(base, p);
                        let x = self.get(base, v);
                        let a = self.conc_v(&pv)?;
                        if *n > 0 {
                            self.store_int(a, &x, *n, *w)?;
                        } else {
                            self.store_ty(a, &x, *ty)?;
                        }
                    }
                    I::Gep { base: b, off, idx, d } => {
                        let bv = self.get(base, b);
                        let mut conc = true;
                        let mut acc = match &bv {
                            V::C(x) => x.wrapping_add(*off as u64),
                            _ => {
                                conc = false;
                                0
                            }
                        };
                        if conc {
                            for (o, sc, w) in idx {
                                let iv = self.get(base, o);
                                match iv {
                                    V::C(x) => {
                                        let s = 64 - *w;
                                        let i = ((x << s) as i64) >> s;
                                        acc = acc.wrapping_add((i.wrapping_mul(*sc)) as u64)
                                    }
                                    _ => {
                                        conc = false;
                                        break;
                                    }
                                }
                            }
                        }
                        if conc {
                            set!(*d, V::C(acc));
                        } else {
                            let mut e = self.e(&bv, 64);
                            let o = self.ar.con(*off as u64 as u128, 64);
                            e = self.ar.bin(B::Add, e, o);
                            for (o, sc, w) in idx {
                                let iv = self.get(base, o);
                                let ie = self.e(&iv, *w);
                                let ie = self.ar.sext(ie, 64);
                                let s = self.ar.con(*sc as u64 as u128, 64);
                                let pr = self.ar.bin(B::Mul, ie, s);
                                e = self.ar.bin(B::Add, e, pr);
                            }
                            let r = self.v(e);
                            set!(*d, r);
                        }
                    }
                    I::Alloca { off, d } => {
                        let s = self.frames[fi].stack;
                        set!(*d, V::C(s + *off as u64));
                    }
                    I::ExtractV { a, path, d } => {
                        let mut x = self.get(base, a);
                        for i in path {
                            x = match &x {
                                V::A(v) => v[*i as usize].clone(),
                                _ => return inc("extractvalue"),
                            };
                        }
                        set!(*d, x);
                    }
                    I::InsertV { a, v, path, d } => {
                        let mut x = self.get(base, a);
                        let y = self.get(base, v);
                        fn ins(x: &mut V, path: &[u32], y: V) -> bool {
                            match x {
                                V::A(v) => {
                                    let v = Rc::make_mut(v);
                                    if path.len() == 1 {
                                        v[path[0] as usize] = y;
                                        true
                                    } else {
                                        ins(&mut v[path[0] as usize], &path[1..], y)
                                    }
                                }
                                _ => false,
                            }
                        }
                        if !ins(&mut x, path, y) {
                            return inc("insertvalue");
                        }
                        set!(*d, x);
                    }
                    I::ExtractE { a, i, d } => {
                        let x = self.get(base, a);
                        let iv = self.get(base, i);
                        let k = self.conc_v(&iv)? as usize;
                        let r = match &x {
                            V::A(v) => v[k].clone(),
                            _ => return inc("extractelement"),
                        };
                        set!(*d, r);
                    }
                    I::InsertE { a, v, i, d } => {
                        let mut x = self.get(base, a);
                        let y = self.get(base, v);
                        let iv = self.get(base, i);
                        let k = self.conc_v(&iv)? as usize;
                        match &mut x {
                            V::A(v) => Rc::make_mut(v)[k] = y,
                            _ => return inc("insertelement"),
                        }
                        set!(*d, x);
                    }
                    I::Shuffle { a, b, mask, d } => {
                        let (x, y) = (self.get(base, a), self.get(base, b));
                        let r = match (&x, &y) {
                            (V::A(x), V::A(y)) => mask.iter().map(|i| if (*i as usize) < x.len() { x[*i as usize].clone() } else { y[*i as usize - x.len()].clone() }).collect::<Vec<_>>(),
                            _ => return inc("shuffle"),
                        };
                        set!(*d, V::A(Rc::new(r)));
                    }
                    I::AtomicRmw { op, p, v, w, n, d } => {
                        let pv = self.get(base, p);
                        let a = self.conc_v(&pv)?;
                        let x = self.get(base, v);
                        let old = self.load_int(a, *n, *w)?;
                        let nv = match op {
                            Rmw::Xchg => x,
                            Rmw::Add => self.bin(BinOp::Add, *w, &old, &x)?,
                            Rmw::Sub => self.bin(BinOp::Sub, *w, &old, &x)?,
                            Rmw::And => self.bin(BinOp::And, *w, &old, &x)?,
                            Rmw::Or => self.bin(BinOp::Or, *w, &old, &x)?,
                            Rmw::Xor => self.bin(BinOp::Xor, *w, &old, &x)?,
                            Rmw::Nand => {
                                let t = self.bin(BinOp::And, *w, &old, &x)?;
                                self.bin(BinOp::Xor, *w, &t, &vint(!0, *w))?
                            }
                            Rmw::Max | Rmw::Min | Rmw::UMax | Rmw::UMin => {
                                let p = match op {
                                    Rmw::Max => Pred::Sgt,
                                    Rmw::Min => Pred::Slt,
                                    Rmw::UMax => Pred::Ugt,
                                    _ => Pred::Ult,
                                };
                                let c = self.icmp(p, *w, &old, &x)?;
                                if self.decide_v(&c)? {
                                    old.clone()
                                } else {
                                    x
                                }
                            }
                        };
                        self.store_int(a, &nv, *n, *w)?;
                        set!(*d, old);
                    }
                    I::CmpXchg { p, c, v, w, n, d } => {
                        let pv = self.get(base, p);
                        let a = self.conc_v(&pv)?;
                        let cv = self.get(base, c);
                        let x = self.get(base, v);
                        let old = self.load_int(a, *n, *w)?;
                        let eq = self.icmp(Pred::Eq, *w, &old, &cv)?;
                        let ok = self.decide_v(&eq)?;
                        if ok {
                            self.store_int(a, &x, *n, *w)?;
                        }
                        set!(*d, V::A(Rc::new(vec![old, V::C(ok as u64)])));
                    }
                    I::Nop => {}
                    I::Ret(v) => {
                        let r = v.as_ref().map(|o| self.get(base, o));
                        let fr = self.frames.pop().unwrap();
                        self.regs.truncate(fr.base);
                        self.objs[(fr.stack >> 32) as usize].st = 0;
                        if self.frames.is_empty() {
                            return Ok(());
                        }
                        let ci = self.frames.len() - 1;
                        let cb = self.frames[ci].base;
                        if let (Some(d), Some(v)) = (fr.ret, r) {
                            self.regs[cb + d as usize] = v;
                        }
                        if let Some(e) = fr.ret_edge {
                            self.take_edge(ci, e);
                        }
                        continue 'frame;
                    }
                    I::Br(e) => {
                        self.take_edge(fi, *e);
                        pc = self.frames[fi].pc;
                        continue;
                    }
                    I::CondBr(c, x, y) => {
                        let v = self.get(base, c);
                        let t = match v {
                            V::C(k) => k & 1 == 1,
                            V::S(e) => {
                                self.frames[fi].pc = pc;
                                self.decide(e)?
                            }
                            _ => return inc("branch"),
                        };
                        self.take_edge(fi, if t { *x } else { *y });
                        pc = self.frames[fi].pc;
                        continue;
                    }
                    I::Switch { v, w, cases, def } => {
                        let x = self.get(base, v);
                        let mut target = *def;
                        match &x {
                            V::S(e) => {
                                // fork per successor, not per value
                                let e = *e;
                                let mut groups: Vec<(u32, u32, Vec<u128>)> = vec![]; // (block, edge, values)
                                for (k, ed) in cases {
                                    let tb = func.edges[*ed as usize].target;
                                    match groups.iter_mut().find(|g| g.0 == tb) {
                                        Some(g) => g.2.push(*k),
                                        None => groups.push((tb, *ed, vec![*k])),
                                    }
                                }
                                for (_, ed, ks) in groups {
                                    let mut c = self.ar.con(0, 1);
                                    for k in ks {
                                        let kc = self.ar.con(k, *w);
                                        let q = self.ar.cmp(Cm::Eq, e, kc);
                                        c = self.ar.or1(c, q);
                                    }
                                    if self.decide(c)? {
                                        target = ed;
                                        break;
                                    }
                                }
                            }
                            _ => {
                                let k = Self::conc_u128(&x).unwrap();
                                for (c, ed) in cases {
                                    if *c == k {
                                        target = *ed;
                                        break;
                                    }
                                }
                            }
                        }
                        self.take_edge(fi, target);
                        pc = self.frames[fi].pc;
                        continue;
                    }
                    I::Unreachable => {
                        return inc(format!("reached `unreachable` in {}", self.stack_trace()));
                    }
                    I::Resume => return inc("resume"),
                    I::Call(c) => {
                        self.frames[fi].pc = pc + 1;
                        let mut args: Vec<V> = Vec::with_capacity(c.args.len());
                        for (o, _) in &c.args {
                            args.push(self.get(base, o));
                        }
                        let f = match &c.callee {
                            Callee::Fn(f) => *f,
                            Callee::Ind(o) => {
                                let p = self.get(base, o);
                                let p = self.conc_v(&p)?;
                                let id = p >> 32;
                                if id < FN_ID || id - FN_ID >= self.m.funcs.len() as u64 {
                                    return inc(format!("indirect call to {:#x}", p));
                                }
                                (id - FN_ID) as u32
                            }
                            Callee::Asm(id) => {
                                if let (true, Some(d), [a]) = (*id, c.d, &args[..]) {
                                    let a = a.clone();
                                    set!(d, a);
                                    pc += 1;
                                    continue;
                                }
                                match self.m.types[c.rty as usize] {
                                    Ty::Void => {}
                                    _ => {
                                        if let Some(d) = c.d {
                                            let z = self.m.zero(c.rty);
                                            set!(d, z);
                                        }
                                    }
                                }
                                pc += 1;
                                continue;
                            }
                        };
                        let md = self.models[f as usize];
                        if md != M::None {
                            if let Some(r) = self.model_call(md, f, args, c)? {
                                // handled
                                if let Some(d) = c.d {
                                    set!(d, r);
                                }
                                if let Some(e) = c.next {
                                    self.take_edge(fi, e);
                                    pc = self.frames[fi].pc;
                                    continue;
                                }
                                pc += 1;
                                continue;
                            }
                            continue 'frame;
                        }
                        self.enter(f, args, c.d, c.next)?;
                        continue 'frame;
                    }
                }
                pc += 1;
            }
        }
    }
}

pub fn bop(o: BinOp) -> B {
    match o {
        BinOp::Add => B::Add,
        BinOp::Sub => B::Sub,
        BinOp::Mul => B::Mul,
        BinOp::UDiv => B::UDiv,
        BinOp::SDiv => B::SDiv,
        BinOp::URem => B::URem,
        BinOp::SRem => B::SRem,
        BinOp::Shl => B::Shl,
        BinOp::LShr => B::LShr,
        BinOp::AShr => B::AShr,
        BinOp::And => B::And,
        BinOp::Or => B::Or,
        BinOp::Xor => B::Xor,
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

#[allow(dead_code)]
fn _unused(_: FxMap<u8, u8>) {
    let _ = cmp_c;
}
