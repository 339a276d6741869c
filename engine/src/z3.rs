//! Minimal dlopen bindings to the Z3 C API (only what the engine uses).
#![allow(non_snake_case, non_camel_case_types)]
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

pub type Ctx = *mut c_void;
pub type Ast = *mut c_void;
pub type Sort = *mut c_void;
pub type Solver = *mut c_void;
pub type Model = *mut c_void;
type Params = *mut c_void;
type Symbol = *mut c_void;

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
}

macro_rules! api {
    ($( $name:ident : fn($($t:ty),*) $(-> $r:ty)? ;)*) => {
        pub struct Api { $( pub $name: unsafe extern "C" fn($($t),*) $(-> $r)?, )* }
        impl Api {
            unsafe fn load(h: *mut c_void) -> Result<Api, String> {
                Ok(Api { $( $name: {
                    let s = CString::new(concat!("Z3_", stringify!($name))).unwrap();
                    let p = dlsym(h, s.as_ptr());
                    if p.is_null() { return Err(format!("missing Z3_{}", stringify!($name))); }
                    std::mem::transmute(p)
                }, )* })
            }
        }
    };
}

api! {
    mk_config: fn() -> *mut c_void;
    mk_context_rc: fn(*mut c_void) -> Ctx;
    set_error_handler: fn(Ctx, *const c_void);
    get_error_code: fn(Ctx) -> c_uint;
    get_full_version: fn() -> *const c_char;
    mk_simple_solver: fn(Ctx) -> Solver;
    mk_solver: fn(Ctx) -> Solver;
    solver_inc_ref: fn(Ctx, Solver);
    solver_dec_ref: fn(Ctx, Solver);
    solver_push: fn(Ctx, Solver);
    solver_pop: fn(Ctx, Solver, c_uint);
    solver_assert: fn(Ctx, Solver, Ast);
    solver_check: fn(Ctx, Solver) -> c_int;
    solver_get_model: fn(Ctx, Solver) -> Model;
    solver_set_params: fn(Ctx, Solver, Params);
    solver_to_string: fn(Ctx, Solver) -> *const c_char;
    mk_params: fn(Ctx) -> Params;
    params_inc_ref: fn(Ctx, Params);
    params_set_uint: fn(Ctx, Params, Symbol, c_uint);
    mk_string_symbol: fn(Ctx, *const c_char) -> Symbol;
    model_inc_ref: fn(Ctx, Model);
    model_dec_ref: fn(Ctx, Model);
    model_eval: fn(Ctx, Model, Ast, bool, *mut Ast) -> bool;
    get_numeral_string: fn(Ctx, Ast) -> *const c_char;
    inc_ref: fn(Ctx, Ast);
    dec_ref: fn(Ctx, Ast);
    mk_bv_sort: fn(Ctx, c_uint) -> Sort;
    mk_const: fn(Ctx, Symbol, Sort) -> Ast;
    mk_numeral: fn(Ctx, *const c_char, Sort) -> Ast;
    mk_true: fn(Ctx) -> Ast;
    mk_false: fn(Ctx) -> Ast;
    mk_eq: fn(Ctx, Ast, Ast) -> Ast;
    mk_not: fn(Ctx, Ast) -> Ast;
    mk_ite: fn(Ctx, Ast, Ast, Ast) -> Ast;
    mk_and: fn(Ctx, c_uint, *const Ast) -> Ast;
    mk_or: fn(Ctx, c_uint, *const Ast) -> Ast;
    mk_xor: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvnot: fn(Ctx, Ast) -> Ast;
    mk_bvand: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvor: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvxor: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvadd: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvsub: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvmul: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvudiv: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvsdiv: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvurem: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvsrem: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvshl: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvlshr: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvashr: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvult: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvule: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvslt: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvsle: fn(Ctx, Ast, Ast) -> Ast;
    mk_concat: fn(Ctx, Ast, Ast) -> Ast;
    mk_extract: fn(Ctx, c_uint, c_uint, Ast) -> Ast;
    mk_zero_ext: fn(Ctx, c_uint, Ast) -> Ast;
    mk_sign_ext: fn(Ctx, c_uint, Ast) -> Ast;
}

pub struct Z3 {
    pub a: Api,
    pub c: Ctx,
    pub path: String,
}

unsafe extern "C" fn on_error(_c: Ctx, code: c_uint) {
    eprintln!("z3 error code {}", code);
}

impl Z3 {
    pub fn new() -> Result<Z3, String> {
        let mut cands: Vec<String> = vec![];
        if let Ok(p) = std::env::var("SYMRS_LIBZ3") {
            cands.push(p);
        }
        cands.push("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so".into());
        cands.push("libz3.so.4".into());
        cands.push("libz3.so".into());
        for p in cands {
            unsafe {
                let s = CString::new(p.clone()).unwrap();
                let h = dlopen(s.as_ptr(), 2 | 0x100);
                if h.is_null() {
                    continue;
                }
                let a = match Api::load(h) {
                    Ok(a) => a,
                    Err(_) => continue,
                };
                let cfg = (a.mk_config)();
                let c = (a.mk_context_rc)(cfg);
                (a.set_error_handler)(c, on_error as *const c_void);
                return Ok(Z3 { a, c, path: p });
            }
        }
        Err("no libz3 could be loaded".into())
    }
    pub fn version(&self) -> String {
        unsafe { CStr::from_ptr((self.a.get_full_version)()).to_string_lossy().into_owned() }
    }
    pub fn new_solver(&self, rlimit: u32) -> Solver {
        unsafe {
            let s = (self.a.mk_simple_solver)(self.c);
            (self.a.solver_inc_ref)(self.c, s);
            let p = (self.a.mk_params)(self.c);
            (self.a.params_inc_ref)(self.c, p);
            let k = CString::new("rlimit").unwrap();
            let sy = (self.a.mk_string_symbol)(self.c, k.as_ptr());
            (self.a.params_set_uint)(self.c, p, sy, rlimit);
            (self.a.solver_set_params)(self.c, s, p);
            s
        }
    }
    pub fn keep(&self, a: Ast) -> Ast {
        unsafe {
            (self.a.inc_ref)(self.c, a);
        }
        a
    }
    pub fn numeral(&self, v: u128, w: u32) -> Ast {
        unsafe {
            let s = CString::new(v.to_string()).unwrap();
            let so = (self.a.mk_bv_sort)(self.c, w);
            self.keep((self.a.mk_numeral)(self.c, s.as_ptr(), so))
        }
    }
    pub fn var(&self, name: &str, w: u32) -> Ast {
        unsafe {
            let s = CString::new(name).unwrap();
            let sy = (self.a.mk_string_symbol)(self.c, s.as_ptr());
            let so = (self.a.mk_bv_sort)(self.c, w);
            self.keep((self.a.mk_const)(self.c, sy, so))
        }
    }
    pub fn eval_u128(&self, m: Model, a: Ast) -> Option<u128> {
        unsafe {
            let mut out: Ast = std::ptr::null_mut();
            if !(self.a.model_eval)(self.c, m, a, true, &mut out) || out.is_null() {
                return None;
            }
            (self.a.inc_ref)(self.c, out);
            let s = CStr::from_ptr((self.a.get_numeral_string)(self.c, out));
            let r = s.to_str().ok().and_then(|x| x.parse::<u128>().ok());
            (self.a.dec_ref)(self.c, out);
            r
        }
    }
}
