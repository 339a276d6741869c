//! Hash-consed bit-vector expressions, their simplifier, evaluator and Z3 lowering.
use crate::z3::{Ast, Z3};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.write_u64(v as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum C {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    Bin(B, E, E),
    Cmp(C, E, E),
    Ite(E, E, E),
    Concat(E, E),
    Extract(E, u32),
    ZExt(E),
    SExt(E),
}

#[derive(Clone, Copy)]
pub struct Node {
    pub k: K,
    pub w: u32,
    /// number of low bits that can be non-zero
    pub lb: u32,
    pub sup: u128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn bin_c(op: B, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        B::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            let x = sext(a, w);
            (if b >= w as u128 { x >> 127 } else { x >> b }) as u128
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
    };
    r & m
}
pub fn cmp_c(op: C, w: u32, a: u128, b: u128) -> bool {
    match op {
        C::Eq => a == b,
        C::Ult => a < b,
        C::Ule => a <= b,
        C::Slt => sext(a, w) < sext(b, w),
        C::Sle => sext(a, w) <= sext(b, w),
    }
}

pub struct VarInfo {
    pub name: String,
    pub w: u32,
    pub e: E,
}

pub struct Arena {
    pub n: Vec<Node>,
    map: FxMap<(K, u32), E>,
    pub vars: Vec<VarInfo>,
    z_bv: FxMap<E, Ast>,
    z_bool: FxMap<E, Ast>,
    tabs: FxMap<E, Rc<[u64; 256]>>,
    memo: Vec<(u32, u128)>,
    gen: u32,
}

/// Support bit of a variable; variables past 126 share the last bit.
pub fn vbit(v: u32) -> u128 {
    1u128 << v.min(127)
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            n: vec![],
            map: Default::default(),
            vars: vec![],
            z_bv: Default::default(),
            z_bool: Default::default(),
            tabs: Default::default(),
            memo: vec![],
            gen: 0,
        };
        // index 0 is reserved (memory overlays use 0 for "concrete")
        a.n.push(Node { k: K::Const(0), w: 1, lb: 0, sup: 0 });
        a
    }
    fn mk(&mut self, k: K, w: u32) -> E {
        debug_assert!(w >= 1 && w <= 128, "width {}", w);
        if let Some(e) = self.map.get(&(k, w)) {
            return *e;
        }
        let sup = match k {
            K::Const(_) => 0,
            K::Var(v) => vbit(v),
            K::Bin(_, a, b) | K::Cmp(_, a, b) | K::Concat(a, b) => self.n[a as usize].sup | self.n[b as usize].sup,
            K::Ite(a, b, c) => self.n[a as usize].sup | self.n[b as usize].sup | self.n[c as usize].sup,
            K::Extract(a, _) | K::ZExt(a) | K::SExt(a) => self.n[a as usize].sup,
        };
        let e = self.n.len() as E;
        let lb = {
            let l = |x: E| self.n[x as usize].lb;
            let wd = |x: E| self.n[x as usize].w;
            let cv = |x: E| match self.n[x as usize].k {
                K::Const(v) => Some(v),
                _ => None,
            };
            match k {
                K::ZExt(a) => l(a),
                K::Const(v) => 128 - v.leading_zeros(),
                K::Concat(a, b) => {
                    if l(a) == 0 {
                        l(b)
                    } else {
                        l(a) + wd(b)
                    }
                }
                K::Bin(B::And, a, b) => l(a).min(l(b)),
                K::Bin(B::Or, a, b) | K::Bin(B::Xor, a, b) => l(a).max(l(b)),
                K::Ite(_, a, b) => l(a).max(l(b)),
                K::Bin(B::Add, a, b) => (l(a).max(l(b)) + 1).min(w),
                K::Bin(B::Mul, a, b) => (l(a) + l(b)).min(w),
                K::Bin(B::UDiv, a, b) => match cv(b) {
                    Some(v) if v > 0 => l(a),
                    _ => w,
                },
                K::Bin(B::LShr, a, b) => match cv(b) {
                    Some(s) => l(a).saturating_sub(s.min(200) as u32),
                    None => l(a),
                },
                K::Bin(B::URem, a, b) => match cv(b) {
                    Some(v) if v > 0 => l(a).min(128 - (v - 1).leading_zeros()),
                    _ => l(a),
                },
                K::Extract(a, lo) => l(a).saturating_sub(lo).min(w),
                _ => w,
            }
        };
        self.n.push(Node { k, w, lb, sup });
        self.map.insert((k, w), e);
        e
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w
    }
    pub fn sup(&self, e: E) -> u128 {
        self.n[e as usize].sup
    }
    pub fn con(&mut self, v: u128, w: u32) -> E {
        self.mk(K::Const(v & mask(w)), w)
    }
    pub fn is_con(&self, e: E) -> Option<u128> {
        match self.n[e as usize].k {
            K::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn new_var(&mut self, name: &str, w: u32) -> E {
        let id = self.vars.len() as u32;
        let e = self.mk(K::Var(id), w);
        self.vars.push(VarInfo { name: name.to_string(), w, e });
        e
    }
    fn k(&self, e: E) -> K {
        self.n[e as usize].k
    }
    /// is a decision tree whose leaves are constants (bounded size)
    fn const_tree(&self, e: E, budget: &mut u32) -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        match self.k(e) {
            K::Const(_) => true,
            K::Ite(_, a, b) => self.const_tree(a, budget) && self.const_tree(b, budget),
            _ => false,
        }
    }
    fn is_tree(&self, e: E) -> bool {
        if let K::Ite(..) = self.k(e) {
            let mut b = 600;
            self.const_tree(e, &mut b)
        } else {
            false
        }
    }
    fn map_tree(&mut self, e: E, f: &mut dyn FnMut(&mut Arena, u128) -> E, memo: &mut FxMap<E, E>) -> E {
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let r = match self.k(e) {
            K::Const(v) => f(self, v),
            K::Ite(c, a, b) => {
                let x = self.map_tree(a, f, memo);
                let y = self.map_tree(b, f, memo);
                self.ite(c, x, y)
            }
            _ => unreachable!(),
        };
        memo.insert(e, r);
        r
    }
    pub fn not(&mut self, e: E) -> E {
        let w = self.w(e);
        let m = self.con(mask(w), w);
        self.bin(B::Xor, e, m)
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(B::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(B::Or, a, b)
    }
    fn low_bits(&self, e: E) -> u32 {
        self.n[e as usize].lb
    }
    pub fn bin(&mut self, op: B, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.is_con(a), self.is_con(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = bin_c(op, w, x, y);
            return self.con(v, w);
        }
        let comm = matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor);
        if comm && ca.is_some() {
            return self.bin(op, b, a);
        }
        let m = mask(w);
        if let Some(y) = cb {
            match op {
                B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr if y == 0 => return a,
                B::And | B::Mul if y == 0 => return b,
                B::And if y == m => return a,
                B::Or if y == m => return b,
                B::Mul | B::UDiv | B::SDiv if y == 1 => return a,
                B::URem if y == 1 => return self.con(0, w),
                B::Sub => {
                    let nb = self.con(y.wrapping_neg(), w);
                    return self.bin(B::Add, a, nb);
                }
                B::Shl | B::LShr if y >= w as u128 => return self.con(0, w),
                _ => {}
            }
            if self.is_tree(a) {
                let mut memo = Default::default();
                return self.map_tree(a, &mut |s, v| s.con(bin_c(op, w, v, y), w), &mut memo);
            }
            match (op, self.k(a)) {
                (B::Add, K::Bin(B::Add, x, c)) | (B::Xor, K::Bin(B::Xor, x, c)) | (B::And, K::Bin(B::And, x, c)) | (B::Or, K::Bin(B::Or, x, c)) => {
                    if let Some(z) = self.is_con(c) {
                        let n = self.con(bin_c(op, w, z, y), w);
                        return self.bin(op, x, n);
                    }
                }
                (B::Xor, K::Ite(c, t, f)) if w == 1 => {
                    let (t, f) = (self.not(t), self.not(f));
                    return self.ite(c, t, f);
                }
                _ => {}
            }
            match op {
                B::Shl => {
                    let s = y as u32;
                    let lo = self.extract(a, 0, w - s);
                    let z = self.con(0, s);
                    return self.concat(lo, z);
                }
                B::LShr => {
                    let s = y as u32;
                    let hi = self.extract(a, s, w - s);
                    return self.zext(hi, w);
                }
                B::And => {
                    let lb = self.low_bits(a).max(1);
                    if lb < w {
                        if y & mask(lb) == mask(lb) {
                            return a;
                        }
                        let x = self.extract(a, 0, lb);
                        let yc = self.con(y, lb);
                        let r = self.bin(B::And, x, yc);
                        return self.zext(r, w);
                    }
                    // contiguous low mask
                    let t = 128 - y.leading_zeros();
                    if y == mask(t) && t < w {
                        let x = self.extract(a, 0, t);
                        return self.zext(x, w);
                    }
                }
                B::Mul if y.is_power_of_two() => {
                    let s = self.con(y.trailing_zeros() as u128, w);
                    return self.bin(B::Shl, a, s);
                }
                B::UDiv if y.is_power_of_two() => {
                    let s = self.con(y.trailing_zeros() as u128, w);
                    return self.bin(B::LShr, a, s);
                }
                B::URem if y.is_power_of_two() => {
                    let s = self.con(y - 1, w);
                    return self.bin(B::And, a, s);
                }
                B::UDiv | B::URem => {
                    let lb = self.low_bits(a).max(1);
                    if lb < w {
                        if y > mask(lb) {
                            return if op == B::UDiv { self.con(0, w) } else { a };
                        }
                        let x = self.extract(a, 0, lb);
                        let yc = self.con(y, lb);
                        let r = self.bin(op, x, yc);
                        return self.zext(r, w);
                    }
                }
                B::Or | B::Xor | B::Add => {
                    // disjoint with a shifted low constant: keep as is
                }
                _ => {}
            }
        }
        if a == b {
            match op {
                B::And | B::Or => return a,
                B::Xor | B::Sub => return self.con(0, w),
                _ => {}
            }
        }
        // (concat hi 0) | (zext lo)  -> concat hi lo
        if matches!(op, B::Or | B::Add | B::Xor) {
            for (x, y) in [(a, b), (b, a)] {
                if let K::Concat(h, l) = self.k(x) {
                    if self.is_con(l) == Some(0) && self.low_bits(y) <= self.w(l) {
                        let lw = self.w(l);
                        let ny = self.extract(y, 0, lw);
                        return self.concat(h, ny);
                    }
                }
            }
        }
        if w == 1 {
            if op == B::And {
                let (na, nb) = (self.not(a), b);
                if na == nb {
                    return self.con(0, 1);
                }
            }
            if op == B::Or {
                let na = self.not(a);
                if na == b {
                    return self.con(1, 1);
                }
            }
        }
        if matches!(op, B::And | B::Or | B::Xor) && w > 1 {
            // both zero-extended from a narrower width
            let lb = self.low_bits(a).max(self.low_bits(b)).max(1);
            if lb < w {
                let x = self.extract(a, 0, lb);
                let y = self.extract(b, 0, lb);
                let r = self.bin(op, x, y);
                return self.zext(r, w);
            }
        }
        let (a, b) = if comm && cb.is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::Bin(op, a, b), w)
    }
    pub fn cmp(&mut self, op: C, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.is_con(a), self.is_con(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.con(cmp_c(op, w, x, y) as u128, 1);
        }
        if a == b {
            return self.con(matches!(op, C::Eq | C::Ule | C::Sle) as u128, 1);
        }
        if op == C::Eq && ca.is_some() {
            return self.cmp(op, b, a);
        }
        if let Some(y) = cb {
            if self.is_tree(a) {
                let mut memo = Default::default();
                return self.map_tree(a, &mut |s, v| s.con(cmp_c(op, w, v, y) as u128, 1), &mut memo);
            }
        }
        if let Some(x) = ca {
            if self.is_tree(b) {
                let mut memo = Default::default();
                return self.map_tree(b, &mut |s, v| s.con(cmp_c(op, w, x, v) as u128, 1), &mut memo);
            }
        }
        if op == C::Eq {
            if let Some(y) = cb {
                if w == 1 {
                    return if y == 1 { a } else { self.not(a) };
                }
                match self.k(a) {
                    K::ZExt(x) => {
                        let xw = self.w(x);
                        if y > mask(xw) {
                            return self.con(0, 1);
                        }
                        let c = self.con(y, xw);
                        return self.cmp(C::Eq, x, c);
                    }
                    K::SExt(x) => {
                        let xw = self.w(x);
                        if (sext(y & mask(xw), xw) as u128) & mask(w) != y {
                            return self.con(0, 1);
                        }
                        let c = self.con(y, xw);
                        return self.cmp(C::Eq, x, c);
                    }
                    K::Bin(B::Add, x, c) => {
                        if let Some(z) = self.is_con(c) {
                            let n = self.con(y.wrapping_sub(z), w);
                            return self.cmp(C::Eq, x, n);
                        }
                    }
                    K::Bin(B::Xor, x, c) => {
                        if let Some(z) = self.is_con(c) {
                            let n = self.con(y ^ z, w);
                            return self.cmp(C::Eq, x, n);
                        }
                        if y == 0 {
                            return self.cmp(C::Eq, x, c);
                        }
                    }
                    K::Bin(B::Or, x, z) if y == 0 => {
                        let p = self.cmp(C::Eq, x, b);
                        let q = self.cmp(C::Eq, z, b);
                        return self.and1(p, q);
                    }
                    K::Concat(h, l) => {
                        let lw = self.w(l);
                        let hw = w - lw;
                        let hc = self.con(y >> lw, hw);
                        let lc = self.con(y, lw);
                        let p = self.cmp(C::Eq, h, hc);
                        let q = self.cmp(C::Eq, l, lc);
                        return self.and1(p, q);
                    }
                    K::Ite(c, t, f) if self.is_con(t).is_some() || self.is_con(f).is_some() => {
                        let p = self.cmp(C::Eq, t, b);
                        let q = self.cmp(C::Eq, f, b);
                        return self.ite(c, p, q);
                    }
                    _ => {}
                }
            }
            if let (K::ZExt(x), K::ZExt(y)) = (self.k(a), self.k(b)) {
                if self.w(x) == self.w(y) {
                    return self.cmp(op, x, y);
                }
            }
            if let (K::Concat(h1, l1), K::Concat(h2, l2)) = (self.k(a), self.k(b)) {
                if self.w(l1) == self.w(l2) {
                    let p = self.cmp(C::Eq, h1, h2);
                    let q = self.cmp(C::Eq, l1, l2);
                    return self.and1(p, q);
                }
            }
            let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
            return self.mk(K::Cmp(op, a, b), 1);
        }
        // normalise signed compares of values with a clear sign bit
        if matches!(op, C::Slt | C::Sle) && w > 1 {
            let (la, lb) = (self.low_bits(a), self.low_bits(b));
            if la < w && lb < w {
                let o = if op == C::Slt { C::Ult } else { C::Ule };
                return self.cmp(o, a, b);
            }
        }
        if matches!(op, C::Ult | C::Ule) {
            if op == C::Ult && cb == Some(0) {
                return self.con(0, 1);
            }
            if op == C::Ule && cb == Some(mask(w)) {
                return self.con(1, 1);
            }
            if op == C::Ule && ca == Some(0) {
                return self.con(1, 1);
            }
            if op == C::Ult && cb == Some(1) {
                let z = self.con(0, w);
                return self.cmp(C::Eq, a, z);
            }
            let (la, lb) = (self.low_bits(a), self.low_bits(b));
            let l = la.max(lb).max(1);
            if l < w {
                if let Some(y) = cb {
                    if la < l {
                        // a < 2^la <= y
                        let _ = y;
                        return self.con(1, 1);
                    }
                }
                if ca.is_some() && lb < l {
                    return self.con(0, 1);
                }
                let x = self.extract(a, 0, l);
                let y = self.extract(b, 0, l);
                return self.cmp(op, x, y);
            }
        }
        self.mk(K::Cmp(op, a, b), 1)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.is_con(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        // strip negation of the condition
        if let K::Bin(B::Xor, x, k) = self.k(c) {
            if self.is_con(k) == Some(1) {
                return self.ite(x, b, a);
            }
        }
        if w == 1 {
            match (self.is_con(a), self.is_con(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and1(n, b);
                }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or1(n, a);
                }
                _ => {}
            }
        }
        if let K::Ite(c2, x, _y) = self.k(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let K::Ite(c2, x, y) = self.k(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
            if x == a {
                let o = self.or1(c, c2);
                return self.ite(o, a, y);
            }
        }
        self.mk(K::Ite(c, a, b), w)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.is_con(h), self.is_con(l)) {
            return self.con((x << wl) | y, w);
        }
        if self.is_con(h) == Some(0) {
            return self.zext(l, w);
        }
        // adjacent extracts
        if let (K::Extract(x, lo1), K::Extract(y, lo2)) = (self.k(h), self.k(l)) {
            if x == y && lo1 == lo2 + wl {
                return self.extract(x, lo2, w);
            }
        }
        if let K::Extract(x, lo1) = self.k(h) {
            if lo1 == wl && x == l {
                return self.extract(x, 0, w);
            }
        }
        if let K::Concat(hh, hl) = self.k(h) {
            // right-assoc so extracts merge
            let nl = self.concat(hl, l);
            if !matches!(self.k(nl), K::Concat(..)) {
                return self.concat(hh, nl);
            }
        }
        if let K::ZExt(x) = self.k(h) {
            let in_ = self.concat(x, l);
            return self.zext(in_, w);
        }
        if let K::SExt(x) = self.k(h) {
            // sext pieces: high part all sign bits of a sign-extended value
            let _ = x;
        }
        self.mk(K::Concat(h, l), w)
    }
    pub fn extract(&mut self, e: E, lo: u32, len: u32) -> E {
        let w = self.w(e);
        debug_assert!(lo + len <= w && len > 0);
        if len == w {
            return e;
        }
        match self.k(e) {
            K::Const(v) => self.con(v >> lo, len),
            K::Extract(x, l2) => self.extract(x, lo + l2, len),
            K::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    self.con(0, len)
                } else if lo + len <= xw {
                    self.extract(x, lo, len)
                } else {
                    let y = self.extract(x, lo, xw - lo);
                    self.zext(y, len)
                }
            }
            K::SExt(x) => {
                let xw = self.w(x);
                if lo + len <= xw {
                    self.extract(x, lo, len)
                } else if lo == 0 {
                    self.sext(x, len)
                } else {
                    self.mk(K::Extract(e, lo), len)
                }
            }
            K::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl {
                    self.extract(h, lo - wl, len)
                } else if lo + len <= wl {
                    self.extract(l, lo, len)
                } else {
                    let a = self.extract(h, 0, lo + len - wl);
                    let b = self.extract(l, lo, wl - lo);
                    self.concat(a, b)
                }
            }
            K::Ite(c, a, b) => {
                if self.is_tree(e) {
                    let mut memo = Default::default();
                    return self.map_tree(e, &mut |s, v| s.con(v >> lo, len), &mut memo);
                }
                let (simple_a, simple_b) = (self.extr_simple(a), self.extr_simple(b));
                if simple_a || simple_b {
                    let x = self.extract(a, lo, len);
                    let y = self.extract(b, lo, len);
                    self.ite(c, x, y)
                } else {
                    self.mk(K::Extract(e, lo), len)
                }
            }
            K::Bin(op @ (B::And | B::Or | B::Xor), a, b) => {
                let x = self.extract(a, lo, len);
                let y = self.extract(b, lo, len);
                self.bin(op, x, y)
            }
            K::Bin(op @ (B::Add | B::Sub | B::Mul), a, b) if lo == 0 => {
                let x = self.extract(a, 0, len);
                let y = self.extract(b, 0, len);
                self.bin(op, x, y)
            }
            _ => self.mk(K::Extract(e, lo), len),
        }
    }
    fn extr_simple(&self, e: E) -> bool {
        matches!(self.k(e), K::Const(_) | K::ZExt(_) | K::Concat(..))
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        debug_assert!(w > ew);
        match self.k(e) {
            K::Const(v) => self.con(v, w),
            K::ZExt(x) => self.zext(x, w),
            K::Ite(..) if self.is_tree(e) => {
                let mut memo = Default::default();
                self.map_tree(e, &mut |s, v| s.con(v, w), &mut memo)
            }
            _ => self.mk(K::ZExt(e), w),
        }
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        match self.k(e) {
            K::Const(v) => self.con(sext(v, ew) as u128, w),
            K::SExt(x) => self.sext(x, w),
            K::ZExt(x) => self.zext(x, w),
            K::Ite(..) if self.is_tree(e) => {
                let mut memo = Default::default();
                self.map_tree(e, &mut |s, v| s.con(sext(v, ew) as u128, w), &mut memo)
            }
            _ => self.mk(K::SExt(e), w),
        }
    }
    pub fn trunc(&mut self, e: E, w: u32) -> E {
        self.extract(e, 0, w)
    }

    // ---- evaluation --------------------------------------------------------------------------
    pub fn next_gen(&mut self) {
        self.gen += 1;
    }
    /// Evaluate under `model`; `next_gen` must be called when the model changed.
    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        if let K::Const(v) = self.n[e as usize].k {
            return v;
        }
        if self.memo.len() < self.n.len() {
            let l = self.n.len() * 2;
            self.memo.resize(l, (0, 0));
        }
        let (g, v) = self.memo[e as usize];
        if g == self.gen {
            return v;
        }
        let nd = self.n[e as usize];
        let r = match nd.k {
            K::Const(v) => v,
            K::Var(v) => *model.get(v as usize).unwrap_or(&0),
            K::Bin(op, a, b) => {
                let x = self.eval(a, model);
                let y = self.eval(b, model);
                bin_c(op, nd.w, x, y)
            }
            K::Cmp(op, a, b) => {
                let x = self.eval(a, model);
                let y = self.eval(b, model);
                cmp_c(op, self.n[a as usize].w, x, y) as u128
            }
            K::Ite(c, a, b) => {
                if self.eval(c, model) == 1 {
                    self.eval(a, model)
                } else {
                    self.eval(b, model)
                }
            }
            K::Concat(h, l) => {
                let x = self.eval(h, model);
                let y = self.eval(l, model);
                (x << self.n[l as usize].w) | y
            }
            K::Extract(a, lo) => (self.eval(a, model) >> lo) & mask(nd.w),
            K::ZExt(a) => self.eval(a, model),
            K::SExt(a) => {
                let x = self.eval(a, model);
                (sext(x, self.n[a as usize].w) as u128) & mask(nd.w)
            }
        };
        self.memo[e as usize] = (self.gen, r);
        r
    }
    /// The single <=8-bit variable this expression depends on, if that is all it depends on.
    pub fn single_byte_var(&self, e: E) -> Option<u32> {
        let s = self.sup(e);
        if s.count_ones() != 1 {
            return None;
        }
        let v = s.trailing_zeros();
        if v >= 127 || self.vars[v as usize].w > 8 {
            return None;
        }
        Some(v)
    }
    /// Truth/value table over the single byte variable of `e` (width <= 64).
    pub fn table(&mut self, e: E) -> Option<Rc<[u64; 256]>> {
        if self.n[e as usize].w > 64 {
            return None;
        }
        if let Some(t) = self.tabs.get(&e) {
            return Some(t.clone());
        }
        let nd = self.n[e as usize];
        let mut t = [0u64; 256];
        match nd.k {
            K::Const(v) => t = [v as u64; 256],
            K::Var(_) => {
                for (i, x) in t.iter_mut().enumerate() {
                    *x = (i as u64) & mask(nd.w) as u64;
                }
            }
            K::Bin(op, a, b) => {
                let (x, y) = (self.table(a)?, self.table(b)?);
                for i in 0..256 {
                    t[i] = bin_c(op, nd.w, x[i] as u128, y[i] as u128) as u64;
                }
            }
            K::Cmp(op, a, b) => {
                let (x, y) = (self.table(a)?, self.table(b)?);
                let w = self.w(a);
                for i in 0..256 {
                    t[i] = cmp_c(op, w, x[i] as u128, y[i] as u128) as u64;
                }
            }
            K::Ite(c, a, b) => {
                let (c, x, y) = (self.table(c)?, self.table(a)?, self.table(b)?);
                for i in 0..256 {
                    t[i] = if c[i] == 1 { x[i] } else { y[i] };
                }
            }
            K::Concat(h, l) => {
                let (x, y) = (self.table(h)?, self.table(l)?);
                let wl = self.w(l);
                for i in 0..256 {
                    t[i] = (x[i] << wl) | y[i];
                }
            }
            K::Extract(a, lo) => {
                let x = self.table(a)?;
                for i in 0..256 {
                    t[i] = (x[i] >> lo) & mask(nd.w) as u64;
                }
            }
            K::ZExt(a) => t = *self.table(a)?,
            K::SExt(a) => {
                let x = self.table(a)?;
                let w = self.w(a);
                for i in 0..256 {
                    t[i] = (sext(x[i] as u128, w) as u128 & mask(nd.w)) as u64;
                }
            }
        }
        let r = Rc::new(t);
        self.tabs.insert(e, r.clone());
        Some(r)
    }
    /// Build `ite` chain over ranges of byte variable `x` from a value table (None = don't care).
    pub fn from_table(&mut self, x: E, w: u32, t: &[Option<u128>]) -> E {
        // compress to runs
        let mut runs: Vec<(u32, u128)> = vec![]; // (last index, value)
        for (i, v) in t.iter().enumerate() {
            match v {
                None => {
                    if let Some(l) = runs.last_mut() {
                        l.0 = i as u32;
                    }
                }
                Some(v) => match runs.last_mut() {
                    Some(l) if l.1 == *v => l.0 = i as u32,
                    _ => runs.push((i as u32, *v)),
                },
            }
        }
        if runs.is_empty() {
            return self.con(0, w);
        }
        let xw = self.w(x);
        let mut r = self.con(runs[runs.len() - 1].1, w);
        for (hi, v) in runs[..runs.len() - 1].iter().rev() {
            let k = self.con(*hi as u128, xw);
            let c = self.cmp(C::Ule, x, k);
            let v = self.con(*v, w);
            r = self.ite(c, v, r);
        }
        r
    }

    // ---- Z3 lowering -------------------------------------------------------------------------
    pub fn to_bool(&mut self, z: &Z3, e: E) -> Ast {
        if let Some(a) = self.z_bool.get(&e) {
            return *a;
        }
        let nd = self.n[e as usize];
        debug_assert_eq!(nd.w, 1);
        let r = unsafe {
            match nd.k {
                K::Const(v) => {
                    if v == 1 {
                        (z.a.mk_true)(z.c)
                    } else {
                        (z.a.mk_false)(z.c)
                    }
                }
                K::Cmp(op, a, b) => {
                    if op == C::Eq && self.w(a) == 1 {
                        let (x, y) = (self.to_bool(z, a), self.to_bool(z, b));
                        (z.a.mk_eq)(z.c, x, y)
                    } else {
                        let (x, y) = (self.to_bv(z, a), self.to_bv(z, b));
                        match op {
                            C::Eq => (z.a.mk_eq)(z.c, x, y),
                            C::Ult => (z.a.mk_bvult)(z.c, x, y),
                            C::Ule => (z.a.mk_bvule)(z.c, x, y),
                            C::Slt => (z.a.mk_bvslt)(z.c, x, y),
                            C::Sle => (z.a.mk_bvsle)(z.c, x, y),
                        }
                    }
                }
                K::Bin(B::And, a, b) => {
                    let v = [self.to_bool(z, a), self.to_bool(z, b)];
                    (z.a.mk_and)(z.c, 2, v.as_ptr())
                }
                K::Bin(B::Or, a, b) => {
                    let v = [self.to_bool(z, a), self.to_bool(z, b)];
                    (z.a.mk_or)(z.c, 2, v.as_ptr())
                }
                K::Bin(B::Xor, a, b) => {
                    if self.is_con(b) == Some(1) {
                        let x = self.to_bool(z, a);
                        (z.a.mk_not)(z.c, x)
                    } else {
                        let (x, y) = (self.to_bool(z, a), self.to_bool(z, b));
                        (z.a.mk_xor)(z.c, x, y)
                    }
                }
                K::Ite(c, a, b) => {
                    let (c, x, y) = (self.to_bool(z, c), self.to_bool(z, a), self.to_bool(z, b));
                    (z.a.mk_ite)(z.c, c, x, y)
                }
                _ => {
                    let x = self.to_bv(z, e);
                    let one = z.numeral(1, 1);
                    (z.a.mk_eq)(z.c, x, one)
                }
            }
        };
        z.keep(r);
        self.z_bool.insert(e, r);
        r
    }
    pub fn to_bv(&mut self, z: &Z3, e: E) -> Ast {
        if let Some(a) = self.z_bv.get(&e) {
            return *a;
        }
        let nd = self.n[e as usize];
        let r = unsafe {
            match nd.k {
                K::Const(v) => z.numeral(v, nd.w),
                K::Var(v) => z.var(&format!("v{}", v), nd.w),
                K::Bin(op, a, b) => {
                    let (x, y) = (self.to_bv(z, a), self.to_bv(z, b));
                    let f = match op {
                        B::Add => z.a.mk_bvadd,
                        B::Sub => z.a.mk_bvsub,
                        B::Mul => z.a.mk_bvmul,
                        B::UDiv => z.a.mk_bvudiv,
                        B::SDiv => z.a.mk_bvsdiv,
                        B::URem => z.a.mk_bvurem,
                        B::SRem => z.a.mk_bvsrem,
                        B::Shl => z.a.mk_bvshl,
                        B::LShr => z.a.mk_bvlshr,
                        B::AShr => z.a.mk_bvashr,
                        B::And => z.a.mk_bvand,
                        B::Or => z.a.mk_bvor,
                        B::Xor => z.a.mk_bvxor,
                    };
                    f(z.c, x, y)
                }
                K::Cmp(..) => {
                    let c = self.to_bool(z, e);
                    let (o, n) = (z.numeral(1, 1), z.numeral(0, 1));
                    (z.a.mk_ite)(z.c, c, o, n)
                }
                K::Ite(c, a, b) => {
                    let c = self.to_bool(z, c);
                    let (x, y) = (self.to_bv(z, a), self.to_bv(z, b));
                    (z.a.mk_ite)(z.c, c, x, y)
                }
                K::Concat(a, b) => {
                    let (x, y) = (self.to_bv(z, a), self.to_bv(z, b));
                    (z.a.mk_concat)(z.c, x, y)
                }
                K::Extract(a, lo) => {
                    let x = self.to_bv(z, a);
                    (z.a.mk_extract)(z.c, lo + nd.w - 1, lo, x)
                }
                K::ZExt(a) => {
                    let aw = self.w(a);
                    let x = self.to_bv(z, a);
                    (z.a.mk_zero_ext)(z.c, nd.w - aw, x)
                }
                K::SExt(a) => {
                    let aw = self.w(a);
                    let x = self.to_bv(z, a);
                    (z.a.mk_sign_ext)(z.c, nd.w - aw, x)
                }
            }
        };
        z.keep(r);
        self.z_bv.insert(e, r);
        r
    }
}
