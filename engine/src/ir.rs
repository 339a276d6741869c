//! Parser for the textual LLVM IR that rustc emits (functions are parsed lazily, on first call).
use crate::expr::FxMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Half,
    Float,
    Double,
    Other,
    Struct(Vec<TyId>, bool),
    Array(u64, TyId),
    Vec(u64, TyId),
}

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(u32),
    W(Rc<u128>),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Op),
    /// inline assembly; true when it is only a comment, which leaves its operand as it is
    Asm(bool),
}

#[derive(Debug)]
pub struct Call {
    pub callee: Callee,
    pub args: Vec<(Op, TyId)>,
    pub d: Option<u32>,
    pub rty: TyId,
    pub next: Option<u32>, // edge (invoke)
}

#[derive(Debug)]
pub enum I {
    Bin { op: BinOp, w: u32, a: Op, b: Op, d: u32 },
    VBin { op: BinOp, w: u32, a: Op, b: Op, d: u32 },
    FBin { op: FOp, ty: TyId, a: Op, b: Op, d: u32 },
    FNeg { ty: TyId, a: Op, d: u32 },
    ICmp { p: Pred, w: u32, a: Op, b: Op, d: u32 },
    VICmp { p: Pred, w: u32, a: Op, b: Op, d: u32 },
    FCmp { p: u8, ty: TyId, a: Op, b: Op, d: u32 },
    Sel { c: Op, vec: bool, a: Op, b: Op, d: u32, ty: TyId },
    Cast { op: CastOp, f: TyId, t: TyId, a: Op, d: u32 },
    Mov { a: Op, d: u32 },
    Load { p: Op, ty: TyId, n: u32, w: u32, d: u32 },  // n = bytes, w = width; n==0 => aggregate
    Store { p: Op, v: Op, ty: TyId, n: u32, w: u32 },
    Gep { base: Op, off: i64, idx: Vec<(Op, i64, u32)>, d: u32 },
    Alloca { off: u32, d: u32 },
    ExtractV { a: Op, path: Vec<u32>, d: u32 },
    InsertV { a: Op, v: Op, path: Vec<u32>, d: u32 },
    ExtractE { a: Op, i: Op, d: u32 },
    InsertE { a: Op, v: Op, i: Op, d: u32 },
    Shuffle { a: Op, b: Op, mask: Vec<u32>, d: u32 },
    Call(Box<Call>),
    AtomicRmw { op: Rmw, p: Op, v: Op, w: u32, n: u32, d: u32 },
    CmpXchg { p: Op, c: Op, v: Op, w: u32, n: u32, d: u32 },
    Nop,
    Ret(Option<Op>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch { v: Op, w: u32, cases: Vec<(u128, u32)>, def: u32 },
    Unreachable,
    Resume,
}

#[derive(Debug, Default)]
pub struct Edge {
    pub pc: u32,
    pub copies: Vec<(u32, Op)>,
    pub target: u32,
}

#[derive(Debug)]
pub struct Func {
    pub idx: u32,
    pub code: Vec<I>,
    pub edges: Vec<Edge>,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub frame_size: u32,
}

pub struct FuncSlot {
    pub name: &'static [u8],
    pub off: Option<usize>, // offset of "define" line
    pub body: Option<Rc<Func>>,
}
pub struct GlobalSlot {
    pub name: &'static [u8],
    pub off: usize, // offset of the definition, just past '='
    pub external: bool,
}

pub const FN_ID: u64 = 0x4000_0000;

pub struct Module {
    pub src: &'static [u8],
    pub types: Vec<Ty>,
    tymap: FxMap<Ty, TyId>,
    pub sizes: Vec<(u64, u64)>,
    pub funcs: Vec<FuncSlot>,
    pub fmap: FxMap<&'static [u8], u32>,
    pub globals: Vec<GlobalSlot>,
    pub gmap: FxMap<&'static [u8], u32>,
    pub aliases: FxMap<&'static [u8], &'static [u8]>,
}

pub type R<T> = Result<T, String>;

fn find(h: &[u8], from: usize, b: u8) -> usize {
    match h[from..].iter().position(|c| *c == b) {
        Some(i) => from + i,
        None => h.len(),
    }
}

pub struct Cur {
    pub s: &'static [u8],
    pub i: usize,
}
impl Cur {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t') {
            self.i += 1;
        }
        if self.i < self.s.len() && self.s[self.i] == b';' {
            self.i = find(self.s, self.i, b'\n');
            self.ws();
        }
    }
    /// skip blanks on this line only
    fn sp(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn ctx(&self) -> String {
        let e = find(self.s, self.i, b'\n').min(self.i + 160);
        let b = self.s[..self.i].iter().rposition(|c| *c == b'\n').map(|x| x + 1).unwrap_or(0);
        format!("near `{}` in `{}`", String::from_utf8_lossy(&self.s[self.i..e]), String::from_utf8_lossy(&self.s[b..find(self.s, b, b'\n').min(b + 300)]))
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' {}", c as char, self.ctx()))
        }
    }
    fn word(&mut self) -> &'static [u8] {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'$')) {
            self.i += 1;
        }
        &self.s[st..self.i]
    }
    fn peek_word(&mut self) -> &'static [u8] {
        self.ws();
        let st = self.i;
        let w = self.word();
        self.i = st;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let st = self.i;
        if self.word() == w.as_bytes() {
            true
        } else {
            self.i = st;
            false
        }
    }
    /// name after % or @
    fn name(&mut self) -> &'static [u8] {
        if self.peek() == b'"' {
            let st = self.i + 1;
            let e = find(self.s, st, b'"');
            self.i = e + 1;
            &self.s[st..e]
        } else {
            let st = self.i;
            while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'$')) {
                self.i += 1;
            }
            &self.s[st..self.i]
        }
    }
    fn int(&mut self) -> R<u64> {
        let w = self.word();
        std::str::from_utf8(w).unwrap().parse().map_err(|_| format!("int {:?} {}", String::from_utf8_lossy(w), self.ctx()))
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.peek() {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i = find(self.s, self.i + 1, b'"');
                }
                0 => return,
                _ => {}
            }
            self.i += 1;
        }
    }
    fn eol(&mut self) {
        self.i = find(self.s, self.i, b'\n');
    }
}

fn parse_u128_signed(t: &[u8], w: u32) -> R<u128> {
    let s = std::str::from_utf8(t).unwrap();
    let v = if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().map_err(|_| format!("bad int {}", s))?).wrapping_neg()
    } else {
        s.parse::<u128>().map_err(|_| format!("bad int {}", s))?
    };
    Ok(v & crate::expr::mask(w))
}

pub fn vint(v: u128, w: u32) -> V {
    if w <= 64 {
        V::C((v & crate::expr::mask(w)) as u64)
    } else {
        V::W(Rc::new(v & crate::expr::mask(w)))
    }
}

impl Module {
    pub fn load(src: &'static [u8]) -> R<Module> {
        let mut m = Module {
            src,
            types: vec![],
            tymap: Default::default(),
            sizes: vec![],
            funcs: vec![],
            fmap: Default::default(),
            globals: vec![],
            gmap: Default::default(),
            aliases: Default::default(),
        };
        let mut i = 0;
        while i < src.len() {
            let e = find(src, i, b'\n');
            let l = &src[i..e];
            if l.starts_with(b"@") {
                let mut c = Cur { s: src, i: i + 1 };
                let n = c.name();
                c.expect(b'=')?;
                let off = c.i;
                // alias?
                let mut c2 = Cur { s: src, i: off };
                let mut alias = false;
                let mut external = false;
                loop {
                    let st = c2.i;
                    let w = c2.word();
                    match w {
                        b"alias" => {
                            alias = true;
                            break;
                        }
                        b"global" | b"constant" => break,
                        b"external" | b"extern_weak" => external = true,
                        b"" => {
                            c2.i = st;
                            return Err(format!("global {}", c2.ctx()));
                        }
                        _ => {
                            if c2.peek() == b'(' {
                                c2.skip_parens();
                            }
                        }
                    }
                }
                if alias {
                    let at = l.iter().rposition(|c| *c == b'@').unwrap();
                    let mut c3 = Cur { s: src, i: i + at + 1 };
                    let t = c3.name();
                    m.aliases.insert(n, t);
                } else {
                    let id = m.globals.len() as u32;
                    m.gmap.insert(n, id);
                    m.globals.push(GlobalSlot { name: n, off, external });
                }
            } else if l.starts_with(b"define") || l.starts_with(b"declare") {
                let at = find(src, i, b'@');
                let mut c = Cur { s: src, i: at + 1 };
                let n = c.name();
                let id = m.funcs.len() as u32;
                let def = l.starts_with(b"define");
                if let Some(o) = m.fmap.get(n) {
                    if def {
                        m.funcs[*o as usize].off = Some(i);
                    }
                } else {
                    m.fmap.insert(n, id);
                    m.funcs.push(FuncSlot { name: n, off: if def { Some(i) } else { None }, body: None });
                }
                if def {
                    // skip the body
                    let mut j = e;
                    loop {
                        let k = find(src, j + 1, b'\n');
                        if src.get(j + 1) == Some(&b'}') {
                            i = k;
                            break;
                        }
                        j = k;
                        if j >= src.len() {
                            return Err("unterminated function".into());
                        }
                    }
                    i += 1;
                    continue;
                }
            } else if l.starts_with(b"!") {
                break;
            }
            i = e + 1;
        }
        Ok(m)
    }

    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let sz = self.compute_size(&t);
        let i = self.types.len() as TyId;
        self.types.push(t.clone());
        self.sizes.push(sz);
        self.tymap.insert(t, i);
        i
    }
    fn compute_size(&self, t: &Ty) -> (u64, u64) {
        match t {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let a = match *w {
                    0..=8 => 1,
                    9..=16 => 2,
                    17..=32 => 4,
                    33..=64 => 8,
                    _ => 16,
                };
                let b = ((*w + 7) / 8) as u64;
                ((b + a - 1) / a * a, a)
            }
            Ty::Ptr | Ty::Double => (8, 8),
            Ty::Float => (4, 4),
            Ty::Half => (2, 2),
            Ty::Array(n, e) => {
                let (s, a) = self.sizes[*e as usize];
                (s * n, a)
            }
            Ty::Vec(n, e) => {
                let s = match self.types[*e as usize] {
                    Ty::Int(w) => (w as u64 * n + 7) / 8,
                    _ => self.sizes[*e as usize].0 * n,
                };
                let p = s.next_power_of_two().max(1);
                (p, p)
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for x in f {
                    let (s, a) = self.sizes[*x as usize];
                    if !packed {
                        o = (o + a - 1) / a * a;
                        al = al.max(a);
                    }
                    o += s;
                }
                ((o + al - 1) / al * al, al)
            }
        }
    }
    pub fn size(&self, t: TyId) -> u64 {
        self.sizes[t as usize].0
    }
    pub fn field_off(&self, t: TyId, i: usize) -> (u64, TyId) {
        match &self.types[t as usize] {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, x) in f.iter().enumerate() {
                    let (s, a) = self.sizes[*x as usize];
                    if !packed {
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, *x);
                    }
                    o += s;
                }
                panic!("field")
            }
            Ty::Array(_, e) | Ty::Vec(_, e) => (self.size(*e) * i as u64, *e),
            _ => panic!("field_off"),
        }
    }
    /// scalar width of a type (0 if aggregate/void)
    pub fn width(&self, t: TyId) -> u32 {
        match &self.types[t as usize] {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            Ty::Half => 16,
            _ => 0,
        }
    }
    pub fn elem(&self, t: TyId) -> Option<(u64, TyId)> {
        match &self.types[t as usize] {
            Ty::Vec(n, e) => Some((*n, *e)),
            _ => None,
        }
    }
    pub fn mem(&self, t: TyId) -> (u32, u32) {
        let w = self.width(t);
        if w == 0 || w > 128 {
            (0, 0)
        } else {
            ((w + 7) / 8, w)
        }
    }

    pub fn parse_type(&mut self, c: &mut Cur) -> R<TyId> {
        c.ws();
        let ch = c.peek();
        let t = match ch {
            b'{' => {
                c.i += 1;
                let f = self.parse_ty_list(c, b'}')?;
                self.ty(Ty::Struct(f, false))
            }
            b'<' => {
                c.i += 1;
                c.ws();
                if c.peek() == b'{' {
                    c.i += 1;
                    let f = self.parse_ty_list(c, b'}')?;
                    c.expect(b'>')?;
                    self.ty(Ty::Struct(f, true))
                } else {
                    let n = c.int()?;
                    c.eat_word("x");
                    let e = self.parse_type(c)?;
                    c.expect(b'>')?;
                    self.ty(Ty::Vec(n, e))
                }
            }
            b'[' => {
                c.i += 1;
                let n = c.int()?;
                c.eat_word("x");
                let e = self.parse_type(c)?;
                c.expect(b']')?;
                self.ty(Ty::Array(n, e))
            }
            _ => {
                let w = c.word();
                match w {
                    b"void" => self.ty(Ty::Void),
                    b"ptr" => {
                        if c.s[c.i..].starts_with(b" addrspace(") {
                            c.i += 10;
                            c.skip_parens();
                        }
                        self.ty(Ty::Ptr)
                    }
                    b"float" => self.ty(Ty::Float),
                    b"double" => self.ty(Ty::Double),
                    b"half" => self.ty(Ty::Half),
                    b"metadata" | b"token" | b"label" | b"fp128" | b"x86_fp80" | b"bfloat" => self.ty(Ty::Other),
                    _ if w.first() == Some(&b'i') => {
                        let n = std::str::from_utf8(&w[1..]).unwrap().parse().map_err(|_| format!("type {}", c.ctx()))?;
                        self.ty(Ty::Int(n))
                    }
                    _ => return Err(format!("type? {}", c.ctx())),
                }
            }
        };
        Ok(t)
    }
    fn parse_ty_list(&mut self, c: &mut Cur, end: u8) -> R<Vec<TyId>> {
        let mut v = vec![];
        if c.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.parse_type(c)?);
            if c.eat(end) {
                return Ok(v);
            }
            c.expect(b',')?;
        }
    }

    pub fn sym_addr(&self, n: &[u8]) -> R<u64> {
        let mut n: &[u8] = n;
        if let Some(t) = self.aliases.get(n) {
            n = t;
        }
        if let Some(g) = self.gmap.get(n) {
            return Ok((*g as u64 + 1) << 32);
        }
        if let Some(f) = self.fmap.get(n) {
            return Ok((FN_ID + *f as u64) << 32);
        }
        Err(format!("unknown symbol {}", String::from_utf8_lossy(n)))
    }

    pub fn zero(&self, t: TyId) -> V {
        match &self.types[t as usize] {
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|x| self.zero(*x)).collect())),
            Ty::Array(n, e) | Ty::Vec(n, e) => {
                let z = self.zero(*e);
                V::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Int(w) if *w > 64 => V::W(Rc::new(0)),
            _ => V::C(0),
        }
    }

    fn parse_float_bits(&self, w: &[u8], t: TyId) -> R<u64> {
        let s = std::str::from_utf8(w).unwrap();
        if let Some(h) = s.strip_prefix("f0x") {
            return u64::from_str_radix(h, 16).map_err(|e| e.to_string());
        }
        let d = if let Some(h) = s.strip_prefix("0xH") {
            return u64::from_str_radix(h, 16).map_err(|e| e.to_string());
        } else if let Some(h) = s.strip_prefix("0x") {
            f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| format!("{} {}", s, e))?)
        } else if s == "+inf" {
            f64::INFINITY
        } else if s == "-inf" {
            f64::NEG_INFINITY
        } else if s == "+qnan" {
            f64::from_bits(0x7ff8 << 48)
        } else if s == "-qnan" {
            f64::from_bits(0xfff8 << 48)
        } else {
            s.parse::<f64>().map_err(|e| format!("{} {}", s, e))?
        };
        Ok(match self.types[t as usize] {
            Ty::Float => (d as f32).to_bits() as u64,
            Ty::Double => d.to_bits(),
            _ => 0,
        })
    }

    /// Parse a value of type t. `regs` resolves local names (None in constant context).
    fn parse_val(&mut self, c: &mut Cur, t: TyId, regs: &mut Option<&mut Locals>) -> R<Op> {
        c.ws();
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            match regs {
                Some(l) => return Ok(Op::R(l.reg(n))),
                None => return Err(format!("local in constant {}", c.ctx())),
            }
        }
        Ok(Op::K(self.parse_const(c, t)?))
    }

    fn parse_const(&mut self, c: &mut Cur, t: TyId) -> R<V> {
        c.ws();
        match c.peek() {
            b'@' => {
                c.i += 1;
                let n = c.name();
                Ok(V::C(self.sym_addr(n)?))
            }
            b'c' if c.s[c.i + 1] == b'"' => {
                c.i += 1;
                let b = Self::parse_cstr(c);
                Ok(V::A(Rc::new(b.into_iter().map(|x| V::C(x as u64)).collect())))
            }
            b'{' => {
                c.i += 1;
                self.const_list(c, b'}')
            }
            b'[' => {
                c.i += 1;
                self.const_list(c, b']')
            }
            b'<' => {
                c.i += 1;
                c.ws();
                if c.peek() == b'{' {
                    c.i += 1;
                    let r = self.const_list(c, b'}')?;
                    c.expect(b'>')?;
                    Ok(r)
                } else {
                    self.const_list(c, b'>')
                }
            }
            b'+' => {
                // +inf
                c.i += 1;
                let w = c.word();
                let mut s = b"+".to_vec();
                s.extend_from_slice(w);
                Ok(V::C(self.parse_float_bits(&s, t)?))
            }
            _ => {
                let st = c.i;
                let mut w = c.word();
                // floats like 1.000000e+00
                if c.peek() == b'+' && w.last() == Some(&b'e') {
                    c.i += 1;
                    c.word();
                    w = &c.s[st..c.i];
                }
                match w {
                    b"true" => Ok(V::C(1)),
                    b"false" => Ok(V::C(0)),
                    b"null" => Ok(V::C(0)),
                    b"undef" | b"poison" | b"zeroinitializer" | b"none" => Ok(self.zero(t)),
                    b"splat" => {
                        c.expect(b'(')?;
                        let et = self.parse_type(c)?;
                        let v = self.parse_const(c, et)?;
                        c.expect(b')')?;
                        let n = match self.types[t as usize] {
                            Ty::Vec(n, _) => n,
                            _ => return Err(format!("splat {}", c.ctx())),
                        };
                        Ok(V::A(Rc::new(vec![v; n as usize])))
                    }
                    b"getelementptr" => {
                        loop {
                            c.ws();
                            if c.peek() == b'(' {
                                break;
                            }
                            let w = c.word();
                            if w == b"inrange" {
                                c.ws();
                                c.skip_parens();
                            }
                            if w.is_empty() {
                                return Err(format!("cgep {}", c.ctx()));
                            }
                        }
                        c.expect(b'(')?;
                        let et = self.parse_type(c)?;
                        c.expect(b',')?;
                        let pt = self.parse_type(c)?;
                        let base = match self.parse_const(c, pt)? {
                            V::C(x) => x,
                            _ => return Err("cgep base".into()),
                        };
                        let mut off: i64 = 0;
                        let mut cur = et;
                        let mut first = true;
                        while c.eat(b',') {
                            let it = self.parse_type(c)?;
                            let iw = self.width(it);
                            let iv = match self.parse_const(c, it)? {
                                V::C(x) => crate::expr::sext(x as u128, iw) as i64,
                                _ => return Err("cgep idx".into()),
                            };
                            if first {
                                off += iv * self.size(cur) as i64;
                                first = false;
                            } else {
                                let (o, n) = if let Ty::Struct(..) = self.types[cur as usize] {
                                    let (o, n) = self.field_off(cur, iv as usize);
                                    (o as i64, n)
                                } else {
                                    let (s, n) = self.field_off(cur, 1);
                                    (s as i64 * iv, n)
                                };
                                off += o;
                                cur = n;
                            }
                        }
                        c.expect(b')')?;
                        Ok(V::C(base.wrapping_add(off as u64)))
                    }
                    b"ptrtoint" | b"inttoptr" | b"bitcast" | b"trunc" | b"addrspacecast" => {
                        c.expect(b'(')?;
                        let ft = self.parse_type(c)?;
                        let v = self.parse_const(c, ft)?;
                        c.eat_word("to");
                        let tt = self.parse_type(c)?;
                        c.expect(b')')?;
                        match v {
                            V::C(x) => Ok(vint(x as u128, self.width(tt).max(1))),
                            _ => Ok(v),
                        }
                    }
                    b"add" | b"sub" | b"xor" => {
                        while c.peek() != b'(' {
                            c.i += 1;
                        }
                        c.expect(b'(')?;
                        let at = self.parse_type(c)?;
                        let a = self.parse_const(c, at)?;
                        c.expect(b',')?;
                        let bt = self.parse_type(c)?;
                        let b = self.parse_const(c, bt)?;
                        c.expect(b')')?;
                        let (x, y) = match (a, b) {
                            (V::C(x), V::C(y)) => (x, y),
                            _ => return Err("const arith".into()),
                        };
                        let r = match w {
                            b"add" => x.wrapping_add(y),
                            b"sub" => x.wrapping_sub(y),
                            _ => x ^ y,
                        };
                        Ok(vint(r as u128, self.width(at)))
                    }
                    b"" => Err(format!("const? {}", c.ctx())),
                    _ => match self.types[t as usize].clone() {
                        Ty::Int(iw) => {
                            if w.starts_with(b"u0x") || w.starts_with(b"s0x") {
                                let v = u128::from_str_radix(std::str::from_utf8(&w[3..]).unwrap(), 16).map_err(|e| e.to_string())?;
                                return Ok(vint(v, iw));
                            }
                            if iw > 128 {
                                return Err(format!("wide int {}", c.ctx()));
                            }
                            Ok(vint(parse_u128_signed(w, iw)?, iw))
                        }
                        Ty::Float | Ty::Double | Ty::Half => Ok(V::C(self.parse_float_bits(w, t)?)),
                        _ => Err(format!("const {} {}", String::from_utf8_lossy(w), c.ctx())),
                    },
                }
            }
        }
    }
    fn const_list(&mut self, c: &mut Cur, end: u8) -> R<V> {
        let mut v = vec![];
        if c.eat(end) {
            return Ok(V::A(Rc::new(v)));
        }
        loop {
            let t = self.parse_type(c)?;
            v.push(self.parse_const(c, t)?);
            if c.eat(end) {
                return Ok(V::A(Rc::new(v)));
            }
            c.expect(b',')?;
        }
    }
    fn parse_cstr(c: &mut Cur) -> Vec<u8> {
        // at '"'
        c.i += 1;
        let mut o = vec![];
        loop {
            match c.peek() {
                b'"' => {
                    c.i += 1;
                    return o;
                }
                b'\\' => {
                    if c.s[c.i + 1] == b'\\' {
                        o.push(b'\\');
                        c.i += 2;
                    } else {
                        let h = std::str::from_utf8(&c.s[c.i + 1..c.i + 3]).unwrap();
                        o.push(u8::from_str_radix(h, 16).unwrap());
                        c.i += 3;
                    }
                }
                x => {
                    o.push(x);
                    c.i += 1;
                }
            }
        }
    }

    /// Initialise a global: returns (bytes, constant)
    pub fn init_global(&mut self, g: u32) -> R<(Vec<u8>, bool)> {
        let off = self.globals[g as usize].off;
        let mut c = Cur { s: self.src, i: off };
        let ro;
        loop {
            let w = c.word();
            match w {
                b"global" => {
                    ro = false;
                    break;
                }
                b"constant" => {
                    ro = true;
                    break;
                }
                b"" => return Err(format!("global {}", c.ctx())),
                _ => {
                    if c.peek() == b'(' {
                        c.skip_parens();
                    }
                }
            }
        }
        let t = self.parse_type(&mut c)?;
        let n = self.size(t) as usize;
        let mut buf = vec![0u8; n];
        if !self.globals[g as usize].external {
            self.const_into(&mut c, t, &mut buf, 0)?;
        }
        Ok((buf, ro))
    }
    fn const_into(&mut self, c: &mut Cur, t: TyId, buf: &mut [u8], off: usize) -> R<()> {
        c.ws();
        if c.peek() == b'c' && c.s[c.i + 1] == b'"' {
            c.i += 1;
            let b = Self::parse_cstr(c);
            buf[off..off + b.len()].copy_from_slice(&b);
            return Ok(());
        }
        if c.peek_word() == b"zeroinitializer" || c.peek_word() == b"undef" {
            c.word();
            return Ok(());
        }
        let v = self.parse_const(c, t)?;
        self.write_const(&v, t, buf, off);
        Ok(())
    }
    fn write_const(&self, v: &V, t: TyId, buf: &mut [u8], off: usize) {
        match v {
            V::C(x) => {
                let (n, _) = self.mem(t);
                let n = n as usize;
                buf[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            V::W(x) => {
                let (n, _) = self.mem(t);
                let n = n as usize;
                buf[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            V::A(xs) => {
                for (i, x) in xs.iter().enumerate() {
                    let (o, et) = self.field_off(t, i);
                    self.write_const(x, et, buf, off + o as usize);
                }
            }
            V::S(_) => unreachable!(),
        }
    }

    fn skip_attrs(&mut self, c: &mut Cur) {
        loop {
            c.ws();
            let st = c.i;
            let w = c.word();
            match w {
                b"noalias" | b"noundef" | b"nonnull" | b"readonly" | b"writeonly" | b"readnone" | b"nocapture" | b"zeroext" | b"signext" | b"inreg" | b"returned" | b"immarg" | b"swiftself"
                | b"nofree" | b"nest" | b"allocptr" | b"dead_on_unwind" | b"writable" | b"noext" | b"dead_on_return" => {
                    if c.peek() == b'(' {
                        c.skip_parens();
                    }
                }
                b"align" => {
                    c.ws();
                    if c.peek() == b'(' {
                        c.skip_parens();
                    } else {
                        c.word();
                    }
                }
                b"dereferenceable" | b"dereferenceable_or_null" | b"sret" | b"byval" | b"captures" | b"range" | b"initializes" | b"elementtype" | b"byref" | b"allocalign" | b"nofpclass"
                | b"alignstack" | b"preallocated" | b"inalloca" => {
                    if c.peek() == b'(' {
                        c.skip_parens();
                    }
                }
                b"fastcc" | b"coldcc" | b"ccc" | b"preserve_mostcc" | b"preserve_allcc" | b"tailcc" | b"x86_64_sysvcc" | b"preserve_nonecc" => {}
                b"cc" => {
                    c.word();
                }
                _ => {
                    c.i = st;
                    return;
                }
            }
        }
    }

    pub fn parse_func(&mut self, idx: u32) -> R<Rc<Func>> {
        let off = self.funcs[idx as usize].off.ok_or_else(|| "declared only".to_string())?;
        let src = self.src;
        let at = find(src, off, b'@');
        let mut c = Cur { s: src, i: at + 1 };
        c.name();
        c.expect(b'(')?;
        let mut loc = Locals { map: Default::default(), n: 0 };
        let mut params = vec![];
        let mut unnamed = 0u32;
        if !c.eat(b')') {
            loop {
                c.ws();
                if c.s[c.i..].starts_with(b"...") {
                    c.i += 3;
                    c.expect(b')')?;
                    break;
                }
                self.parse_type(&mut c)?;
                self.skip_attrs(&mut c);
                c.ws();
                if c.peek() == b'%' {
                    c.i += 1;
                    let n = c.name();
                    if n.iter().all(|x| x.is_ascii_digit()) {
                        unnamed = std::str::from_utf8(n).unwrap().parse::<u32>().unwrap() + 1;
                    }
                    params.push(loc.reg(n));
                } else {
                    let n: &'static [u8] = Box::leak(format!("{}", unnamed).into_bytes().into_boxed_slice());
                    unnamed += 1;
                    params.push(loc.reg(n));
                }
                if c.eat(b')') {
                    break;
                }
                c.expect(b',')?;
            }
        }
        c.eol(); // past '{'
        c.i += 1;
        let entry: &'static [u8] = Box::leak(format!("{}", unnamed).into_bytes().into_boxed_slice());

        let mut b = FB { code: vec![], edges: vec![], blocks: Default::default(), labels: vec![], starts: vec![], phis: vec![], edge_info: vec![], cur: 0, frame: 0 };
        let mut first = true;
        loop {
            // start of a line
            if c.peek() == b'}' {
                break;
            }
            if c.peek() == b'\n' {
                c.i += 1;
                continue;
            }
            if c.peek() != b' ' {
                // label
                let n = c.name();
                if c.peek() != b':' {
                    return Err(format!("label? {}", c.ctx()));
                }
                let id = b.block(n);
                b.cur = id;
                b.starts[id as usize] = b.code.len() as u32;
                first = false;
                c.eol();
                c.i += 1;
                continue;
            }
            if first {
                first = false;
                let id = b.block(entry);
                b.cur = id;
                b.starts[id as usize] = 0;
            }
            c.ws();
            if c.peek() == b'}' {
                break;
            }
            self.parse_inst(&mut c, &mut loc, &mut b)?;
            c.eol();
            c.i += 1;
        }
        // finish edges
        let FB { code, mut edges, starts, phis, edge_info, frame, .. } = b;
        for (k, e) in edges.iter_mut().enumerate() {
            let (from, to) = edge_info[k];
            e.pc = starts[to as usize];
            e.target = to;
            if e.pc == u32::MAX {
                return Err("edge to missing block".into());
            }
            for (d, inc) in &phis[to as usize] {
                let v = inc.iter().find(|(_, l)| *l == from).ok_or("phi without incoming")?;
                e.copies.push((*d, v.0.clone()));
            }
        }
        let f = Rc::new(Func { idx, code, edges, nregs: loc.n, params, frame_size: frame });
        self.funcs[idx as usize].body = Some(f.clone());
        Ok(f)
    }

    fn parse_inst(&mut self, c: &mut Cur, loc: &mut Locals, b: &mut FB) -> R<()> {
        let mut d = u32::MAX;
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            d = loc.reg(n);
            c.expect(b'=')?;
        }
        let mut op = c.word();
        while matches!(op, b"tail" | b"musttail" | b"notail") {
            op = c.word();
        }
        macro_rules! val {
            ($t:expr) => {
                self.parse_val(c, $t, &mut Some(&mut *loc))?
            };
        }
        macro_rules! flags {
            () => {
                loop {
                    let st = c.i;
                    let w = c.word();
                    match w {
                        b"nuw" | b"nsw" | b"exact" | b"disjoint" | b"nneg" | b"inbounds" | b"nusw" | b"samesign" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc"
                        | b"fast" | b"volatile" | b"atomic" | b"weak" | b"inrange" => {
                            if w == b"inrange" {
                                c.ws();
                                c.skip_parens();
                            }
                        }
                        _ => {
                            c.i = st;
                            break;
                        }
                    }
                }
            };
        }
        macro_rules! label {
            () => {{
                if !c.eat_word("label") {
                    return Err(format!("label {}", c.ctx()));
                }
                c.expect(b'%')?;
                let n = c.name();
                let t = b.block(n);
                b.edge(t)
            }};
        }
        match op {
            b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"shl" | b"lshr" | b"ashr" | b"and" | b"or" | b"xor" => {
                flags!();
                let t = self.parse_type(c)?;
                let a = val!(t);
                c.expect(b',')?;
                let y = val!(t);
                let o = match op {
                    b"add" => BinOp::Add,
                    b"sub" => BinOp::Sub,
                    b"mul" => BinOp::Mul,
                    b"udiv" => BinOp::UDiv,
                    b"sdiv" => BinOp::SDiv,
                    b"urem" => BinOp::URem,
                    b"srem" => BinOp::SRem,
                    b"shl" => BinOp::Shl,
                    b"lshr" => BinOp::LShr,
                    b"ashr" => BinOp::AShr,
                    b"and" => BinOp::And,
                    b"or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                if let Some((_, e)) = self.elem(t) {
                    b.code.push(I::VBin { op: o, w: self.width(e), a, b: y, d });
                } else {
                    b.code.push(I::Bin { op: o, w: self.width(t), a, b: y, d });
                }
            }
            b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
                flags!();
                let t = self.parse_type(c)?;
                let a = val!(t);
                c.expect(b',')?;
                let y = val!(t);
                let o = match op {
                    b"fadd" => FOp::Add,
                    b"fsub" => FOp::Sub,
                    b"fmul" => FOp::Mul,
                    b"fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                b.code.push(I::FBin { op: o, ty: t, a, b: y, d });
            }
            b"fneg" => {
                flags!();
                let t = self.parse_type(c)?;
                let a = val!(t);
                b.code.push(I::FNeg { ty: t, a, d });
            }
            b"icmp" => {
                flags!();
                let p = match c.word() {
                    b"eq" => Pred::Eq,
                    b"ne" => Pred::Ne,
                    b"ugt" => Pred::Ugt,
                    b"uge" => Pred::Uge,
                    b"ult" => Pred::Ult,
                    b"ule" => Pred::Ule,
                    b"sgt" => Pred::Sgt,
                    b"sge" => Pred::Sge,
                    b"slt" => Pred::Slt,
                    b"sle" => Pred::Sle,
                    _ => return Err(format!("icmp {}", c.ctx())),
                };
                let t = self.parse_type(c)?;
                let a = val!(t);
                c.expect(b',')?;
                let y = val!(t);
                if let Some((_, e)) = self.elem(t) {
                    b.code.push(I::VICmp { p, w: self.width(e), a, b: y, d });
                } else {
                    b.code.push(I::ICmp { p, w: self.width(t), a, b: y, d });
                }
            }
            b"fcmp" => {
                flags!();
                let p = match c.word() {
                    b"false" => 0,
                    b"oeq" => 1,
                    b"ogt" => 2,
                    b"oge" => 3,
                    b"olt" => 4,
                    b"ole" => 5,
                    b"one" => 6,
                    b"ord" => 7,
                    b"uno" => 8,
                    b"ueq" => 9,
                    b"ugt" => 10,
                    b"uge" => 11,
                    b"ult" => 12,
                    b"ule" => 13,
                    b"une" => 14,
                    _ => 15,
                };
                let t = self.parse_type(c)?;
                let a = val!(t);
                c.expect(b',')?;
                let y = val!(t);
                b.code.push(I::FCmp { p, ty: t, a, b: y, d });
            }
            b"select" => {
                flags!();
                let ct = self.parse_type(c)?;
                let cv = val!(ct);
                c.expect(b',')?;
                let t = self.parse_type(c)?;
                let a = val!(t);
                c.expect(b',')?;
                let t2 = self.parse_type(c)?;
                let y = val!(t2);
                b.code.push(I::Sel { c: cv, vec: self.elem(ct).is_some(), a, b: y, d, ty: t });
            }
            b"trunc" | b"zext" | b"sext" | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"fptrunc" | b"fpext" | b"fptoui" | b"fptosi" | b"uitofp" | b"sitofp" | b"ptrtoaddr" | b"addrspacecast" => {
                flags!();
                let f = self.parse_type(c)?;
                let a = val!(f);
                if !c.eat_word("to") {
                    return Err(format!("cast {}", c.ctx()));
                }
                let t = self.parse_type(c)?;
                let o = match op {
                    b"trunc" => CastOp::Trunc,
                    b"zext" => CastOp::ZExt,
                    b"sext" => CastOp::SExt,
                    b"ptrtoint" | b"ptrtoaddr" => CastOp::PtrToInt,
                    b"inttoptr" => CastOp::IntToPtr,
                    b"bitcast" | b"addrspacecast" => CastOp::BitCast,
                    b"fptrunc" => CastOp::FpTrunc,
                    b"fpext" => CastOp::FpExt,
                    b"fptoui" => CastOp::FpToUi,
                    b"fptosi" => CastOp::FpToSi,
                    b"uitofp" => CastOp::UiToFp,
                    _ => CastOp::SiToFp,
                };
                b.code.push(I::Cast { op: o, f, t, a, d });
            }
            b"freeze" => {
                let t = self.parse_type(c)?;
                let a = val!(t);
                b.code.push(I::Mov { a, d });
            }
            b"load" => {
                flags!();
                let t = self.parse_type(c)?;
                c.expect(b',')?;
                let pt = self.parse_type(c)?;
                let p = val!(pt);
                let (n, w) = self.mem(t);
                b.code.push(I::Load { p, ty: t, n, w, d });
            }
            b"store" => {
                flags!();
                let t = self.parse_type(c)?;
                let v = val!(t);
                c.expect(b',')?;
                let pt = self.parse_type(c)?;
                let p = val!(pt);
                let (n, w) = self.mem(t);
                b.code.push(I::Store { p, v, ty: t, n, w });
            }
            b"getelementptr" => {
                flags!();
                let et = self.parse_type(c)?;
                c.expect(b',')?;
                let pt = self.parse_type(c)?;
                if self.elem(pt).is_some() {
                    return Err(format!("vector gep {}", c.ctx()));
                }
                let base = val!(pt);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                loop {
                    c.sp();
                    if c.peek() != b',' {
                        break;
                    }
                    // ", !meta"?
                    let st = c.i;
                    c.i += 1;
                    c.ws();
                    if c.peek() == b'!' {
                        c.i = st;
                        break;
                    }
                    let it = self.parse_type(c)?;
                    let v = val!(it);
                    let iw = self.width(it);
                    let (scale, next, is_struct) = if first {
                        (self.size(cur) as i64, cur, false)
                    } else if let Ty::Struct(..) = self.types[cur as usize] {
                        (0, cur, true)
                    } else {
                        let (s, n) = self.field_off(cur, 1);
                        (s as i64, n, false)
                    };
                    first = false;
                    if is_struct {
                        if let Op::K(V::C(x)) = v {
                            let (o, n) = self.field_off(cur, x as usize);
                            off += o as i64;
                            cur = n;
                        } else {
                            return Err("struct gep".into());
                        }
                    } else {
                        match v {
                            Op::K(V::C(x)) => off = off.wrapping_add((crate::expr::sext(x as u128, iw) as i64).wrapping_mul(scale)),
                            v => idx.push((v, scale, iw)),
                        }
                        cur = next;
                    }
                }
                b.code.push(I::Gep { base, off, idx, d });
            }
            b"alloca" => {
                let t = self.parse_type(c)?;
                let mut n = self.size(t);
                let mut al = 16u64;
                loop {
                    c.sp();
                    if c.peek() != b',' {
                        break;
                    }
                    c.i += 1;
                    c.sp();
                    if c.peek() == b'!' {
                        break;
                    }
                    if c.eat_word("align") {
                        al = c.int()?.max(1);
                    } else {
                        let it = self.parse_type(c)?;
                        match val!(it) {
                            Op::K(V::C(k)) => n *= k,
                            _ => return Err(format!("dynamic alloca {}", c.ctx())),
                        }
                    }
                }
                let al = al.max(8) as u32;
                let off = (b.frame + al - 1) / al * al;
                b.frame = off + (n as u32).max(1);
                b.code.push(I::Alloca { off, d });
            }
            b"extractvalue" => {
                let t = self.parse_type(c)?;
                let a = val!(t);
                let mut path = vec![];
                loop {
                    c.sp();
                    if c.peek() != b',' {
                        break;
                    }
                    c.i += 1;
                    c.sp();
                    if c.peek() == b'!' {
                        break;
                    }
                    path.push(c.int()? as u32);
                }
                b.code.push(I::ExtractV { a, path, d });
            }
            b"insertvalue" => {
                let t = self.parse_type(c)?;
                let a = val!(t);
                c.expect(b',')?;
                let vt = self.parse_type(c)?;
                let v = val!(vt);
                let mut path = vec![];
                loop {
                    c.sp();
                    if c.peek() != b',' {
                        break;
                    }
                    c.i += 1;
                    c.sp();
                    if c.peek() == b'!' {
                        break;
                    }
                    path.push(c.int()? as u32);
                }
                b.code.push(I::InsertV { a, v, path, d });
            }
            b"extractelement" => {
                let t = self.parse_type(c)?;
                let a = val!(t);
                c.expect(b',')?;
                let it = self.parse_type(c)?;
                let i = val!(it);
                b.code.push(I::ExtractE { a, i, d });
            }
            b"insertelement" => {
                let t = self.parse_type(c)?;
                let a = val!(t);
                c.expect(b',')?;
                let vt = self.parse_type(c)?;
                let v = val!(vt);
                c.expect(b',')?;
                let it = self.parse_type(c)?;
                let i = val!(it);
                b.code.push(I::InsertE { a, v, i, d });
            }
            b"shufflevector" => {
                let t = self.parse_type(c)?;
                let a = val!(t);
                c.expect(b',')?;
                let t2 = self.parse_type(c)?;
                let y = val!(t2);
                c.expect(b',')?;
                let mt = self.parse_type(c)?;
                let m = self.parse_const(c, mt)?;
                let mask = match m {
                    V::A(v) => v
                        .iter()
                        .map(|x| match x {
                            V::C(k) => *k as u32,
                            _ => 0,
                        })
                        .collect(),
                    _ => return Err("shuffle".into()),
                };
                b.code.push(I::Shuffle { a, b: y, mask, d });
            }
            b"atomicrmw" => {
                flags!();
                let o = match c.word() {
                    b"xchg" => Rmw::Xchg,
                    b"add" => Rmw::Add,
                    b"sub" => Rmw::Sub,
                    b"and" => Rmw::And,
                    b"or" => Rmw::Or,
                    b"xor" => Rmw::Xor,
                    b"nand" => Rmw::Nand,
                    b"max" => Rmw::Max,
                    b"min" => Rmw::Min,
                    b"umax" => Rmw::UMax,
                    b"umin" => Rmw::UMin,
                    _ => return Err(format!("rmw {}", c.ctx())),
                };
                let pt = self.parse_type(c)?;
                let p = val!(pt);
                c.expect(b',')?;
                let t = self.parse_type(c)?;
                let v = val!(t);
                let (n, w) = self.mem(t);
                b.code.push(I::AtomicRmw { op: o, p, v, w, n, d });
            }
            b"cmpxchg" => {
                flags!();
                let pt = self.parse_type(c)?;
                let p = val!(pt);
                c.expect(b',')?;
                let t = self.parse_type(c)?;
                let cv = val!(t);
                c.expect(b',')?;
                let t2 = self.parse_type(c)?;
                let v = val!(t2);
                let (n, w) = self.mem(t);
                b.code.push(I::CmpXchg { p, c: cv, v, w, n, d });
            }
            b"fence" => b.code.push(I::Nop),
            b"phi" => {
                flags!();
                let t = self.parse_type(c)?;
                let mut inc = vec![];
                loop {
                    c.expect(b'[')?;
                    let v = val!(t);
                    c.expect(b',')?;
                    c.expect(b'%')?;
                    let n = c.name();
                    c.expect(b']')?;
                    inc.push((v, b.block(n)));
                    c.sp();
                    if c.peek() != b',' {
                        break;
                    }
                    c.i += 1;
                    c.sp();
                    if c.peek() == b'!' {
                        break;
                    }
                }
                let cur = b.cur as usize;
                b.phis[cur].push((d, inc));
            }
            b"ret" => {
                let t = self.parse_type(c)?;
                if self.types[t as usize] == Ty::Void {
                    b.code.push(I::Ret(None));
                } else {
                    let v = val!(t);
                    b.code.push(I::Ret(Some(v)));
                }
            }
            b"br" => {
                if c.peek_word() == b"label" {
                    let e = label!();
                    b.code.push(I::Br(e));
                } else {
                    let t = self.parse_type(c)?;
                    let v = val!(t);
                    c.expect(b',')?;
                    let x = label!();
                    c.expect(b',')?;
                    let y = label!();
                    b.code.push(I::CondBr(v, x, y));
                }
            }
            b"switch" => {
                let t = self.parse_type(c)?;
                let w = self.width(t);
                let v = val!(t);
                c.expect(b',')?;
                let def = label!();
                c.expect(b'[')?;
                let mut cases = vec![];
                while !c.eat(b']') {
                    let ct = self.parse_type(c)?;
                    let k = match self.parse_const(c, ct)? {
                        V::C(x) => x as u128,
                        V::W(x) => *x,
                        _ => return Err("switch case".into()),
                    };
                    c.expect(b',')?;
                    let e = label!();
                    cases.push((k, e));
                }
                b.code.push(I::Switch { v, w, cases, def });
            }
            b"unreachable" => b.code.push(I::Unreachable),
            b"resume" => b.code.push(I::Resume),
            b"landingpad" => {
                // clauses follow on their own lines
                self.parse_type(c)?;
                loop {
                    c.eol();
                    let st = c.i;
                    let w = c.peek_word();
                    if matches!(w, b"cleanup" | b"catch" | b"filter") {
                        c.word();
                        continue;
                    }
                    c.i = st;
                    break;
                }
                b.code.push(I::Unreachable);
            }
            b"call" | b"invoke" => {
                flags!();
                self.skip_attrs(c);
                let rty = self.parse_type(c)?;
                c.ws();
                if c.peek() == b'(' {
                    c.skip_parens();
                    c.ws();
                }
                let callee;
                let mut meta_call = false;
                if c.peek_word() == b"asm" {
                    let mut comment = None;
                    // skip to the argument list: strings then '('
                    loop {
                        c.ws();
                        match c.peek() {
                            b'"' => {
                                let e = find(c.s, c.i + 1, b'"');
                                let t = &c.s[c.i + 1..e];
                                comment.get_or_insert(t.starts_with(b"/*") && t.ends_with(b"*/"));
                                c.i = e + 1;
                            }
                            b'(' => break,
                            b',' => c.i += 1,
                            _ => {
                                if c.word().is_empty() {
                                    return Err(format!("asm {}", c.ctx()));
                                }
                            }
                        }
                    }
                    callee = Callee::Asm(comment.unwrap_or(false));
                } else if c.peek() == b'@' {
                    c.i += 1;
                    let n = c.name();
                    let n = *self.aliases.get(n).unwrap_or(&n);
                    if n.starts_with(b"llvm.dbg") || n.starts_with(b"llvm.experimental.noalias") {
                        meta_call = true;
                    }
                    match self.fmap.get(n) {
                        Some(f) => callee = Callee::Fn(*f),
                        None => callee = Callee::Ind(Op::K(V::C(self.sym_addr(n)?))),
                    }
                } else {
                    let pt = self.ty(Ty::Ptr);
                    callee = Callee::Ind(val!(pt));
                }
                if meta_call {
                    b.code.push(I::Nop);
                    return Ok(());
                }
                c.expect(b'(')?;
                let mut args = vec![];
                if !c.eat(b')') {
                    loop {
                        let t = self.parse_type(c)?;
                        self.skip_attrs(c);
                        c.ws();
                        if self.types[t as usize] == Ty::Other {
                            // metadata operand: skip to , or )
                            let mut depth = 0;
                            loop {
                                match c.peek() {
                                    b'(' => depth += 1,
                                    b')' if depth == 0 => break,
                                    b')' => depth -= 1,
                                    b',' if depth == 0 => break,
                                    b'"' => c.i = find(c.s, c.i + 1, b'"'),
                                    _ => {}
                                }
                                c.i += 1;
                            }
                            args.push((Op::K(V::C(0)), t));
                        } else {
                            let v = val!(t);
                            args.push((v, t));
                        }
                        if c.eat(b')') {
                            break;
                        }
                        c.expect(b',')?;
                    }
                }
                let mut next = None;
                if op == b"invoke" {
                    // attributes / bundles, then "to label"
                    loop {
                        c.ws();
                        match c.peek() {
                            b'#' => {
                                c.i += 1;
                                c.word();
                            }
                            b'[' => {
                                c.i = find(c.s, c.i, b']') + 1;
                            }
                            _ => {
                                let w = c.word();
                                if w == b"to" {
                                    break;
                                }
                                if w.is_empty() {
                                    return Err(format!("invoke {}", c.ctx()));
                                }
                                if c.peek() == b'(' {
                                    c.skip_parens();
                                }
                            }
                        }
                    }
                    next = Some(label!());
                    c.eat_word("unwind");
                    c.eat_word("label");
                    c.expect(b'%')?;
                    c.name();
                }
                b.code.push(I::Call(Box::new(Call { callee, args, d: if d == u32::MAX { None } else { Some(d) }, rty, next })));
            }
            _ => return Err(format!("instruction {} {}", String::from_utf8_lossy(op), c.ctx())),
        }
        Ok(())
    }
}

pub struct Locals {
    map: FxMap<&'static [u8], u32>,
    n: u32,
}
impl Locals {
    fn reg(&mut self, n: &'static [u8]) -> u32 {
        if let Some(r) = self.map.get(n) {
            return *r;
        }
        let r = self.n;
        self.n += 1;
        self.map.insert(n, r);
        r
    }
}

struct FB {
    code: Vec<I>,
    edges: Vec<Edge>,
    blocks: FxMap<&'static [u8], u32>,
    labels: Vec<&'static [u8]>,
    starts: Vec<u32>,
    phis: Vec<Vec<(u32, Vec<(Op, u32)>)>>,
    edge_info: Vec<(u32, u32)>,
    cur: u32,
    frame: u32,
}
impl FB {
    fn block(&mut self, n: &'static [u8]) -> u32 {
        if let Some(b) = self.blocks.get(n) {
            return *b;
        }
        let id = self.labels.len() as u32;
        self.blocks.insert(n, id);
        self.labels.push(n);
        self.starts.push(u32::MAX);
        self.phis.push(vec![]);
        id
    }
    fn edge(&mut self, to: u32) -> u32 {
        let id = self.edges.len() as u32;
        self.edges.push(Edge::default());
        self.edge_info.push((self.cur, to));
        id
    }
}
