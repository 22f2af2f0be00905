//! Parser for the textual LLVM IR emitted by rustc (whole program after fat LTO).

use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Vec(u32, Arc<Ty>),
    Arr(u64, Arc<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    /// Scalar bit width (pointers 64, floats by size); 0 for non-scalars.
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, _ => 0 }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; b.next_power_of_two().min(16) }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(n, t) => ((*n as u64 * t.bits() as u64 + 7) / 8).next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    /// Bytes written by a store of this type.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// Allocation size.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => { let s = self.store_size(); let a = self.align(); (s + a - 1) / a * a }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(..) => { let s = self.store_size(); let a = self.align(); (s + a - 1) / a * a }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f { if !*p { let a = t.align(); o = (o + a - 1) / a * a } o += t.size() }
                if !*p { let a = self.align(); o = (o + a - 1) / a * a }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !*p { let a = t.align(); o = (o + a - 1) / a * a }
                    if j as u64 == i { return o }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => i * t.size(),
            Ty::Vec(_, t) => i * t.size(),
            _ => 0,
        }
    }
    pub fn elem(&self, i: u64) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i as usize],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => self,
        }
    }
    pub fn count(&self) -> u64 {
        match self { Ty::Struct(f, _) => f.len() as u64, Ty::Arr(n, _) => *n, Ty::Vec(n, _) => *n as u64, _ => 0 }
    }
}

/// Constant or register operand.
#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(u64),
    /// wide integer constant (width > 64)
    W(u128, u32),
    Agg(Arc<Vec<Opd>>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinK { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK { Trunc, ZExt, SExt, FpTrunc, FpExt, FpToSi, FpToUi, SiToFp, UiToFp, PtrToInt, IntToPtr, BitCast }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwK { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub enum I {
    Bin { k: BinK, ty: Ty, dst: u32, a: Opd, b: Opd },
    ICmp { p: Pred, ty: Ty, dst: u32, a: Opd, b: Opd },
    FCmp { p: FPred, ty: Ty, dst: u32, a: Opd, b: Opd },
    FNeg { ty: Ty, dst: u32, a: Opd },
    Cast { k: CastK, from: Ty, to: Ty, dst: u32, a: Opd },
    Select { dst: u32, c: Opd, a: Opd, b: Opd, ty: Ty },
    Phi { dst: u32, inc: Vec<(u32, Opd)> },
    Load { ty: Ty, dst: u32, p: Opd, atomic: bool },
    Store { ty: Ty, v: Opd, p: Opd, atomic: bool },
    Gep { dst: u32, base: Opd, off: i64, idx: Vec<(Opd, u32, i64)> },
    Alloca { dst: u32, size: u64, n: Option<Opd> },
    Call { dst: Option<u32>, callee: Callee, args: Vec<(Opd, Ty)>, ret: Ty, normal: u32, unwind: u32 },
    ExtractValue { dst: u32, a: Opd, path: Vec<u32> },
    InsertValue { dst: u32, a: Opd, v: Opd, path: Vec<u32> },
    ExtractElement { dst: u32, a: Opd, i: Opd, ty: Ty },
    InsertElement { dst: u32, a: Opd, v: Opd, i: Opd, ty: Ty },
    Shuffle { dst: u32, a: Opd, b: Opd, mask: Vec<i64>, n: u32 },
    Copy { dst: u32, a: Opd },
    Rmw { k: RmwK, ty: Ty, dst: u32, p: Opd, v: Opd },
    CmpXchg { ty: Ty, dst: u32, p: Opd, e: Opd, n: Opd },
    Fence,
    LandingPad { dst: u32 },
    Resume { a: Opd },
    Br { b: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { ty: Ty, v: Opd, d: u32, cases: Vec<(u64, u32)> },
    Ret { v: Option<Opd>, ty: Ty },
    Unreachable,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Asm,
}

pub const NOBLK: u32 = u32::MAX;

#[derive(Clone, Debug, Default)]
pub struct Block { pub ins: Vec<I> }

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub params: Vec<Ty>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub declared: bool,
    pub err: Option<String>,
    pub ins_count: u32,
}

pub struct Global {
    pub name: String,
    pub bytes: Vec<u8>,
    pub constant: bool,
    pub tls: bool,
    pub external: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub fn_by_name: HashMap<String, u32>,
}

/// object ids: 1..=G are globals, G+1..=G+F functions
impl Module {
    pub fn fn_addr(&self, f: u32) -> u64 { ((self.globals.len() as u64 + 1 + f as u64) << 32) }
    pub fn addr_fn(&self, a: u64) -> Option<u32> {
        let id = a >> 32;
        let g = self.globals.len() as u64;
        if a & 0xffff_ffff == 0 && id > g && id <= g + self.funcs.len() as u64 { Some((id - g - 1) as u32) } else { None }
    }
    pub fn first_dyn(&self) -> u64 { self.globals.len() as u64 + self.funcs.len() as u64 + 1 }
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    W(Rc<str>),     // word / keyword / number
    L(Rc<str>),     // %name
    G(Rc<str>),     // @name
    S(Rc<[u8]>),    // c"..." or "..."
    P(u8),          // punctuation
    M,              // metadata !...
    Ell,            // ...
}

struct Lex { t: Vec<T>, i: usize }

fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1 } }
            b'%' | b'@' => {
                let (name, j) = if i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' { j += 1 }
                    (&s[i + 2..j], j + 1)
                } else {
                    let mut j = i + 1;
                    while j < b.len() && isw(b[j]) { j += 1 }
                    (&s[i + 1..j], j)
                };
                out.push(if c == b'%' { T::L(name.into()) } else { T::G(name.into()) });
                i = j;
            }
            b'"' => {
                let (v, j) = lex_str(b, i);
                out.push(T::S(v.into()));
                i = j;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let (v, j) = lex_str(b, i + 1);
                out.push(T::S(v.into()));
                i = j;
            }
            b'!' => {
                i += 1;
                while i < b.len() && (isw(b[i])) { i += 1 }
                out.push(T::M);
            }
            b'.' if s[i..].starts_with("...") => { out.push(T::Ell); i += 3 }
            b'#' => { i += 1; while i < b.len() && isw(b[i]) { i += 1 } }
            b'+' => {
                let mut j = i + 1;
                while j < b.len() && isw(b[j]) { j += 1 }
                out.push(T::W(s[i..j].into()));
                i = j;
            }
            _ if isw(c) => {
                let mut j = i + 1;
                while j < b.len() && (isw(b[j]) || (b[j] == b'+' && b[j - 1] == b'e' )) { j += 1 }
                out.push(T::W(s[i..j].into()));
                i = j;
            }
            _ => { out.push(T::P(c)); i += 1 }
        }
    }
    out
}

fn lex_str(b: &[u8], start: usize) -> (Vec<u8>, usize) {
    let mut j = start + 1;
    let mut v = vec![];
    while b[j] != b'"' {
        if b[j] == b'\\' {
            if b[j + 1] == b'\\' { v.push(b'\\'); j += 2; continue }
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            v.push(h(b[j + 1]) * 16 + h(b[j + 2]));
            j += 3;
        } else { v.push(b[j]); j += 1 }
    }
    (v, j + 1)
}

type R<X> = Result<X, String>;

impl Lex {
    fn peek(&self) -> Option<&T> { self.t.get(self.i) }
    fn next(&mut self) -> R<T> {
        let t = self.t.get(self.i).cloned().ok_or("eof")?;
        self.i += 1;
        Ok(t)
    }
    fn is_w(&self, s: &str) -> bool { matches!(self.peek(), Some(T::W(x)) if &**x == s) }
    fn eat_w(&mut self, s: &str) -> bool { if self.is_w(s) { self.i += 1; true } else { false } }
    fn is_p(&self, c: u8) -> bool { matches!(self.peek(), Some(T::P(x)) if *x == c) }
    fn eat_p(&mut self, c: u8) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat_p(c) { Ok(()) } else { Err(format!("expected {} got {:?}", c as char, self.peek())) }
    }
    fn word(&mut self) -> R<Rc<str>> {
        match self.next()? { T::W(w) => Ok(w), t => Err(format!("expected word got {:?}", t)) }
    }
    fn skip_parens(&mut self) -> R<()> {
        // current token is '('
        let mut d = 0;
        loop {
            match self.next()? {
                T::P(b'(') => d += 1,
                T::P(b')') => { d -= 1; if d == 0 { return Ok(()) } }
                _ => {}
            }
        }
    }
}

struct Ctx<'a> {
    types: &'a HashMap<String, Ty>,
    gaddr: &'a HashMap<String, u64>,
}

fn is_ty_start(t: Option<&T>) -> bool {
    match t {
        Some(T::W(w)) => {
            let w = &**w;
            matches!(w, "void" | "float" | "double" | "ptr" | "label" | "metadata" | "half" | "x86_fp80" | "fp128" | "token")
                || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
        }
        Some(T::P(b'{')) | Some(T::P(b'[')) | Some(T::P(b'<')) => true,
        Some(T::L(_)) => false,
        _ => false,
    }
}

impl<'a> Ctx<'a> {
    fn ty(&self, l: &mut Lex) -> R<Ty> {
        let base = match l.next()? {
            T::W(w) => match &*w {
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "ptr" => {
                    if l.is_w("addrspace") { l.i += 1; l.skip_parens()?; }
                    Ty::Ptr
                }
                "label" | "metadata" | "token" | "half" | "x86_fp80" | "fp128" => Ty::Other,
                x if x.starts_with('i') => Ty::Int(x[1..].parse().map_err(|_| format!("type {}", x))?),
                x => return Err(format!("type {}", x)),
            },
            T::P(b'{') => self.struct_body(l, b'}', false)?,
            T::P(b'[') => {
                let n: u64 = l.word()?.parse().map_err(|_| "array len")?;
                l.word()?;
                let t = self.ty(l)?;
                l.expect(b']')?;
                Ty::Arr(n, Arc::new(t))
            }
            T::P(b'<') => {
                if l.eat_p(b'{') {
                    let t = self.struct_body(l, b'}', true)?;
                    l.expect(b'>')?;
                    t
                } else {
                    let n: u32 = l.word()?.parse().map_err(|_| "vec len")?;
                    l.word()?;
                    let t = self.ty(l)?;
                    l.expect(b'>')?;
                    Ty::Vec(n, Arc::new(t))
                }
            }
            T::L(n) => self.types.get(&*n).cloned().unwrap_or(Ty::Other),
            t => return Err(format!("type token {:?}", t)),
        };
        Ok(base)
    }
    fn struct_body(&self, l: &mut Lex, end: u8, packed: bool) -> R<Ty> {
        let mut f = vec![];
        if l.eat_p(end) { return Ok(Ty::Struct(f, packed)) }
        loop {
            f.push(self.ty(l)?);
            if l.eat_p(b',') { continue }
            l.expect(end)?;
            return Ok(Ty::Struct(f, packed));
        }
    }

    fn skip_attrs(&self, l: &mut Lex) -> R<()> {
        loop {
            match l.peek() {
                Some(T::W(w)) => {
                    let w = w.clone();
                    if is_value_word(&w) { return Ok(()) }
                    l.i += 1;
                    if &*w == "align" && !l.is_p(b'(') { l.i += 1; continue }
                    if l.is_p(b'(') { l.skip_parens()?; }
                }
                _ => return Ok(()),
            }
        }
    }

    fn zero(&self, t: &Ty) -> Opd {
        match t {
            Ty::Int(w) if *w > 64 => Opd::W(0, *w),
            Ty::Vec(n, e) => Opd::Agg(Arc::new(vec![self.zero(e); *n as usize])),
            Ty::Arr(n, e) => Opd::Agg(Arc::new(vec![self.zero(e); *n as usize])),
            Ty::Struct(f, _) => Opd::Agg(Arc::new(f.iter().map(|t| self.zero(t)).collect())),
            _ => Opd::C(0),
        }
    }

    fn value(&self, l: &mut Lex, t: &Ty, regs: &mut Regs) -> R<Opd> {
        match l.next()? {
            T::L(n) => Ok(Opd::Reg(regs.get(&n))),
            T::G(n) => Ok(Opd::C(*self.gaddr.get(&*n).ok_or_else(|| format!("unknown global {}", n))?)),
            T::S(bytes) => Ok(Opd::Agg(Arc::new(bytes.iter().map(|b| Opd::C(*b as u64)).collect()))),
            T::P(b'{') => self.agg(l, b'}', regs),
            T::P(b'[') => self.agg(l, b']', regs),
            T::P(b'<') => {
                if l.eat_p(b'{') {
                    let a = self.agg(l, b'}', regs)?;
                    l.expect(b'>')?;
                    Ok(a)
                } else { self.agg(l, b'>', regs) }
            }
            T::W(w) => match &*w {
                "true" => Ok(Opd::C(1)),
                "false" => Ok(Opd::C(0)),
                "null" | "none" => Ok(Opd::C(0)),
                "undef" | "poison" | "zeroinitializer" => Ok(self.zero(t)),
                "splat" => {
                    l.expect(b'(')?;
                    let et = self.ty(l)?;
                    let v = self.value(l, &et, regs)?;
                    l.expect(b')')?;
                    match t { Ty::Vec(n, _) => Ok(Opd::Agg(Arc::new(vec![v; *n as usize]))), _ => Err("splat".into()) }
                }
                "getelementptr" => {
                    while !l.is_p(b'(') { l.i += 1; if l.is_p(b'(') && matches!(&l.t[l.i - 1], T::W(w) if &**w == "inrange") { l.skip_parens()?; } }
                    l.expect(b'(')?;
                    let et = self.ty(l)?;
                    l.expect(b',')?;
                    let pt = self.ty(l)?;
                    let base = self.value(l, &pt, regs)?;
                    let (off, idx) = self.gep_indices(l, et, regs)?;
                    l.expect(b')')?;
                    if !idx.is_empty() { return Err("constant gep with non-constant index".into()) }
                    match base { Opd::C(b) => Ok(Opd::C(b.wrapping_add(off as u64))), _ => Err("const gep base".into()) }
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc" => {
                    l.expect(b'(')?;
                    let ft = self.ty(l)?;
                    let v = self.value(l, &ft, regs)?;
                    l.word()?;
                    let tt = self.ty(l)?;
                    l.expect(b')')?;
                    match v { Opd::C(c) => Ok(Opd::C(if tt.bits() < 64 && tt.bits() > 0 { c & ((1u64 << tt.bits()) - 1) } else { c })), _ => Err("const cast".into()) }
                }
                "sub" | "add" | "xor" => {
                    while !l.is_p(b'(') { l.i += 1 }
                    l.expect(b'(')?;
                    let t1 = self.ty(l)?;
                    let a = self.value(l, &t1, regs)?;
                    l.expect(b',')?;
                    let t2 = self.ty(l)?;
                    let b = self.value(l, &t2, regs)?;
                    l.expect(b')')?;
                    match (a, b) {
                        (Opd::C(a), Opd::C(b)) => Ok(Opd::C(match &*w { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), _ => a ^ b })),
                        _ => Err("const expr".into()),
                    }
                }
                x => self.num(x, t),
            },
            t => Err(format!("value token {:?}", t)),
        }
    }

    fn num(&self, x: &str, t: &Ty) -> R<Opd> {
        match t {
            Ty::Int(w) => {
                let v: i128 = if let Some(h) = x.strip_prefix("u0x") { u128::from_str_radix(h, 16).map_err(|_| "hex")? as i128 }
                    else if let Some(h) = x.strip_prefix("s0x") { u128::from_str_radix(h, 16).map_err(|_| "hex")? as i128 }
                    else {
                    match x.parse::<i128>() { Ok(v) => v, Err(_) => x.parse::<u128>().map_err(|_| format!("int {}", x))? as i128 } };
                if *w > 64 { return Ok(Opd::W(v as u128 & super::expr::mask(*w), *w)) }
                Ok(Opd::C((v as u128 & super::expr::mask(*w)) as u64))
            }
            Ty::F64 | Ty::F32 => {
                let f: f64 = match x {
                    "+inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY,
                    "+qnan" => f64::NAN, "-qnan" => -f64::NAN,
                    _ => {
                        if let Some(h) = x.strip_prefix("f0x") {
                            let v = u64::from_str_radix(h, 16).map_err(|_| "fhex")?;
                            return Ok(Opd::C(v));
                        }
                        if let Some(h) = x.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).map_err(|_| "fhex")?)
                        } else { x.parse().map_err(|_| format!("float {}", x))? }
                    }
                };
                Ok(Opd::C(if *t == Ty::F64 { f.to_bits() } else { (f as f32).to_bits() as u64 }))
            }
            _ => Err(format!("number {} for {:?}", x, t)),
        }
    }

    fn agg(&self, l: &mut Lex, end: u8, regs: &mut Regs) -> R<Opd> {
        let mut v = vec![];
        if l.eat_p(end) { return Ok(Opd::Agg(Arc::new(v))) }
        loop {
            let t = self.ty(l)?;
            v.push(self.value(l, &t, regs)?);
            if l.eat_p(b',') { continue }
            l.expect(end)?;
            return Ok(Opd::Agg(Arc::new(v)));
        }
    }

    fn tv(&self, l: &mut Lex, regs: &mut Regs) -> R<(Ty, Opd)> {
        let t = self.ty(l)?;
        self.skip_attrs(l)?;
        let v = self.value(l, &t, regs)?;
        Ok((t, v))
    }

    fn gep_indices(&self, l: &mut Lex, et: Ty, regs: &mut Regs) -> R<(i64, Vec<(Opd, u32, i64)>)> {
        let mut off = 0i64;
        let mut idx = vec![];
        let mut cur = et;
        let mut first = true;
        while l.is_p(b',') {
            let save = l.i;
            l.i += 1;
            if !is_ty_start(l.peek()) { l.i = save; break }
            let it = self.ty(l)?;
            let v = self.value(l, &it, regs)?;
            if first {
                first = false;
                let sz = cur.size() as i64;
                match v { Opd::C(c) => off += super::expr::sext(c as u128, it.bits()) as i64 * sz, o => idx.push((o, it.bits(), sz)) }
            } else {
                match (&cur, &v) {
                    (Ty::Struct(..), Opd::C(c)) => { off += cur.field_off(*c) as i64; cur = cur.elem(*c).clone(); }
                    (_, Opd::C(c)) => { let e = cur.elem(0).clone(); off += super::expr::sext(*c as u128, it.bits()) as i64 * e.size() as i64; cur = e; }
                    (_, o) => { let e = cur.elem(0).clone(); idx.push(((*o).clone(), it.bits(), e.size() as i64)); cur = e; }
                }
            }
        }
        Ok((off, idx))
    }

    fn to_bytes(&self, t: &Ty, o: &Opd, out: &mut [u8]) { self.to_bytes2(t, o, out, 0); }
    fn to_bytes2(&self, t: &Ty, o: &Opd, out: &mut [u8], at: u64) {
        match o {
            Opd::Agg(v) => {
                let offs: Vec<u64> = (0..v.len() as u64).map(|i| t.field_off(i)).collect();
                for (i, x) in v.iter().enumerate() { self.to_bytes2(t.elem(i as u64), x, out, at + offs[i]) }
            }
            Opd::C(c) => {
                let n = t.store_size().min(8);
                for i in 0..n { out[(at + i) as usize] = (c >> (8 * i)) as u8 }
            }
            Opd::W(c, w) => for i in 0..(*w as u64 / 8) { out[(at + i) as usize] = (c >> (8 * i)) as u8 },
            Opd::Reg(_) => {}
        }
    }
}

fn is_value_word(w: &str) -> bool {
    matches!(w, "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "asm" | "sub" | "add" | "xor" | "trunc")
        || w.starts_with(|c: char| c.is_ascii_digit() || c == '-' || c == '+') || w.starts_with("u0x") || w.starts_with("s0x") || w.starts_with("f0x")
}

struct Regs { map: HashMap<Rc<str>, u32> }
impl Regs {
    fn get(&mut self, n: &Rc<str>) -> u32 {
        if let Some(&i) = self.map.get(n) { return i }
        let i = self.map.len() as u32;
        self.map.insert(n.clone(), i);
        i
    }
}

fn demangle_comment(s: &str) -> Option<&str> { s.strip_prefix("; ") }

pub fn parse(text: &str) -> Result<Module, String> {
    // Pass 1: split
    let mut types: HashMap<String, Ty> = HashMap::new();
    let mut glines: Vec<&str> = vec![];
    let mut fns: Vec<(String, Option<Vec<&str>>, &str)> = vec![]; // header, body lines, pretty
    let mut aliases: Vec<(String, String)> = vec![];
    let mut lines = text.lines().peekable();
    let mut prev_comment = "";
    while let Some(line) = lines.next() {
        if line.starts_with('@') {
            if line.contains(" = ") && (line.contains(" alias ")) && !line.contains(" constant ") && !line.contains(" global ") {
                let l = lex(line);
                if let (Some(T::G(a)), Some(T::G(b))) = (l.first(), l.iter().rev().find(|t| matches!(t, T::G(_)))) {
                    aliases.push((a.to_string(), b.to_string()));
                }
                continue;
            }
            glines.push(line);
        } else if line.starts_with('%') {
            if let Some((n, rest)) = line.split_once(" = type ") {
                let ctx = Ctx { types: &types, gaddr: &HashMap::new() };
                let mut l = Lex { t: lex(rest), i: 0 };
                let t = ctx.ty(&mut l).unwrap_or(Ty::Other);
                types.insert(n.trim_start_matches('%').trim_matches('"').to_string(), t);
            }
        } else if line.starts_with("define ") {
            let mut body = vec![];
            for b in lines.by_ref() {
                if b == "}" { break }
                body.push(b);
            }
            fns.push((line.to_string(), Some(body), prev_comment));
            prev_comment = "";
        } else if line.starts_with("declare ") {
            fns.push((line.to_string(), None, ""));
        } else if let Some(c) = demangle_comment(line) {
            if !c.starts_with("Function Attrs") { prev_comment = c }
        }
    }
    // names
    let mut gaddr: HashMap<String, u64> = HashMap::new();
    for (i, g) in glines.iter().enumerate() {
        let l = lex(&g[..g.find(" = ").unwrap()]);
        if let Some(T::G(n)) = l.first() { gaddr.insert(n.to_string(), (i as u64 + 1) << 32); }
    }
    let mut fn_by_name = HashMap::new();
    let mut names = vec![];
    for (i, (h, _, _)) in fns.iter().enumerate() {
        // name is the first '@' token followed by '('
        let at = h.find('@').ok_or("fn header")?;
        let rest = &h[at..];
        let name = if rest.as_bytes()[1] == b'"' { rest[2..].split('"').next().unwrap().to_string() } else {
            rest[1..].split('(').next().unwrap().to_string()
        };
        gaddr.insert(name.clone(), (glines.len() as u64 + 1 + i as u64) << 32);
        fn_by_name.insert(name.clone(), i as u32);
        names.push(name);
    }
    for (a, b) in &aliases {
        if let Some(x) = gaddr.get(b).copied() { gaddr.insert(a.clone(), x); }
        if let Some(x) = fn_by_name.get(b).copied() { fn_by_name.insert(a.clone(), x); }
    }
    let ctx = Ctx { types: &types, gaddr: &gaddr };
    let ng = glines.len() as u64;
    // globals
    let mut globals = vec![];
    for g in &glines {
        let mut l = Lex { t: lex(g), i: 0 };
        let name = match l.next()? { T::G(n) => n.to_string(), _ => return Err("global".into()) };
        l.expect(b'=')?;
        let mut constant = false;
        let mut tls = false;
        let mut external = false;
        loop {
            let w = l.word()?;
            match &*w {
                "global" => break,
                "constant" => { constant = true; break }
                "thread_local" => { tls = true; if l.is_p(b'(') { l.skip_parens()?; } }
                "external" | "extern_weak" => external = true,
                _ => { if l.is_p(b'(') { l.skip_parens()?; } }
            }
        }
        let t = ctx.ty(&mut l)?;
        let mut bytes = vec![0u8; t.size() as usize];
        if !external {
            let mut regs = Regs { map: HashMap::new() };
            let v = ctx.value(&mut l, &t, &mut regs).map_err(|e| format!("global {}: {}", name, e))?;
            ctx.to_bytes(&t, &v, &mut bytes);
        }
        globals.push(Global { name, bytes, constant, tls, external });
    }
    // functions
    let mut funcs = vec![];
    for ((h, body, pretty), name) in fns.iter().zip(names) {
        let mut f = Func { name: name.clone(), pretty: if pretty.is_empty() { name.clone() } else { pretty.to_string() }, params: vec![], nregs: 0, blocks: vec![], declared: body.is_none(), err: None, ins_count: 0 };
        if let Some(b) = body {
            if let Err(e) = parse_fn(&ctx, h, b, &mut f, ng) { f.err = Some(e); f.blocks.clear(); }
        }
        funcs.push(f);
    }
    Ok(Module { funcs, globals, fn_by_name })
}

fn parse_fn(ctx: &Ctx, header: &str, body: &[&str], f: &mut Func, ng: u64) -> R<()> {
    let mut regs = Regs { map: HashMap::new() };
    let mut l = Lex { t: lex(header), i: 0 };
    // skip to @name
    while !matches!(l.peek(), Some(T::G(_))) { l.i += 1 }
    l.i += 1;
    l.expect(b'(')?;
    let mut unnamed = 0;
    if !l.eat_p(b')') {
        loop {
            if matches!(l.peek(), Some(T::Ell)) { l.i += 1; l.expect(b')')?; break }
            let t = ctx.ty(&mut l)?;
            ctx.skip_attrs(&mut l)?;
            match l.next()? {
                T::L(n) => {
                    if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1 }
                    let r = regs.get(&n);
                    if r as usize != f.params.len() { return Err("param order".into()) }
                }
                t => return Err(format!("param {:?}", t)),
            }
            f.params.push(t);
            if l.eat_p(b',') { continue }
            l.expect(b')')?;
            break;
        }
    }
    // join lines
    let mut stmts: Vec<String> = vec![];
    let mut in_switch = false;
    for line in body {
        let t = line.trim();
        if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") { continue }
        if in_switch {
            let s = stmts.last_mut().unwrap();
            s.push(' ');
            s.push_str(t);
            if t.starts_with(']') { in_switch = false }
            continue;
        }
        if line.starts_with("          ") && (t.starts_with("to label") || t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ")) {
            let s = stmts.last_mut().unwrap();
            s.push(' ');
            s.push_str(t);
            continue;
        }
        if t.starts_with("switch ") && !t.contains(']') { in_switch = true }
        stmts.push(line.to_string());
    }
    // labels
    let mut labels: HashMap<String, u32> = HashMap::new();
    let is_label = |s: &str| !s.starts_with(' ') && s.split(';').next().unwrap().trim_end().ends_with(':');
    let mut n = 0;
    for (i, s) in stmts.iter().enumerate() {
        if is_label(s) {
            let name = s.split(';').next().unwrap().trim_end().trim_end_matches(':').trim_matches('"').to_string();
            labels.insert(name, n);
            n += 1;
        } else if i == 0 {
            labels.insert(unnamed.to_string(), 0);
            n = 1;
        }
    }
    f.blocks = vec![Block::default(); n as usize];
    let mut cur: i64 = -1;
    for (i, s) in stmts.iter().enumerate() {
        if is_label(s) { cur += 1; continue }
        if i == 0 { cur = 0 }
        let mut l = Lex { t: lex(s), i: 0 };
        let ins = parse_ins(ctx, &mut l, &mut regs, &labels, ng).map_err(|e| format!("{} in `{}`", e, s.trim()))?;
        f.blocks[cur as usize].ins.push(ins);
        f.ins_count += 1;
    }
    f.nregs = regs.map.len() as u32;
    Ok(())
}

fn parse_ins(ctx: &Ctx, l: &mut Lex, regs: &mut Regs, labels: &HashMap<String, u32>, ng: u64) -> R<I> {
    let mut dst = None;
    if let Some(T::L(n)) = l.peek().cloned() {
        l.i += 1;
        l.expect(b'=')?;
        dst = Some(regs.get(&n));
    }
    let d = dst.unwrap_or(u32::MAX);
    let label = |l: &mut Lex| -> R<u32> {
        if l.is_w("label") { l.i += 1 }
        match l.next()? { T::L(n) => labels.get(&*n).copied().ok_or_else(|| format!("label {}", n)), t => Err(format!("label {:?}", t)) }
    };
    let mut op = l.word()?;
    if matches!(&*op, "tail" | "musttail" | "notail") { op = l.word()? }
    let flags = |l: &mut Lex| {
        while let Some(T::W(w)) = l.peek() {
            if matches!(&**w, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "weak" | "atomic") { l.i += 1 } else { break }
        }
    };
    let bink = match &*op {
        "add" => Some(BinK::Add), "sub" => Some(BinK::Sub), "mul" => Some(BinK::Mul), "udiv" => Some(BinK::UDiv), "sdiv" => Some(BinK::SDiv),
        "urem" => Some(BinK::URem), "srem" => Some(BinK::SRem), "and" => Some(BinK::And), "or" => Some(BinK::Or), "xor" => Some(BinK::Xor),
        "shl" => Some(BinK::Shl), "lshr" => Some(BinK::LShr), "ashr" => Some(BinK::AShr),
        "fadd" => Some(BinK::FAdd), "fsub" => Some(BinK::FSub), "fmul" => Some(BinK::FMul), "fdiv" => Some(BinK::FDiv), "frem" => Some(BinK::FRem),
        _ => None,
    };
    if let Some(k) = bink {
        flags(l);
        let ty = ctx.ty(l)?;
        let a = ctx.value(l, &ty, regs)?;
        l.expect(b',')?;
        let b = ctx.value(l, &ty, regs)?;
        return Ok(I::Bin { k, ty, dst: d, a, b });
    }
    let castk = match &*op {
        "trunc" => Some(CastK::Trunc), "zext" => Some(CastK::ZExt), "sext" => Some(CastK::SExt), "fptrunc" => Some(CastK::FpTrunc), "fpext" => Some(CastK::FpExt),
        "fptosi" => Some(CastK::FpToSi), "fptoui" => Some(CastK::FpToUi), "sitofp" => Some(CastK::SiToFp), "uitofp" => Some(CastK::UiToFp),
        "ptrtoint" => Some(CastK::PtrToInt), "ptrtoaddr" => Some(CastK::PtrToInt), "inttoptr" => Some(CastK::IntToPtr), "bitcast" => Some(CastK::BitCast), _ => None,
    };
    if let Some(k) = castk {
        flags(l);
        let (from, a) = ctx.tv(l, regs)?;
        l.word()?;
        let to = ctx.ty(l)?;
        return Ok(I::Cast { k, from, to, dst: d, a });
    }
    match &*op {
        "icmp" => {
            flags(l);
            let p = match &*l.word()? { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, x => return Err(x.into()) };
            let ty = ctx.ty(l)?;
            let a = ctx.value(l, &ty, regs)?;
            l.expect(b',')?;
            let b = ctx.value(l, &ty, regs)?;
            Ok(I::ICmp { p, ty, dst: d, a, b })
        }
        "fcmp" => {
            flags(l);
            use FPred::*;
            let p = match &*l.word()? { "false" => False, "oeq" => Oeq, "ogt" => Ogt, "oge" => Oge, "olt" => Olt, "ole" => Ole, "one" => One, "ord" => Ord, "ueq" => Ueq, "ugt" => Ugt, "uge" => Uge, "ult" => Ult, "ule" => Ule, "une" => Une, "uno" => Uno, "true" => True, x => return Err(x.into()) };
            let ty = ctx.ty(l)?;
            let a = ctx.value(l, &ty, regs)?;
            l.expect(b',')?;
            let b = ctx.value(l, &ty, regs)?;
            Ok(I::FCmp { p, ty, dst: d, a, b })
        }
        "fneg" => { flags(l); let (ty, a) = ctx.tv(l, regs)?; Ok(I::FNeg { ty, dst: d, a }) }
        "freeze" => { let (_, a) = ctx.tv(l, regs)?; Ok(I::Copy { dst: d, a }) }
        "select" => {
            flags(l);
            let (ct, c) = ctx.tv(l, regs)?;
            l.expect(b',')?;
            let (ty, a) = ctx.tv(l, regs)?;
            l.expect(b',')?;
            let (_, b) = ctx.tv(l, regs)?;
            if matches!(ct, Ty::Vec(..)) { return Err("vector select".into()) }
            Ok(I::Select { dst: d, c, a, b, ty })
        }
        "phi" => {
            flags(l);
            let ty = ctx.ty(l)?;
            let mut inc = vec![];
            loop {
                l.expect(b'[')?;
                let v = ctx.value(l, &ty, regs)?;
                l.expect(b',')?;
                let b = label(l)?;
                l.expect(b']')?;
                inc.push((b, v));
                if l.is_p(b',') && matches!(l.t.get(l.i + 1), Some(T::P(b'['))) { l.i += 1; continue }
                break;
            }
            Ok(I::Phi { dst: d, inc })
        }
        "load" => {
            let atomic = l.is_w("atomic");
            flags(l);
            let ty = ctx.ty(l)?;
            l.expect(b',')?;
            let (_, p) = ctx.tv(l, regs)?;
            Ok(I::Load { ty, dst: d, p, atomic })
        }
        "store" => {
            let atomic = l.is_w("atomic");
            flags(l);
            let (ty, v) = ctx.tv(l, regs)?;
            l.expect(b',')?;
            let (_, p) = ctx.tv(l, regs)?;
            Ok(I::Store { ty, v, p, atomic })
        }
        "getelementptr" => {
            flags(l);
            if l.is_w("inrange") { l.i += 1; l.skip_parens()?; }
            let et = ctx.ty(l)?;
            l.expect(b',')?;
            let (pt, base) = ctx.tv(l, regs)?;
            if matches!(pt, Ty::Vec(..)) { return Err("vector gep".into()) }
            let (off, idx) = ctx.gep_indices(l, et, regs)?;
            Ok(I::Gep { dst: d, base, off, idx })
        }
        "alloca" => {
            let t = ctx.ty(l)?;
            let mut n = None;
            if l.is_p(b',') && is_ty_start(l.t.get(l.i + 1)) { l.i += 1; n = Some(ctx.tv(l, regs)?.1); }
            Ok(I::Alloca { dst: d, size: t.size(), n })
        }
        "extractvalue" => {
            let (_, a) = ctx.tv(l, regs)?;
            let mut path = vec![];
            while l.eat_p(b',') { if let Some(T::W(w)) = l.peek().cloned() { l.i += 1; path.push(w.parse().map_err(|_| "path")?) } else { break } }
            Ok(I::ExtractValue { dst: d, a, path })
        }
        "insertvalue" => {
            let (_, a) = ctx.tv(l, regs)?;
            l.expect(b',')?;
            let (_, v) = ctx.tv(l, regs)?;
            let mut path = vec![];
            while l.eat_p(b',') { if let Some(T::W(w)) = l.peek().cloned() { l.i += 1; path.push(w.parse().map_err(|_| "path")?) } else { break } }
            Ok(I::InsertValue { dst: d, a, v, path })
        }
        "extractelement" => {
            let (ty, a) = ctx.tv(l, regs)?;
            l.expect(b',')?;
            let (_, i) = ctx.tv(l, regs)?;
            Ok(I::ExtractElement { dst: d, a, i, ty })
        }
        "insertelement" => {
            let (ty, a) = ctx.tv(l, regs)?;
            l.expect(b',')?;
            let (_, v) = ctx.tv(l, regs)?;
            l.expect(b',')?;
            let (_, i) = ctx.tv(l, regs)?;
            Ok(I::InsertElement { dst: d, a, v, i, ty })
        }
        "shufflevector" => {
            let (vt, a) = ctx.tv(l, regs)?;
            l.expect(b',')?;
            let (_, b) = ctx.tv(l, regs)?;
            l.expect(b',')?;
            let mt = ctx.ty(l)?;
            let n = vt.count() as u32;
            let mn = mt.count();
            let mask = if l.is_w("zeroinitializer") || l.is_w("poison") || l.is_w("undef") { vec![0; mn as usize] } else {
                match ctx.value(l, &mt, regs)? { Opd::Agg(v) => v.iter().map(|o| match o { Opd::C(c) => *c as u32 as i32 as i64, _ => -1 }).collect(), _ => return Err("mask".into()) }
            };
            Ok(I::Shuffle { dst: d, a, b, mask, n })
        }
        "atomicrmw" => {
            flags(l);
            let k = match &*l.word()? { "xchg" => RmwK::Xchg, "add" => RmwK::Add, "sub" => RmwK::Sub, "and" => RmwK::And, "or" => RmwK::Or, "xor" => RmwK::Xor, "nand" => RmwK::Nand, "max" => RmwK::Max, "min" => RmwK::Min, "umax" => RmwK::UMax, "umin" => RmwK::UMin, x => return Err(x.into()) };
            let (_, p) = ctx.tv(l, regs)?;
            l.expect(b',')?;
            let (ty, v) = ctx.tv(l, regs)?;
            Ok(I::Rmw { k, ty, dst: d, p, v })
        }
        "cmpxchg" => {
            flags(l);
            let (_, p) = ctx.tv(l, regs)?;
            l.expect(b',')?;
            let (ty, e) = ctx.tv(l, regs)?;
            l.expect(b',')?;
            let (_, n) = ctx.tv(l, regs)?;
            Ok(I::CmpXchg { ty, dst: d, p, e, n })
        }
        "fence" => Ok(I::Fence),
        "landingpad" => Ok(I::LandingPad { dst: d }),
        "resume" => { let (_, a) = ctx.tv(l, regs)?; Ok(I::Resume { a }) }
        "unreachable" => Ok(I::Unreachable),
        "br" => {
            if l.is_w("label") { return Ok(I::Br { b: label(l)? }) }
            let (_, c) = ctx.tv(l, regs)?;
            l.expect(b',')?;
            let t = label(l)?;
            l.expect(b',')?;
            let f = label(l)?;
            Ok(I::CondBr { c, t, f })
        }
        "switch" => {
            let (ty, v) = ctx.tv(l, regs)?;
            l.expect(b',')?;
            let dd = label(l)?;
            l.expect(b'[')?;
            let mut cases = vec![];
            while !l.eat_p(b']') {
                let t = ctx.ty(l)?;
                match ctx.value(l, &t, regs)? { Opd::C(c) => { l.expect(b',')?; let b = label(l)?; cases.push((c, b)) } _ => return Err("switch case".into()) }
            }
            Ok(I::Switch { ty, v, d: dd, cases })
        }
        "ret" => {
            if l.eat_w("void") { return Ok(I::Ret { v: None, ty: Ty::Void }) }
            let (ty, v) = ctx.tv(l, regs)?;
            Ok(I::Ret { v: Some(v), ty })
        }
        "call" | "invoke" => {
            // fast-math, cc, ret attrs
            loop {
                if is_ty_start(l.peek()) { break }
                match l.next()? {
                    T::W(w) => {
                        if &*w == "align" && !l.is_p(b'(') { l.i += 1 }
                        if l.is_p(b'(') { l.skip_parens()?; }
                    }
                    t => return Err(format!("call prefix {:?}", t)),
                }
            }
            let ret = ctx.ty(l)?;
            if l.is_p(b'(') { l.skip_parens()?; } // explicit function type
            let callee = match l.next()? {
                T::G(n) => {
                    let a = *ctx.gaddr.get(&*n).ok_or_else(|| format!("callee {}", n))?;
                    let id = a >> 32;
                    if id > ng { Callee::Fn((id - ng - 1) as u32) } else { return Err("call global".into()) }
                }
                T::L(n) => Callee::Ind(Opd::Reg(regs.get(&n))),
                T::W(w) if &*w == "asm" => {
                    while !l.is_p(b'(') { l.i += 1 }
                    Callee::Asm
                }
                t => return Err(format!("callee {:?}", t)),
            };
            l.expect(b'(')?;
            let mut args = vec![];
            if !l.eat_p(b')') {
                loop {
                    let t = if let Some(T::W(w)) = l.peek() { if &**w == "metadata" { None } else { Some(()) } } else { Some(()) };
                    if t.is_none() {
                        // metadata argument: skip to , or )
                        let mut dep = 0;
                        loop {
                            match l.peek() {
                                Some(T::P(b'(')) => dep += 1,
                                Some(T::P(b')')) if dep == 0 => break,
                                Some(T::P(b')')) => dep -= 1,
                                Some(T::P(b',')) if dep == 0 => break,
                                None => return Err("eof".into()),
                                _ => {}
                            }
                            l.i += 1;
                        }
                        args.push((Opd::C(0), Ty::Other));
                    } else {
                        let (t, v) = ctx.tv(l, regs)?;
                        args.push((v, t));
                    }
                    if l.eat_p(b',') { continue }
                    l.expect(b')')?;
                    break;
                }
            }
            let (mut normal, mut unwind) = (NOBLK, NOBLK);
            if &*op == "invoke" {
                while !l.is_w("to") { l.i += 1; if l.i >= l.t.len() { return Err("invoke".into()) } }
                l.i += 1;
                normal = label(l)?;
                while !l.is_w("unwind") { l.i += 1; if l.i >= l.t.len() { return Err("invoke".into()) } }
                l.i += 1;
                unwind = label(l)?;
            }
            Ok(I::Call { dst, callee, args, ret, normal, unwind })
        }
        x => Err(format!("unknown instruction {}", x)),
    }
}
