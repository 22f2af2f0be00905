//! Z3 through its C API, loaded with dlopen.  One `Smt` per worker thread.

use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> P;
    fn dlsym(h: P, n: *const c_char) -> P;
    fn dlerror() -> *const c_char;
}

macro_rules! api {
    ($($name:ident : fn($($a:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        #[derive(Clone, Copy)]
        pub struct Api { $($name: unsafe extern "C" fn($($a),*) $(-> $r)?,)* }
        impl Api {
            fn load(h: P) -> Api {
                unsafe {
                    Api { $($name: {
                        let n = CString::new(concat!("Z3_", stringify!($name))).unwrap();
                        let p = dlsym(h, n.as_ptr());
                        if p.is_null() { panic!("missing symbol Z3_{}", stringify!($name)) }
                        std::mem::transmute::<P, unsafe extern "C" fn($($a),*) $(-> $r)?>(p)
                    },)* }
                }
            }
        }
    };
}

api! {
    mk_config: fn() -> P;
    set_param_value: fn(P, *const c_char, *const c_char);
    mk_context: fn(P) -> P;
    set_error_handler: fn(P, P);
    get_error_code: fn(P) -> c_uint;
    mk_solver: fn(P) -> P;
    mk_simple_solver: fn(P) -> P;
    solver_inc_ref: fn(P, P);
    solver_dec_ref: fn(P, P);
    solver_reset: fn(P, P);
    solver_assert: fn(P, P, P);
    solver_check: fn(P, P) -> c_int;
    solver_get_model: fn(P, P) -> P;
    solver_set_params: fn(P, P, P);
    model_inc_ref: fn(P, P);
    model_dec_ref: fn(P, P);
    model_eval: fn(P, P, P, bool, *mut P) -> bool;
    get_numeral_string: fn(P, P) -> *const c_char;
    mk_params: fn(P) -> P;
    params_inc_ref: fn(P, P);
    params_set_uint: fn(P, P, P, c_uint);
    mk_string_symbol: fn(P, *const c_char) -> P;
    mk_int_symbol: fn(P, c_int) -> P;
    mk_bv_sort: fn(P, c_uint) -> P;
    mk_bool_sort: fn(P) -> P;
    mk_const: fn(P, P, P) -> P;
    mk_numeral: fn(P, *const c_char, P) -> P;
    mk_unsigned_int64: fn(P, u64, P) -> P;
    mk_true: fn(P) -> P;
    mk_false: fn(P) -> P;
    mk_eq: fn(P, P, P) -> P;
    mk_not: fn(P, P) -> P;
    mk_ite: fn(P, P, P, P) -> P;
    mk_xor: fn(P, P, P) -> P;
    mk_and: fn(P, c_uint, *const P) -> P;
    mk_or: fn(P, c_uint, *const P) -> P;
    mk_bvand: fn(P, P, P) -> P;
    mk_bvor: fn(P, P, P) -> P;
    mk_bvxor: fn(P, P, P) -> P;
    mk_bvadd: fn(P, P, P) -> P;
    mk_bvsub: fn(P, P, P) -> P;
    mk_bvmul: fn(P, P, P) -> P;
    mk_bvudiv: fn(P, P, P) -> P;
    mk_bvsdiv: fn(P, P, P) -> P;
    mk_bvurem: fn(P, P, P) -> P;
    mk_bvsrem: fn(P, P, P) -> P;
    mk_bvshl: fn(P, P, P) -> P;
    mk_bvlshr: fn(P, P, P) -> P;
    mk_bvashr: fn(P, P, P) -> P;
    mk_bvult: fn(P, P, P) -> P;
    mk_bvule: fn(P, P, P) -> P;
    mk_bvslt: fn(P, P, P) -> P;
    mk_bvsle: fn(P, P, P) -> P;
    mk_concat: fn(P, P, P) -> P;
    mk_extract: fn(P, c_uint, c_uint, P) -> P;
    mk_zero_ext: fn(P, c_uint, P) -> P;
    mk_sign_ext: fn(P, c_uint, P) -> P;
    mk_fpa_sort_double: fn(P) -> P;
    mk_fpa_sort_single: fn(P) -> P;
    mk_fpa_rne: fn(P) -> P;
    mk_fpa_rtz: fn(P) -> P;
    mk_fpa_rtn: fn(P) -> P;
    mk_fpa_rtp: fn(P) -> P;
    mk_fpa_rna: fn(P) -> P;
    mk_fpa_to_fp_bv: fn(P, P, P) -> P;
    mk_fpa_to_ieee_bv: fn(P, P) -> P;
    mk_fpa_to_fp_signed: fn(P, P, P, P) -> P;
    mk_fpa_to_fp_unsigned: fn(P, P, P, P) -> P;
    mk_fpa_to_fp_float: fn(P, P, P, P) -> P;
    mk_fpa_to_sbv: fn(P, P, P, c_uint) -> P;
    mk_fpa_to_ubv: fn(P, P, P, c_uint) -> P;
    mk_fpa_add: fn(P, P, P, P) -> P;
    mk_fpa_sub: fn(P, P, P, P) -> P;
    mk_fpa_mul: fn(P, P, P, P) -> P;
    mk_fpa_div: fn(P, P, P, P) -> P;
    mk_fpa_sqrt: fn(P, P, P) -> P;
    mk_fpa_round_to_integral: fn(P, P, P) -> P;
    mk_fpa_eq: fn(P, P, P) -> P;
    mk_fpa_lt: fn(P, P, P) -> P;
    mk_fpa_leq: fn(P, P, P) -> P;
    mk_fpa_is_nan: fn(P, P) -> P;
    solver_get_reason_unknown: fn(P, P) -> *const c_char;
    get_full_version: fn() -> *const c_char;
}

pub fn load_api() -> Api {
    let cands = [
        std::env::var("RSX_Z3").unwrap_or_default(),
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so".into(),
        "/usr/lib/x86_64-linux-gnu/libz3.so".into(),
        "/usr/lib/x86_64-linux-gnu/libz3.so.4".into(),
        "libz3.so".into(),
    ];
    for c in cands.iter().filter(|c| !c.is_empty()) {
        let s = CString::new(c.as_str()).unwrap();
        let h = unsafe { dlopen(s.as_ptr(), 2) };
        if !h.is_null() { return Api::load(h) }
    }
    let e = unsafe { dlerror() };
    panic!("cannot load libz3: {:?}", if e.is_null() { None } else { Some(unsafe { CStr::from_ptr(e) }) });
}

#[derive(Debug)]
pub enum Res { Sat(Model), Unsat, Unknown(String) }

pub struct Smt {
    z: Api,
    c: P,
    solver: P,
    simple: P,
    bv: FxMap<Id, P>,
    fp: FxMap<Id, P>,
    fpm: FxMap<Id, bool>,
    pub tables: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: std::time::Duration,
    pub max_time: std::time::Duration,
}

impl Smt {
    pub fn version(z: &Api) -> String { unsafe { CStr::from_ptr((z.get_full_version)()).to_string_lossy().into_owned() } }
    pub fn new(z: Api, timeout_ms: u32) -> Smt {
        unsafe {
            let cfg = (z.mk_config)();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            (z.set_param_value)(cfg, k.as_ptr(), v.as_ptr());
            let c = (z.mk_context)(cfg);
            (z.set_error_handler)(c, std::ptr::null_mut());
            let solver = (z.mk_solver)(c);
            (z.solver_inc_ref)(c, solver);
            let simple = (z.mk_simple_solver)(c);
            (z.solver_inc_ref)(c, simple);
            let p = (z.mk_params)(c);
            (z.params_inc_ref)(c, p);
            let t = CString::new("timeout").unwrap();
            (z.params_set_uint)(c, p, (z.mk_string_symbol)(c, t.as_ptr()), timeout_ms);
            (z.solver_set_params)(c, solver, p);
            (z.solver_set_params)(c, simple, p);
            Smt { z, c, solver, simple, bv: FxMap::default(), fp: FxMap::default(), fpm: FxMap::default(), tables: 0, queries: 0, sat: 0, unsat: 0, unknown: 0, time: Default::default(), max_time: Default::default() }
        }
    }

    fn err(&self) -> bool { unsafe { (self.z.get_error_code)(self.c) != 0 } }

    fn num(&self, k: u128, w: u32) -> P {
        unsafe {
            let s = (self.z.mk_bv_sort)(self.c, w);
            if w <= 64 { (self.z.mk_unsigned_int64)(self.c, k as u64, s) } else {
                let t = CString::new(k.to_string()).unwrap();
                (self.z.mk_numeral)(self.c, t.as_ptr(), s)
            }
        }
    }

    /// Boolean term for a width-1 node.
    fn b(&mut self, a: &Arena, i: Id) -> P { self.t(a, i) }

    /// Term: Bool for width 1, bit-vector otherwise.
    fn t(&mut self, a: &Arena, i: Id) -> P {
        if let Some(&p) = self.bv.get(&i) { return p }
        let n = *a.n(i);
        let w = n.w as u32;
        let z = self.z;
        let c = self.c;
        if w == 1 && matches!(n.op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe) && Self::has_fp(a, i, &mut self.fpm) {
            if let Some(p) = self.table(a, i) { self.bv.insert(i, p); return p }
        }
        let p = unsafe {
            match n.op {
                Op::Const => if w == 1 { if n.k == 1 { (z.mk_true)(c) } else { (z.mk_false)(c) } } else { self.num(n.k, w) },
                Op::Var => {
                    let s = (z.mk_int_symbol)(c, n.k as c_int);
                    let so = if w == 1 { (z.mk_bool_sort)(c) } else { (z.mk_bv_sort)(c, w) };
                    (z.mk_const)(c, s, so)
                }
                Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr => {
                    let x = self.v(a, n.a);
                    let y = self.v(a, n.b);
                    let r = match n.op {
                        Op::Add => (z.mk_bvadd)(c, x, y), Op::Sub => (z.mk_bvsub)(c, x, y), Op::Mul => (z.mk_bvmul)(c, x, y),
                        Op::UDiv => (z.mk_bvudiv)(c, x, y), Op::SDiv => (z.mk_bvsdiv)(c, x, y), Op::URem => (z.mk_bvurem)(c, x, y),
                        Op::SRem => (z.mk_bvsrem)(c, x, y), Op::Shl => (z.mk_bvshl)(c, x, y), Op::LShr => (z.mk_bvlshr)(c, x, y),
                        _ => (z.mk_bvashr)(c, x, y),
                    };
                    self.frombv(r, w)
                }
                Op::And | Op::Or | Op::Xor => {
                    let x = self.t(a, n.a);
                    let y = self.t(a, n.b);
                    if w == 1 {
                        let xs = [x, y];
                        match n.op { Op::And => (z.mk_and)(c, 2, xs.as_ptr()), Op::Or => (z.mk_or)(c, 2, xs.as_ptr()),
                            _ => if a.is_const(n.b) == Some(1) { (z.mk_not)(c, x) } else { (z.mk_xor)(c, x, y) } }
                    } else {
                        match n.op { Op::And => (z.mk_bvand)(c, x, y), Op::Or => (z.mk_bvor)(c, x, y), _ => (z.mk_bvxor)(c, x, y) }
                    }
                }
                Op::Eq => { let x = self.t(a, n.a); let y = self.t(a, n.b); (z.mk_eq)(c, x, y) }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let x = self.v(a, n.a);
                    let y = self.v(a, n.b);
                    match n.op { Op::Ult => (z.mk_bvult)(c, x, y), Op::Ule => (z.mk_bvule)(c, x, y), Op::Slt => (z.mk_bvslt)(c, x, y), _ => (z.mk_bvsle)(c, x, y) }
                }
                Op::Ite => { let x = self.b(a, n.a); let y = self.t(a, n.b); let q = self.t(a, n.c); (z.mk_ite)(c, x, y, q) }
                Op::Concat => { let x = self.v(a, n.a); let y = self.v(a, n.b); (z.mk_concat)(c, x, y) }
                Op::Extract => {
                    let x = self.v(a, n.a);
                    let lo = n.k as u32;
                    let r = (z.mk_extract)(c, lo + w - 1, lo, x);
                    self.frombv(r, w)
                }
                Op::ZExt => { let x = self.v(a, n.a); (z.mk_zero_ext)(c, w - a.w(n.a), x) }
                Op::SExt => { let x = self.v(a, n.a); (z.mk_sign_ext)(c, w - a.w(n.a), x) }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::FRound | Op::SiToFp | Op::UiToFp | Op::FpExt | Op::FpTrunc | Op::FFun => {
                    let f = self.f(a, i);
                    (z.mk_fpa_to_ieee_bv)(c, f)
                }
                Op::FEq | Op::FLt | Op::FLe => {
                    let x = self.f(a, n.a);
                    let y = self.f(a, n.b);
                    match n.op { Op::FEq => (z.mk_fpa_eq)(c, x, y), Op::FLt => (z.mk_fpa_lt)(c, x, y), _ => (z.mk_fpa_leq)(c, x, y) }
                }
                Op::FpToSi | Op::FpToUi => {
                    // saturating conversion
                    let x = self.f(a, n.a);
                    let aw = a.w(n.a);
                    let signed = n.op == Op::FpToSi;
                    let (lo, hi): (f64, f64) = if signed { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
                    let bits = |v: f64| if aw == 64 { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 };
                    let so = if aw == 64 { (z.mk_fpa_sort_double)(c) } else { (z.mk_fpa_sort_single)(c) };
                    let lof = (z.mk_fpa_to_fp_bv)(c, self.num(bits(lo), aw), so);
                    let hif = (z.mk_fpa_to_fp_bv)(c, self.num(bits(hi), aw), so);
                    let rtz = (z.mk_fpa_rtz)(c);
                    let r = if signed { (z.mk_fpa_to_sbv)(c, rtz, x, w) } else { (z.mk_fpa_to_ubv)(c, rtz, x, w) };
                    let minv = if signed { self.num(1u128 << (w - 1), w) } else { self.num(0, w) };
                    let maxv = if signed { self.num(mask(w) >> 1, w) } else { self.num(mask(w), w) };
                    let below = if signed { (z.mk_fpa_lt)(c, x, lof) } else { (z.mk_fpa_leq)(c, x, lof) };
                    let above = (z.mk_fpa_leq)(c, hif, x);
                    let nan = (z.mk_fpa_is_nan)(c, x);
                    let r = (z.mk_ite)(c, above, maxv, r);
                    let r = (z.mk_ite)(c, below, minv, r);
                    (z.mk_ite)(c, nan, self.num(0, w), r)
                }
            }
        };
        self.bv.insert(i, p);
        p
    }

    fn frombv(&self, p: P, w: u32) -> P {
        if w == 1 { unsafe { (self.z.mk_eq)(self.c, p, self.num(1, 1)) } } else { p }
    }
    /// bit-vector term even for width 1
    fn v(&mut self, a: &Arena, i: Id) -> P {
        let p = self.t(a, i);
        if a.w(i) == 1 { unsafe { (self.z.mk_ite)(self.c, p, self.num(1, 1), self.num(0, 1)) } } else { p }
    }

    fn fsort(&self, w: u32) -> P { unsafe { if w == 64 { (self.z.mk_fpa_sort_double)(self.c) } else { (self.z.mk_fpa_sort_single)(self.c) } } }

    /// Floating-point term.
    fn f(&mut self, a: &Arena, i: Id) -> P {
        if let Some(&p) = self.fp.get(&i) { return p }
        let n = *a.n(i);
        let w = n.w as u32;
        let z = self.z;
        let c = self.c;
        let p = unsafe {
            let rne = (z.mk_fpa_rne)(c);
            let so = self.fsort(w);
            match n.op {
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let x = self.f(a, n.a);
                    let y = self.f(a, n.b);
                    match n.op { Op::FAdd => (z.mk_fpa_add)(c, rne, x, y), Op::FSub => (z.mk_fpa_sub)(c, rne, x, y), Op::FMul => (z.mk_fpa_mul)(c, rne, x, y), _ => (z.mk_fpa_div)(c, rne, x, y) }
                }
                Op::FSqrt => { let x = self.f(a, n.a); (z.mk_fpa_sqrt)(c, rne, x) }
                Op::FRound => {
                    let x = self.f(a, n.a);
                    let rm = match n.k { 0 => (z.mk_fpa_rtz)(c), 1 => (z.mk_fpa_rtn)(c), 2 => (z.mk_fpa_rtp)(c), 3 => (z.mk_fpa_rna)(c), _ => rne };
                    (z.mk_fpa_round_to_integral)(c, rm, x)
                }
                Op::SiToFp => { let x = self.v(a, n.a); (z.mk_fpa_to_fp_signed)(c, rne, x, so) }
                Op::UiToFp => { let x = self.v(a, n.a); (z.mk_fpa_to_fp_unsigned)(c, rne, x, so) }
                Op::FpExt | Op::FpTrunc => { let x = self.f(a, n.a); (z.mk_fpa_to_fp_float)(c, rne, x, so) }
                Op::FFun => {
                    // nothing is known about it: an arbitrary value for each application
                    let name = std::ffi::CString::new(format!("fun{}", i)).unwrap();
                    (z.mk_const)(c, (z.mk_string_symbol)(c, name.as_ptr()), so)
                }
                Op::Ite => {
                    let q = self.b(a, n.a);
                    let x = self.f(a, n.b);
                    let y = self.f(a, n.c);
                    (z.mk_ite)(c, q, x, y)
                }
                _ => { let x = self.t(a, i); (z.mk_fpa_to_fp_bv)(c, x, so) }
            }
        };
        self.fp.insert(i, p);
        p
    }

    fn has_fp(a: &Arena, i: Id, seen: &mut FxMap<Id, bool>) -> bool {
        if let Some(&b) = seen.get(&i) { return b }
        let n = a.n(i);
        let r = (n.op as u8 >= Op::FAdd as u8)
            || (n.a != 0 && Self::has_fp(a, n.a, seen)) || (n.b != 0 && Self::has_fp(a, n.b, seen)) || (n.c != 0 && Self::has_fp(a, n.c, seen));
        seen.insert(i, r);
        r
    }

    /// A predicate over floating-point terms of a few narrow inputs, written as the exact set of
    /// inputs that satisfy it (unions of intervals), which spares the solver bit-blasting arithmetic
    /// on doubles.
    fn table(&mut self, a: &Arena, i: Id) -> Option<P> {
        let mut seen = FxMap::default();
        let mut vars = vec![];
        Self::vars_of(a, i, &mut seen, &mut vars);
        vars.sort();
        let ws: Vec<u32> = vars.iter().map(|v| a.w(*v)).collect();
        let bits: u32 = ws.iter().sum();
        if bits == 0 || bits > 18 { return None }
        let prog = a.compile(i);
        let mut vals = vec![0u128; prog.len()];
        let mut tab = vec![false; 1 << bits];
        let slot: Vec<usize> = vars.iter().map(|v| prog.iter().position(|x| x.0 == *v).unwrap()).collect();
        for (j, t) in tab.iter_mut().enumerate() {
            let mut r = j;
            for k in (0..vars.len()).rev() { vals[slot[k]] = (r & mask(ws[k]) as usize) as u128; r >>= ws[k] }
            *t = a.run(&prog, &mut vals) & 1 == 1;
        }
        let mut budget = 4000;
        let p = self.table_term(a, &vars, &ws, &tab, &mut budget)?;
        self.tables += 1;
        Some(p)
    }
    fn table_term(&mut self, a: &Arena, vars: &[Id], ws: &[u32], tab: &[bool], budget: &mut i32) -> Option<P> {
        let z = self.z;
        let c = self.c;
        unsafe {
            if tab.iter().all(|x| *x) { return Some((z.mk_true)(c)) }
            if tab.iter().all(|x| !*x) { return Some((z.mk_false)(c)) }
        }
        let n = 1usize << ws[0];
        let sub = tab.len() / n;
        let mut kinds: Vec<(usize, Vec<bool>)> = vec![];
        for v in 0..n {
            let t = &tab[v * sub..(v + 1) * sub];
            match kinds.iter_mut().find(|k| &tab[k.0 * sub..(k.0 + 1) * sub] == t) {
                Some(k) => k.1[v] = true,
                None => { let mut m = vec![false; n]; m[v] = true; kinds.push((v, m)) }
            }
        }
        let x = self.v(a, vars[0]);
        let mut ors = vec![];
        for (v, m) in kinds {
            let inner = if sub == 1 { if !tab[v] { continue } unsafe { (z.mk_true)(c) } } else {
                let t = tab[v * sub..(v + 1) * sub].to_vec();
                if t.iter().all(|x| !*x) { continue }
                self.table_term(a, &vars[1..], &ws[1..], &t, budget)?
            };
            let mut lo = 0;
            while lo < n {
                if !m[lo] { lo += 1; continue }
                let mut hi = lo;
                while hi + 1 < n && m[hi + 1] { hi += 1 }
                *budget -= 1;
                if *budget < 0 { return None }
                unsafe {
                    let parts = [(z.mk_bvule)(c, self.num(lo as u128, ws[0]), x), (z.mk_bvule)(c, x, self.num(hi as u128, ws[0])), inner];
                    ors.push((z.mk_and)(c, 3, parts.as_ptr()));
                }
                lo = hi + 1;
            }
        }
        Some(unsafe { (z.mk_or)(c, ors.len() as u32, ors.as_ptr()) })
    }

    fn vars_of(a: &Arena, i: Id, seen: &mut FxMap<Id, ()>, out: &mut Vec<u32>) {
        if seen.insert(i, ()).is_some() { return }
        let n = a.n(i);
        if n.op == Op::Var { out.push(i) }
        if a.masks[i as usize] == 0 { return }
        for x in [n.a, n.b, n.c] { if x != 0 { Self::vars_of(a, x, seen, out) } }
    }

    /// Decide the conjunction of `cs`.  The returned model only assigns variables occurring in `cs`.
    pub fn check(&mut self, a: &Arena, cs: &[Id]) -> Res {
        let t0 = std::time::Instant::now();
        let mut fp = false;
        for c in cs { fp |= Self::has_fp(a, *c, &mut self.fpm) }
        let solver = if fp { self.solver } else { self.simple };
        let z = self.z;
        let r = unsafe {
            (z.solver_reset)(self.c, solver);
            for &i in cs {
                let p = self.t(a, i);
                (z.solver_assert)(self.c, solver, p);
            }
            if self.err() { self.unknown += 1; return Res::Unknown("z3 error while building query".into()) }
            let r = (z.solver_check)(self.c, solver);
            match r {
                1 => {
                    let m = (z.solver_get_model)(self.c, solver);
                    (z.model_inc_ref)(self.c, m);
                    let mut vs = vec![];
                    let mut seen = FxMap::default();
                    for &i in cs { Self::vars_of(a, i, &mut seen, &mut vs) }
                    let mut model = Model::default();
                    for v in vs {
                        let mut out: P = std::ptr::null_mut();
                        let t = self.v(a, v);
                        (z.model_eval)(self.c, m, t, true, &mut out);
                        let s = CStr::from_ptr((z.get_numeral_string)(self.c, out)).to_string_lossy().into_owned();
                        model.set(a.n(v).k as u32, s.parse().unwrap_or(0));
                    }
                    (z.model_dec_ref)(self.c, m);
                    // the evaluator must agree with the solver
                    let mut memo = FxMap::default();
                    if cs.iter().all(|c| a.eval(*c, &model, &mut memo) == 1) { Res::Sat(model) }
                    else { Res::Unknown("solver model rejected by the evaluator".into()) }
                }
                -1 => Res::Unsat,
                _ => Res::Unknown(CStr::from_ptr((z.solver_get_reason_unknown)(self.c, solver)).to_string_lossy().into_owned()),
            }
        };
        let dt = t0.elapsed();
        self.queries += 1;
        self.time += dt;
        if dt > self.max_time { self.max_time = dt }
        match &r { Res::Sat(_) => self.sat += 1, Res::Unsat => self.unsat += 1, _ => self.unknown += 1 }
        r
    }
}
