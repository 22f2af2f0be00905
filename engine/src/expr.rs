//! Hash-consed bit-vector / floating-point expression DAG with a simplifier and a
//! concrete evaluator.  All values are bit-vectors (floats are their IEEE bits).
//! Width 1 is the Boolean sort.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type Id = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    #[inline]
    fn finish(&self) -> u64 { self.0 }
    #[inline]
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    #[inline]
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    #[inline]
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    #[inline]
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    #[inline]
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    #[inline]
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    #[inline]
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
pub type FxBuild = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxBuild>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, Concat, Extract, ZExt, SExt,
    FAdd, FSub, FMul, FDiv, FEq, FLt, FLe, FSqrt,
    SiToFp, UiToFp, FpToSi, FpToUi, FpExt, FpTrunc, FRound,
    /// a library function of one to three floats, chosen by `k` (see `FUNS`); opaque to the solver
    FFun,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub masks: Vec<u128>,
    pub umax: Vec<u64>,
    map: FxMap<Node, Id>,
    affs: FxMap<Id, Option<std::rc::Rc<Aff>>>,
    /// interned symbolic inputs: (order, width) -> id
    pub vars: Vec<(u32, u16)>,
    var_map: HashMap<(u32, u16), Id>,
}

#[inline]
pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub const TRUE: Id = 1;
pub const FALSE: Id = 2;

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 }],
            masks: vec![0],
            umax: vec![0],
            map: FxMap::default(),
            affs: FxMap::default(),
            vars: vec![],
            var_map: HashMap::new(),
        };
        let t = a.konst(1, 1);
        let f = a.konst(1, 0);
        assert!(t == TRUE && f == FALSE);
        a
    }

    #[inline]
    pub fn n(&self, i: Id) -> &Node { &self.nodes[i as usize] }
    #[inline]
    pub fn w(&self, i: Id) -> u32 { self.nodes[i as usize].w as u32 }
    #[inline]
    pub fn is_const(&self, i: Id) -> Option<u128> {
        let n = self.n(i);
        if n.op == Op::Const { Some(n.k) } else { None }
    }

    fn intern(&mut self, n: Node) -> Id {
        if let Some(&i) = self.map.get(&n) { return i }
        let id = self.nodes.len() as Id;
        let m = match n.op {
            Op::Const => 0,
            Op::Var => 1u128 << ((n.k as u32) % 128),
            _ => {
                let mut m = 0;
                if n.a != 0 { m |= self.masks[n.a as usize] }
                if n.b != 0 { m |= self.masks[n.b as usize] }
                if n.c != 0 { m |= self.masks[n.c as usize] }
                m
            }
        };
        let full = if n.w >= 64 { u64::MAX } else { (1u64 << n.w) - 1 };
        let um = |s: &Self, i: Id| s.umax[i as usize];
        let ub = if n.w > 64 { u64::MAX } else {
            match n.op {
                Op::Const => n.k as u64,
                Op::ZExt => um(self, n.a),
                Op::And => um(self, n.a).min(um(self, n.b)),
                Op::Or | Op::Xor => {
                    let x = um(self, n.a) | um(self, n.b);
                    if x == 0 { 0 } else { (u64::MAX >> x.leading_zeros()).min(full) }
                }
                Op::Add => um(self, n.a).checked_add(um(self, n.b)).filter(|x| *x <= full).unwrap_or(full),
                Op::Mul => um(self, n.a).checked_mul(um(self, n.b)).filter(|x| *x <= full).unwrap_or(full),
                Op::Ite => um(self, n.b).max(um(self, n.c)),
                Op::UDiv => match self.is_const(n.b) { Some(k) if k > 0 => um(self, n.a) / (k as u64), _ => full },
                Op::URem => match self.is_const(n.b) { Some(k) if k > 0 => um(self, n.a).min(k as u64 - 1), _ => full },
                Op::LShr => match self.is_const(n.b) { Some(k) if k < 64 => um(self, n.a) >> (k as u64), _ => um(self, n.a) },
                Op::Shl => match self.is_const(n.b) {
                    Some(k) if k < 64 && um(self, n.a).leading_zeros() as u128 > k => (um(self, n.a) << (k as u64)).min(full),
                    _ => full },
                Op::Extract if n.k == 0 => um(self, n.a).min(full),
                Op::Extract => {
                    if self.w(n.a) <= 64 { (um(self, n.a) >> (n.k as u64)).min(full) } else { full }
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    if lw < 64 { (um(self, n.a) << lw) | ((1u64 << lw) - 1) } else { full }
                }
                _ => full,
            }
        };
        self.nodes.push(n);
        self.masks.push(m);
        self.umax.push(ub);
        self.map.insert(n, id);
        id
    }

    pub fn konst(&mut self, w: u32, k: u128) -> Id {
        self.intern(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn bool(&self, b: bool) -> Id { if b { TRUE } else { FALSE } }

    pub fn var(&mut self, order: u32, w: u32) -> Id {
        if let Some(&i) = self.var_map.get(&(order, w as u16)) { return i }
        let idx = self.vars.len();
        self.vars.push((order, w as u16));
        let id = self.intern(Node { op: Op::Var, w: w as u16, a: 0, b: 0, c: 0, k: idx as u128 });
        self.var_map.insert((order, w as u16), id);
        id
    }

    #[inline]
    fn raw(&mut self, op: Op, w: u32, a: Id, b: Id, c: Id, k: u128) -> Id {
        self.intern(Node { op, w: w as u16, a, b, c, k })
    }

    pub fn not(&mut self, a: Id) -> Id {
        // boolean / bitwise not
        let w = self.w(a);
        if let Some(k) = self.is_const(a) { return self.konst(w, !k) }
        let n = *self.n(a);
        if w == 1 {
            match n.op {
                Op::Ult => return self.bin(Op::Ule, n.b, n.a),
                Op::Ule => return self.bin(Op::Ult, n.b, n.a),
                Op::Slt => return self.bin(Op::Sle, n.b, n.a),
                Op::Sle => return self.bin(Op::Slt, n.b, n.a),
                _ => {}
            }
        }
        let m = self.konst(w, mask(w));
        self.bin(Op::Xor, a, m)
    }

    /// If `a` is (x xor all-ones) returns x.
    pub fn as_not(&self, a: Id) -> Option<Id> {
        let n = self.n(a);
        if n.op == Op::Xor {
            if let Some(k) = self.is_const(n.b) {
                if k == mask(n.w as u32) { return Some(n.a) }
            }
        }
        None
    }

    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if c == TRUE { return a }
        if c == FALSE { return b }
        if a == b { return a }
        if let Some(x) = self.as_not(c) { return self.ite(x, b, a) }
        let w = self.w(a);
        if w == 1 {
            if a == TRUE && b == FALSE { return c }
            if a == FALSE && b == TRUE { return self.not(c) }
            if a == TRUE { return self.bin(Op::Or, c, b) }
            if b == FALSE { return self.bin(Op::And, c, a) }
            if a == FALSE { let nc = self.not(c); return self.bin(Op::And, nc, b) }
            if b == TRUE { let nc = self.not(c); return self.bin(Op::Or, nc, a) }
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b) }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c) }
        // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
        if nb.op == Op::Ite && nb.b == a {
            let cd = self.bin(Op::Or, c, nb.a);
            return self.ite(cd, a, nb.c);
        }
        self.raw(Op::Ite, w, c, a, b, 0)
    }

    pub fn extract(&mut self, a: Id, lo: u32, w: u32) -> Id {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw { return a }
        let n = *self.n(a);
        match n.op {
            Op::Const => return self.konst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw { return self.extract(n.b, lo, w) }
                if lo >= lw { return self.extract(n.a, lo - lw, w) }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.konst(w, 0) }
                if lo + w <= iw { return self.extract(n.a, lo, w) }
                let e = self.extract(n.a, lo, iw - lo);
                return self.zext(e, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w) }
                if lo == 0 { return self.sext(n.a, w) }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.is_const(n.b).is_some() || self.n(n.a).op == Op::Concat || self.n(n.b).op == Op::Concat {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                // a number that is written to memory and read back stays a choice between numbers
                if (aw == 64 || aw == 32) && w % 8 == 0 && self.chooses_float(a, &mut 64) { return self.raw(Op::Extract, w, a, 0, 0, lo as u128) }
                let cheap = |s: &Self, i: Id| matches!(s.n(i).op, Op::Const | Op::Concat | Op::ZExt);
                if cheap(self, n.b) || cheap(self, n.c) {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::LShr => {
                if let Some(k) = self.is_const(n.b) {
                    let k = k as u32;
                    if (k + lo + w) <= aw { return self.extract(n.a, lo + k, w) }
                    if k + lo >= aw { return self.konst(w, 0) }
                }
            }
            Op::Shl => {
                if let Some(k) = self.is_const(n.b) {
                    let k = k as u32;
                    if lo >= k { return self.extract(n.a, lo - k, w) }
                    if lo + w <= k { return self.konst(w, 0) }
                }
            }
            _ => {}
        }
        if aw <= 64 && lo < 64 && (self.umax[a as usize] >> lo) == 0 { return self.konst(w, 0) }
        self.raw(Op::Extract, w, a, 0, 0, lo as u128)
    }

    fn chooses_float(&self, i: Id, budget: &mut u32) -> bool {
        if *budget == 0 { return false }
        *budget -= 1;
        let n = self.n(i);
        match n.op {
            Op::Ite => self.chooses_float(n.b, budget) || self.chooses_float(n.c, budget),
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::SiToFp | Op::UiToFp | Op::FpExt | Op::FpTrunc | Op::FRound | Op::FFun => true,
            _ => false,
        }
    }

    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let Some(hk) = self.is_const(h) {
            if let Some(lk) = self.is_const(l) { return self.konst(w, (hk << lw) | lk) }
            if hk == 0 { return self.zext(l, w) }
        }
        let (hn, ln) = (*self.n(h), *self.n(l));
        if hn.op == Op::Extract {
            if ln.op == Op::Extract && hn.a == ln.a && ln.k as u32 + lw == hn.k as u32 {
                return self.extract(hn.a, ln.k as u32, w);
            }
            // extract(x, lw..) ++ x[0..lw] when l is Var-sized low part of same value
            if hn.a == l && hn.k == 0 && false { unreachable!() }
        }
        // (x ++ extract(y,hi)) ++ extract(y,lo)
        if hn.op == Op::Concat && ln.op == Op::Extract {
            let m = *self.n(hn.b);
            if m.op == Op::Extract && m.a == ln.a && ln.k as u32 + lw == m.k as u32 {
                let r = self.extract(ln.a, ln.k as u32, lw + m.w as u32);
                return self.concat(hn.a, r);
            }
        }
        // zext(extract(y,hi)) ++ extract(y,lo) = zext(...)
        if hn.op == Op::ZExt {
            let r = self.concat(hn.a, l);
            return self.zext(r, w);
        }
        // ite(c,k1,k2) ++ ite(c,k3,k4)
        if hn.op == Op::Ite && ln.op == Op::Ite && hn.a == ln.a {
            let x = self.concat(hn.b, ln.b);
            let y = self.concat(hn.c, ln.c);
            return self.ite(hn.a, x, y);
        }
        self.raw(Op::Concat, w, h, l, 0, 0)
    }

    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w { return a }
        debug_assert!(aw < w);
        let n = *self.n(a);
        match n.op {
            Op::Const => return self.konst(w, n.k),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        if aw == 1 {
            let x = self.konst(w, 1);
            let y = self.konst(w, 0);
            return self.ite(a, x, y);
        }
        self.raw(Op::ZExt, w, a, 0, 0, 0)
    }

    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w { return a }
        let n = *self.n(a);
        match n.op {
            Op::Const => return self.konst(w, sext(n.k, aw) as u128),
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        if aw == 1 {
            let x = self.konst(w, mask(w));
            let y = self.konst(w, 0);
            return self.ite(a, x, y);
        }
        if aw <= 64 && self.umax[a as usize] < (1u64 << (aw - 1)) { return self.zext(a, w) }
        self.raw(Op::SExt, w, a, 0, 0, 0)
    }

    /// Constant leaves of an ite tree, if every leaf is constant (bounded size).
    fn ite_const_leaves(&self, a: Id, budget: &mut u32) -> bool {
        if *budget == 0 { return false }
        *budget -= 1;
        let n = self.n(a);
        match n.op {
            Op::Const => true,
            Op::Ite => self.ite_const_leaves(n.b, budget) && self.ite_const_leaves(n.c, budget),
            _ => false,
        }
    }

    fn map_ite(&mut self, a: Id, f: &mut dyn FnMut(&mut Self, Id) -> Id) -> Id {
        let n = *self.n(a);
        if n.op == Op::Ite {
            let x = self.map_ite(n.b, f);
            let y = self.map_ite(n.c, f);
            self.ite(n.a, x, y)
        } else {
            f(self, a)
        }
    }

    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe => 1, _ => w };
        let (ka, kb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let r = eval_bin(op, w, x, y);
            return self.konst(rw, r);
        }
        // canonical: constant on the right for commutative ops
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::FAdd | Op::FMul | Op::FEq => {
                if ka.is_some() || (kb.is_none() && a > b) { return self.bin2(op, w, rw, b, a, None, ka) }
            }
            _ => {}
        }
        self.bin2(op, w, rw, a, b, ka, kb)
    }

    fn bin2(&mut self, op: Op, w: u32, rw: u32, a: Id, b: Id, ka: Option<u128>, kb: Option<u128>) -> Id {
        let na = *self.n(a);
        let nb = *self.n(b);
        let full = mask(w);
        match op {
            Op::Add => {
                if kb == Some(0) { return a }
                if let Some(k) = kb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.is_const(na.b) {
                            let kk = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                    let mut bud = 32;
                    if na.op == Op::Ite && self.ite_const_leaves(a, &mut bud) {
                        return self.map_ite(a, &mut |s, x| s.bin(Op::Add, x, b));
                    }
                } else {
                    if na.op == Op::Add && self.is_const(na.b).is_some() {
                        let t = self.bin(Op::Add, na.a, b);
                        return self.bin(Op::Add, t, na.b);
                    }
                    if nb.op == Op::Add && self.is_const(nb.b).is_some() {
                        let t = self.bin(Op::Add, a, nb.a);
                        return self.bin(Op::Add, t, nb.b);
                    }
                }
            }
            Op::Sub => {
                if a == b { return self.konst(w, 0) }
                if let Some(k) = kb {
                    let kk = self.konst(w, (0u128).wrapping_sub(k));
                    return self.bin(Op::Add, a, kk);
                }
                if na.op == Op::Add {
                    if na.a == b { return na.b }
                    if na.b == b { return na.a }
                    if self.is_const(na.b).is_some() {
                        let t = self.bin(Op::Sub, na.a, b);
                        return self.bin(Op::Add, t, na.b);
                    }
                }
                if nb.op == Op::Add {
                    if let Some(k) = self.is_const(nb.b) {
                        let t = self.bin(Op::Sub, a, nb.a);
                        let kk = self.konst(w, (0u128).wrapping_sub(k));
                        return self.bin(Op::Add, t, kk);
                    }
                }
            }
            Op::Mul => {
                if kb == Some(0) { return b }
                if kb == Some(1) { return a }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if kb == Some(1) { return a }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                    if w <= 64 && k > 0 && (self.umax[a as usize] as u128) < k { return self.konst(w, 0) }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                    if w <= 64 && k > 0 && (self.umax[a as usize] as u128) < k { return a }
                }
            }
            Op::And => {
                if a == b { return a }
                if kb == Some(0) { return b }
                if kb == Some(full) { return a }
                if let Some(k) = kb {
                    if w <= 64 {
                        let um = self.umax[a as usize] as u128;
                        let cover = if um == 0 { 0 } else { u64::MAX as u128 >> (um as u64).leading_zeros() };
                        if cover & k == cover { return a }
                        if cover & k == 0 { return self.konst(w, 0) }
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.is_const(na.b) {
                            let kk = self.konst(w, k & k2);
                            return self.bin(Op::And, na.a, kk);
                        }
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let kk = self.konst(iw, k);
                        let t = self.bin(Op::And, na.a, kk);
                        return self.zext(t, w);
                    }
                    // low mask -> zext(extract)
                    if (k & (k + 1)) == 0 && k != 0 {
                        let bits = 128 - k.leading_zeros();
                        if bits < w {
                            let t = self.extract(a, 0, bits);
                            return self.zext(t, w);
                        }
                    }
                    if na.op == Op::Concat {
                        let lw = self.w(na.b);
                        let kh = self.konst(w - lw, k >> lw);
                        let kl = self.konst(lw, k);
                        let h = self.bin(Op::And, na.a, kh);
                        let l = self.bin(Op::And, na.b, kl);
                        return self.concat(h, l);
                    }
                    let mut bud = 32;
                    if na.op == Op::Ite && self.ite_const_leaves(a, &mut bud) {
                        return self.map_ite(a, &mut |s, x| s.bin(Op::And, x, b));
                    }
                }
                if w == 1 {
                    if self.as_not(a) == Some(b) || self.as_not(b) == Some(a) { return FALSE }
                    // absorption a & (a & x)
                    if nb.op == Op::And && (nb.a == a || nb.b == a) { return b }
                    if na.op == Op::And && (na.a == b || na.b == b) { return a }
                    // (x == k1) & (x == k2) with k1 != k2
                    if na.op == Op::Eq && nb.op == Op::Eq && na.a == nb.a {
                        if let (Some(x), Some(y)) = (self.is_const(na.b), self.is_const(nb.b)) {
                            if x != y { return FALSE }
                        }
                    }
                }
            }
            Op::Or => {
                if a == b { return a }
                if kb == Some(0) { return a }
                if kb == Some(full) { return b }
                if w == 1 {
                    if self.as_not(a) == Some(b) || self.as_not(b) == Some(a) { return TRUE }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b }
                    if na.op == Op::Or && (na.a == b || na.b == b) { return a }
                } else {
                    // (zext x) | (y << k) with disjoint ranges -> concat
                    for (p, q) in [(a, b), (b, a)] {
                        let (np, nq) = (*self.n(p), *self.n(q));
                        if np.op == Op::ZExt && nq.op == Op::Shl {
                            if let Some(k) = self.is_const(nq.b) {
                                let k = k as u32;
                                if k >= self.w(np.a) && k < w {
                                    let h = self.extract(nq.a, 0, w - k);
                                    let l = self.zext(np.a, k);
                                    return self.concat(h, l);
                                }
                            }
                        }
                        // concat(h, 0..) | zext(x)
                        if np.op == Op::ZExt && nq.op == Op::Concat && self.is_const(nq.b) == Some(0) {
                            let lw = self.w(nq.b);
                            if self.w(np.a) <= lw {
                                let l = self.zext(np.a, lw);
                                return self.concat(nq.a, l);
                            }
                        }
                    }
                    if let Some(k) = kb {
                        if na.op == Op::Concat {
                            let lw = self.w(na.b);
                            let kh = self.konst(w - lw, k >> lw);
                            let kl = self.konst(lw, k);
                            let h = self.bin(Op::Or, na.a, kh);
                            let l = self.bin(Op::Or, na.b, kl);
                            return self.concat(h, l);
                        }
                        if na.op == Op::ZExt && (k >> self.w(na.a)) == 0 {
                            let iw = self.w(na.a);
                            let kk = self.konst(iw, k);
                            let t = self.bin(Op::Or, na.a, kk);
                            return self.zext(t, w);
                        }
                    }
                }
            }
            Op::Xor => {
                if a == b { return self.konst(w, 0) }
                if kb == Some(0) { return a }
                if let Some(k) = kb {
                    if na.op == Op::Xor {
                        if let Some(k2) = self.is_const(na.b) {
                            let kk = self.konst(w, k ^ k2);
                            return self.bin(Op::Xor, na.a, kk);
                        }
                    }
                    if w == 1 && k == 1 {
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                    let mut bud = 32;
                    if na.op == Op::Ite && w > 1 && self.ite_const_leaves(a, &mut bud) {
                        return self.map_ite(a, &mut |s, x| s.bin(Op::Xor, x, b));
                    }
                } else if w > 1 && na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    let t = self.bin(Op::Xor, na.a, nb.a);
                    return self.zext(t, w);
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if kb == Some(0) { return a }
                if let Some(k) = kb {
                    if k >= w as u128 && op != Op::AShr { return self.konst(w, 0) }
                    let k = k as u32;
                    if op == Op::Shl {
                        if k >= w { return self.konst(w, 0) }
                        let h = self.extract(a, 0, w - k);
                        let z = self.konst(k, 0);
                        return self.concat(h, z);
                    }
                    if op == Op::LShr {
                        let h = self.extract(a, k, w - k);
                        return self.zext(h, w);
                    }
                    if op == Op::AShr && k < w {
                        let h = self.extract(a, k, w - k);
                        return self.sext(h, w);
                    }
                }
                if ka == Some(0) { return a }
            }
            Op::Eq => {
                if a == b { return TRUE }
                if w == 1 {
                    if let Some(k) = kb { return if k == 1 { a } else { self.not(a) } }
                    // iff
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                if let Some(k) = kb {
                    if w <= 64 && k > self.umax[a as usize] as u128 { return FALSE }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k >> iw != 0 { return FALSE }
                            let kk = self.konst(iw, k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let t = k & mask(iw);
                            if sext(t, iw) as u128 & full != k { return FALSE }
                            let kk = self.konst(iw, t);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Add => {
                            if let Some(k2) = self.is_const(na.b) {
                                let kk = self.konst(w, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.is_const(na.b) {
                                let kk = self.konst(w, k ^ k2);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                            if k == 0 { return self.bin(Op::Eq, na.a, na.b) }
                        }
                        Op::Or if k == 0 => {
                            let z = self.konst(w, 0);
                            let x = self.bin(Op::Eq, na.a, z);
                            let y = self.bin(Op::Eq, na.b, z);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let kh = self.konst(w - lw, k >> lw);
                            let kl = self.konst(lw, k);
                            let x = self.bin(Op::Eq, na.a, kh);
                            if x == FALSE { return FALSE }
                            let y = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            // push into ite when it helps
                            let (tb, tc) = (self.is_const(na.b), self.is_const(na.c));
                            if tb.is_some() || tc.is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                } else {
                    if na.op == Op::ZExt && nb.op == Op::ZExt {
                        let (wa, wb) = (self.w(na.a), self.w(nb.a));
                        let m = wa.max(wb);
                        let x = self.zext(na.a, m);
                        let y = self.zext(nb.a, m);
                        return self.bin(Op::Eq, x, y);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.bin(Op::Eq, na.a, nb.a);
                        let y = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, x, y);
                    }
                    if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b { return self.bin(Op::Eq, na.a, nb.a) }
                    if na.op == Op::Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() && nb.op == Op::Ite
                        && self.is_const(nb.b).is_some() && self.is_const(nb.c).is_some() {
                        let x = self.bin(Op::Eq, na.b, b);
                        let y = self.bin(Op::Eq, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b { return self.bool(op == Op::Ule) }
                if w <= 64 {
                    let (ua, ub) = (self.umax[a as usize] as u128, self.umax[b as usize] as u128);
                    if let Some(k) = kb {
                        if op == Op::Ult {
                            if k == 0 { return FALSE }
                            if ua < k { return TRUE }
                            if k == 1 { let z = self.konst(w, 0); return self.bin(Op::Eq, a, z) }
                        } else {
                            if ua <= k { return TRUE }
                            if k == 0 { let z = self.konst(w, 0); return self.bin(Op::Eq, a, z) }
                            // a <= k  ->  a < k+1
                            let kk = self.konst(w, k + 1);
                            return self.bin(Op::Ult, a, kk);
                        }
                    }
                    if let Some(k) = ka {
                        if op == Op::Ult {
                            if k >= ub { return FALSE }
                            // k < b  ->  !(b < k+1)
                            let kk = self.konst(w, k + 1);
                            let t = self.bin(Op::Ult, b, kk);
                            let m = self.konst(1, 1);
                            return if self.is_const(t).is_some() { self.not(t) } else { self.raw(Op::Xor, 1, t, m, 0, 0) };
                        } else {
                            if k == 0 { return TRUE }
                            if k > ub { return FALSE }
                            let t = self.bin(Op::Ult, b, a);
                            let m = self.konst(1, 1);
                            return if self.is_const(t).is_some() { self.not(t) } else { self.raw(Op::Xor, 1, t, m, 0, 0) };
                        }
                    }
                }
                if let Some(k) = kb {
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k >> iw != 0 { return TRUE }
                        let kk = self.konst(iw, k);
                        return self.bin(op, na.a, kk);
                    }
                    if na.op == Op::Ite && (self.is_const(na.b).is_some() && self.is_const(na.c).is_some()) {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.bool(op == Op::Sle) }
                // both non-negative -> unsigned
                if w <= 64 {
                    let half = 1u64 << (w - 1);
                    if self.umax[a as usize] < half && self.umax[b as usize] < half {
                        return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                    }
                }
                if let Some(k) = kb {
                    // x < 0  -> sign bit
                    if op == Op::Slt && k == 0 {
                        return self.extract(a, w - 1, 1);
                    }
                    if op == Op::Sle && k == full {
                        return self.extract(a, w - 1, 1);
                    }
                }
                if let Some(k) = ka {
                    // -1 < x  -> !sign
                    if op == Op::Slt && k == full { let s = self.extract(b, w - 1, 1); return self.not(s) }
                    if op == Op::Sle && k == 0 { let s = self.extract(b, w - 1, 1); return self.not(s) }
                }
                if let Some(k) = kb {
                    if na.op == Op::Ite && (self.is_const(na.b).is_some() && self.is_const(na.c).is_some()) {
                        let _ = k;
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                    if na.op == Op::SExt {
                        let iw = self.w(na.a);
                        let t = k & mask(iw);
                        if (sext(t, iw) as u128 & full) == k {
                            let kk = self.konst(iw, t);
                            return self.bin(op, na.a, kk);
                        }
                    }
                }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
            }
            Op::FAdd | Op::FSub | Op::FEq | Op::FLt | Op::FLe => {
                if let Some(r) = self.int_fp(op, w, a, b) { return r }
                if matches!(op, Op::FEq | Op::FLt | Op::FLe) {
                    if let Some(r) = self.monotone_cmp(op, a, b, ka, kb) { return r }
                    if self.n(a).op == Op::Ite || self.n(b).op == Op::Ite {
                        let mut budget = 2000;
                        if let Some(r) = self.cmp_choices(op, a, b, &mut budget, 0) { return r }
                    }
                }
                if w == 64 && matches!(op, Op::FEq | Op::FLt | Op::FLe) {
                    if let Some(r) = self.aff_cmp(op, a, b) { return self.bool(r) }
                }
            }
            _ => {}
        }
        self.raw(op, rw, a, b, 0, 0)
    }

    /// Exact integer view of a float-valued node: Some((signed int node, magnitude bits bound)).
    fn as_int_fp(&mut self, a: Id) -> Option<(Id, u32)> {
        let n = *self.n(a);
        match n.op {
            Op::SiToFp => {
                // k caches the magnitude bound in bits
                let iw = self.w(n.a);
                Some((n.a, if n.k != 0 { n.k as u32 } else { iw }))
            }
            Op::Const => {
                let v = if n.w == 64 { f64::from_bits(n.k as u64) } else if n.w == 32 { f32::from_bits(n.k as u32) as f64 } else { return None };
                if v == v.trunc() && v.abs() < 1e9 && !(v == 0.0 && v.is_sign_negative()) {
                    let i = v as i64;
                    let bits = 65 - (i.unsigned_abs()).leading_zeros().min(64);
                    Some((self.konst(64, i as u64 as u128), bits))
                } else { None }
            }
            _ => None,
        }
    }

    /// Integer-valued floats of small magnitude: comparisons, sums and differences are exact,
    /// so they are rewritten to 64-bit integer arithmetic.  (-0.0 never arises from an
    /// integer conversion; x - x is +0.0 in round-to-nearest.)
    fn int_fp(&mut self, op: Op, w: u32, a: Id, b: Id) -> Option<Id> {
        let lim = if w == 64 { 53 } else { 24 };
        let (ia, ba) = self.as_int_fp(a)?;
        let (ib, bb) = self.as_int_fp(b)?;
        if ba > lim || bb > lim { return None }
        let x = if self.w(ia) < 64 { self.sext(ia, 64) } else { ia };
        let y = if self.w(ib) < 64 { self.sext(ib, 64) } else { ib };
        match op {
            Op::FEq => Some(self.bin(Op::Eq, x, y)),
            Op::FLt => Some(self.bin(Op::Slt, x, y)),
            Op::FLe => Some(self.bin(Op::Sle, x, y)),
            Op::FAdd | Op::FSub => {
                let bits = ba.max(bb) + 1;
                if bits > lim { return None }
                let s = self.bin(if op == Op::FAdd { Op::Add } else { Op::Sub }, x, y);
                if let Some(k) = self.is_const(s) {
                    let v = sext(k, 64) as f64;
                    return Some(if w == 64 { self.konst(64, v.to_bits() as u128) } else { self.konst(32, (v as f32).to_bits() as u128) });
                }
                Some(self.raw(Op::SiToFp, w, s, 0, 0, bits as u128))
            }
            _ => None,
        }
    }

    /// A comparison of choices between numbers, where comparing each pair is decided or comes down to integers.
    fn cmp_choices(&mut self, op: Op, a: Id, b: Id, budget: &mut u32, depth: u32) -> Option<Id> {
        *budget = budget.checked_sub(1)?;
        if depth > 1000 { return None }
        let (na, nb) = (*self.n(a), *self.n(b));
        if a == b {
            self.aff(a)?;
            return Some(self.bool(op != Op::FLt));
        }
        for (n, first) in [(na, true), (nb, false)] {
            if n.op != Op::Ite { continue }
            let (x, y) = if first { ((n.b, b), (n.c, b)) } else { ((a, n.b), (a, n.c)) };
            let t = self.cmp_choices(op, x.0, x.1, budget, depth + 1)?;
            let e = self.cmp_choices(op, y.0, y.1, budget, depth + 1)?;
            return Some(if t == e { t } else { self.ite(n.a, t, e) });
        }
        let (ka, kb) = (self.is_const(a), self.is_const(b));
        if ka.is_some() && kb.is_some() { return Some(self.bin(op, a, b)) }
        if let Some(r) = self.monotone_cmp(op, a, b, ka, kb) { return Some(r) }
        if na.w == 64 { if let Some(r) = self.aff_cmp(op, a, b) { return Some(self.bool(r)) } }
        None
    }

    /// A comparison of a constant with a monotone function of one integer: every rounded operation with
    /// a constant is monotone, so the integers for which it holds are found by bisection with the exact arithmetic.
    fn monotone_cmp(&mut self, op: Op, a: Id, b: Id, ka: Option<u128>, kb: Option<u128>) -> Option<Id> {
        let (c, left) = match (ka, kb) { (Some(c), None) => (c, true), (None, Some(c)) => (c, false), _ => return None };
        let cw = self.w(a);
        let mut steps: Vec<(Op, u32, u32, u128, bool)> = vec![]; // operation, widths before and after, constant, constant on the left
        let mut x = if left { b } else { a };
        let mut up = true;
        let positive = |w: u32, k: u128| k >> (w - 1) & 1 == 0;
        let (leaf, signed, base) = loop {
            if steps.len() > 2000 { return None }
            let n = *self.n(x);
            let w = n.w as u32;
            match n.op {
                Op::FAdd | Op::FMul | Op::FSub => {
                    let (y, k, l) = match (self.is_const(n.a), self.is_const(n.b)) { (Some(k), None) => (n.b, k, true), (None, Some(k)) => (n.a, k, false), _ => return None };
                    if n.op == Op::FMul && !positive(w, k) || n.op == Op::FSub && l { up = !up }
                    steps.push((n.op, w, w, k, l));
                    x = y;
                }
                Op::FDiv => {
                    let k = self.is_const(n.b)?;
                    if !positive(w, k) { up = !up }
                    steps.push((n.op, w, w, k, false));
                    x = n.a;
                }
                Op::FpExt | Op::FpTrunc | Op::FSqrt | Op::FRound => {
                    steps.push((n.op, self.w(n.a), w, n.k, false));
                    x = n.a;
                }
                Op::SiToFp | Op::UiToFp => {
                    let i = *self.n(n.a);
                    let small = (n.op == Op::UiToFp || n.k != 0) && i.op == Op::ZExt;
                    let (leaf, signed) = if i.op == Op::SExt && n.op == Op::SiToFp { (i.a, true) } else if i.op == Op::ZExt || small { (i.a, false) } else { (n.a, n.op == Op::SiToFp) };
                    break (leaf, signed, (n.op, self.w(n.a), w, 0));
                }
                Op::Concat => {
                    let k = self.is_const(n.a)?;
                    // a positive number, the lower bits of which are the integer
                    let (hw, lw) = (self.w(n.a), self.w(n.b));
                    if hw < if w == 64 { 12 } else { 9 } || w != 64 && w != 32 || !positive(hw, k) { return None }
                    break (n.b, false, (Op::Concat, lw, w, k << lw));
                }
                Op::Or => {
                    let k = self.is_const(n.b)?;
                    let i = *self.n(n.a);
                    if w != 64 && w != 32 || !positive(w, k) || i.op != Op::ZExt { return None }
                    if k & mask(self.w(i.a)) != 0 { return None }
                    break (i.a, false, (Op::Concat, w, w, k));
                }
                _ => return None,
            }
        };
        let lw = self.w(leaf);
        if lw > 64 || lw < 2 { return None }
        let value = |v: i128| -> Option<u128> {
            let (o, iw, w, k) = base;
            let mut r = match o { Op::Concat => k | v as u128, _ => eval_un(o, iw, w, v as u128 & mask(iw), 0) };
            if !(if w == 64 { f64b(r).is_finite() } else { f32b(r).is_finite() }) { return None }
            for (o, w0, w1, k, l) in steps.iter().rev() {
                r = match o {
                    Op::FAdd | Op::FMul | Op::FSub | Op::FDiv => if *l { eval_bin(*o, *w0, *k, r) } else { eval_bin(*o, *w0, r, *k) },
                    _ => eval_un(*o, *w0, *w1, r, *k),
                };
                if !(if *w1 == 64 { f64b(r).is_finite() } else { f32b(r).is_finite() }) { return None }
            }
            Some(r)
        };
        let (lo, hi) = if signed { (-(1i128 << (lw - 1)), (1i128 << (lw - 1)) - 1) } else { (0, self.umax[leaf as usize] as i128) };
        value(lo)?;
        value(hi)?;
        if if cw == 64 { f64b(c).is_nan() } else { f32b(c).is_nan() } { return Some(FALSE) }
        // how many integers from lo on satisfy a condition that holds for a first stretch of them
        let stretch = |f: &dyn Fn(u128) -> bool| -> i128 {
            let (mut l, mut h) = (lo, hi + 1);
            while l < h {
                let m = l + (h - l) / 2;
                if f(value(m).unwrap_or(0)) { l = m + 1 } else { h = m }
            }
            l
        };
        let below = |s: &mut Self, t: i128| if t > hi { TRUE } else if t <= lo { FALSE } else { let k = s.konst(lw, t as u128 & mask(lw)); s.bin(if signed { Op::Slt } else { Op::Ult }, leaf, k) };
        let lt = |x: u128, y: u128| eval_bin(Op::FLt, cw, x, y) == 1;
        // where the value is below / not above the constant
        let under = stretch(&|v| if up { lt(v, c) } else { lt(c, v) });
        let upto = stretch(&|v| if up { !lt(c, v) } else { !lt(v, c) });
        // up: value < c is i < under, value <= c is i < upto;  down: value > c is i < under, value >= c is i < upto
        let (u, t) = (below(self, under), below(self, upto));
        Some(match (op, left == up) {
            (Op::FEq, _) => { let n = self.not(u); self.bin(Op::And, n, t) }
            (Op::FLt, false) => u,                  // value < c going up, c < value going down
            (Op::FLt, true) => self.not(t),         // c < value going up, value < c going down
            (_, false) => t,
            (_, true) => self.not(u),
        })
    }

    pub fn un(&mut self, op: Op, a: Id, w: u32, k: u128) -> Id {
        if let Some(x) = self.is_const(a) {
            let aw = self.w(a);
            let r = eval_un(op, aw, w, x, k);
            return self.konst(w, r);
        }
        if op == Op::FpToSi || op == Op::FpToUi {
            let n = *self.n(a);
            if n.op == Op::SiToFp && op == Op::FpToSi {
                let iw = self.w(n.a);
                if iw <= w { return self.sext(n.a, w) }
            }
        }
        if op == Op::UiToFp {
            // unsigned of known-small range -> signed conversion
            let aw = self.w(a);
            if aw <= 64 && self.umax[a as usize] < (1 << 40) {
                let bits = 65 - self.umax[a as usize].leading_zeros().min(64);
                let x = if aw < 64 { self.zext(a, 64) } else { a };
                return self.raw(Op::SiToFp, w, x, 0, 0, bits as u128);
            }
        }
        self.raw(op, w, a, 0, 0, k)
    }

    /// A library function applied to floats.
    pub fn fun(&mut self, k: usize, w: u32, x: &[Id]) -> Id {
        let g = |i: usize| x.get(i).copied();
        let c: Vec<Option<u128>> = x.iter().map(|i| self.is_const(*i)).collect();
        if c.iter().all(|c| c.is_some()) {
            let v = |i: usize| c.get(i).copied().flatten().unwrap_or(0);
            let r = eval_fun(k, w, v(0), v(1), v(2));
            return self.konst(w, r);
        }
        self.raw(Op::FFun, w, x[0], g(1).unwrap_or(0), g(2).unwrap_or(0), k as u128)
    }

    /// Evaluate under a model (missing variables are 0).
    pub fn eval(&self, id: Id, model: &Model, memo: &mut FxMap<Id, u128>) -> u128 {
        let n = *self.n(id);
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.k as u32) & mask(n.w as u32),
            _ => {}
        }
        if let Some(&v) = memo.get(&id) { return v }
        let w = n.w as u32;
        let r = match n.op {
            Op::Ite => {
                if self.eval(n.a, model, memo) & 1 == 1 { self.eval(n.b, model, memo) } else { self.eval(n.c, model, memo) }
            }
            Op::Concat => {
                let h = self.eval(n.a, model, memo);
                let l = self.eval(n.b, model, memo);
                (h << self.w(n.b)) | l
            }
            Op::Extract => (self.eval(n.a, model, memo) >> (n.k as u32)) & mask(w),
            Op::ZExt => self.eval(n.a, model, memo),
            Op::SExt => sext(self.eval(n.a, model, memo), self.w(n.a)) as u128 & mask(w),
            Op::SiToFp | Op::UiToFp | Op::FpToSi | Op::FpToUi | Op::FpExt | Op::FpTrunc | Op::FSqrt | Op::FRound => {
                let x = self.eval(n.a, model, memo);
                eval_un(n.op, self.w(n.a), w, x, n.k)
            }
            Op::FFun => {
                let x = self.eval(n.a, model, memo);
                let y = if n.b != 0 { self.eval(n.b, model, memo) } else { 0 };
                let z = if n.c != 0 { self.eval(n.c, model, memo) } else { 0 };
                eval_fun(n.k as usize, w, x, y, z)
            }
            op => {
                let x = self.eval(n.a, model, memo);
                let y = self.eval(n.b, model, memo);
                eval_bin(op, self.w(n.a), x, y)
            }
        };
        memo.insert(id, r);
        r
    }
}

impl Arena {
    /// The nodes below `root` in evaluation order, with the places of their operands.
    pub fn compile(&self, root: Id) -> Vec<(Id, [u32; 3])> {
        let mut order = vec![];
        let mut place: FxMap<Id, u32> = FxMap::default();
        let mut st = vec![(root, false)];
        while let Some((i, ready)) = st.pop() {
            if place.contains_key(&i) { continue }
            let n = self.n(i);
            if ready {
                let p = |x: Id| if x == 0 { 0 } else { place[&x] };
                let e = (i, [p(n.a), p(n.b), p(n.c)]);
                place.insert(i, order.len() as u32);
                order.push(e);
            } else {
                st.push((i, true));
                for x in [n.a, n.b, n.c] { if x != 0 { st.push((x, false)) } }
            }
        }
        order
    }
    /// Evaluate a compiled node; variables are set in `vals` already.
    pub fn run(&self, prog: &[(Id, [u32; 3])], vals: &mut [u128]) -> u128 {
        for (j, (i, o)) in prog.iter().enumerate() {
            let n = self.n(*i);
            let w = n.w as u32;
            vals[j] = match n.op {
                Op::Const => n.k,
                Op::Var => continue,
                Op::Ite => if vals[o[0] as usize] & 1 == 1 { vals[o[1] as usize] } else { vals[o[2] as usize] },
                Op::Concat => (vals[o[0] as usize] << self.w(n.b)) | vals[o[1] as usize],
                Op::Extract => (vals[o[0] as usize] >> (n.k as u32)) & mask(w),
                Op::ZExt => vals[o[0] as usize],
                Op::SExt => sext(vals[o[0] as usize], self.w(n.a)) as u128 & mask(w),
                Op::SiToFp | Op::UiToFp | Op::FpToSi | Op::FpToUi | Op::FpExt | Op::FpTrunc | Op::FSqrt | Op::FRound => eval_un(n.op, self.w(n.a), w, vals[o[0] as usize], n.k),
                Op::FFun => eval_fun(n.k as usize, w, vals[o[0] as usize], vals[o[1] as usize], vals[o[2] as usize]),
                op => eval_bin(op, self.w(n.a), vals[o[0] as usize], vals[o[1] as usize]),
            };
        }
        vals[prog.len() - 1]
    }
}

// ---- ranges and rounding errors of floating-point terms ------------------------------------

/// value = sum of coefficient * term + c, up to an absolute error; every term has a range.
/// Terms are integers below a conversion, or floating-point nodes taken as they are.
#[derive(Clone, Debug)]
pub struct Aff { t: Vec<(Id, f64, f64, f64)>, c: f64, err: f64 }
const U: f64 = 1.2e-16;
/// multiplying by this is exact
fn pow2(k: f64) -> bool { k.to_bits() << 12 == 0 && k.abs() > 1e-20 && k.abs() < 1e20 }
impl Aff {
    fn range(&self) -> (f64, f64) {
        let (mut lo, mut hi, mut m) = (self.c, self.c, self.c.abs());
        for (_, k, l, h) in &self.t {
            let (p, q) = (k * l, k * h);
            lo += p.min(q);
            hi += p.max(q);
            m += p.abs().max(q.abs());
        }
        let e = self.err + if self.t.is_empty() { 0.0 } else { m * U * 4.0 * (self.t.len() + 1) as f64 };
        (lo - e, hi + e)
    }
    fn mag(&self) -> f64 { let (l, h) = self.range(); l.abs().max(h.abs()) }
    /// the coefficients are computed with rounding: the slack this causes
    fn slack(&self) -> f64 { self.t.iter().map(|(_, k, l, h)| k.abs() * l.abs().max(h.abs())).sum::<f64>() + self.c.abs() }
    fn scale(&self, k: f64) -> Aff {
        let mut r = Aff { t: self.t.iter().map(|(i, c, l, h)| (*i, c * k, *l, *h)).collect(), c: self.c * k, err: 0.0 };
        r.err = self.err * k.abs() * (1.0 + 4.0 * U) + if pow2(k) { 0.0 } else { r.slack() * U };
        r
    }
    fn plus(&self, o: &Aff, sign: f64) -> Aff {
        let mut r = self.clone();
        let before = self.slack() + o.slack();
        for (i, k, l, h) in &o.t {
            match r.t.iter_mut().find(|x| x.0 == *i) { Some(x) => x.1 += sign * k, None => r.t.push((*i, sign * k, *l, *h)) }
        }
        r.t.retain(|x| x.1 != 0.0);
        r.c += sign * o.c;
        r.err = self.err + o.err;
        // coefficients that cancel or are small whole numbers are exact
        let exact = |x: f64| x == x.trunc() && x.abs() < 1e15;
        if !(self.t.iter().chain(&o.t).all(|x| exact(x.1 * 4096.0)) && exact(self.c * 4096.0) && exact(o.c * 4096.0)) { r.err += before * U * 2.0 }
        r
    }
}
impl Arena {
    fn int_aff(&self, i: Id, k: f64, out: &mut Aff, depth: u32) -> Option<()> {
        let n = *self.n(i);
        let w = n.w as u32;
        if w > 64 || depth > 24 { return None }
        match n.op {
            Op::Const => { let v = sext(n.k, w) as f64; if v.abs() > 9e15 { return None } out.c += k * v }
            Op::Add if w == 64 => { self.int_aff(n.a, k, out, depth + 1)?; self.int_aff(n.b, k, out, depth + 1)? }
            Op::Sub if w == 64 => { self.int_aff(n.a, k, out, depth + 1)?; self.int_aff(n.b, -k, out, depth + 1)? }
            _ => {
                let (t, lo, hi) = match n.op {
                    Op::SExt => { let iw = self.w(n.a); let m = 2f64.powi(iw as i32 - 1); (n.a, -m, m - 1.0) }
                    Op::ZExt => (n.a, 0.0, self.umax[n.a as usize] as f64),
                    _ => if w <= 64 && self.umax[i as usize] < 1 << (w - 1).min(52) { (i, 0.0, self.umax[i as usize] as f64) } else if w <= 48 { let m = 2f64.powi(w as i32 - 1); (i, -m, m - 1.0) } else { return None },
                };
                // the same inner node read as signed and as unsigned are different terms
                let t = if n.op == Op::SExt { t } else { t | 0x8000_0000 };
                if hi > 9e15 { return None }
                match out.t.iter_mut().find(|x| x.0 == t) { Some(x) => x.1 += k, None => out.t.push((t, k, lo, hi)) }
            }
        }
        Some(())
    }
    pub fn aff(&mut self, i: Id) -> Option<std::rc::Rc<Aff>> {
        if let Some(r) = self.affs.get(&i) { return r.clone() }
        let r = self.aff_of(i).filter(|r| { let m = r.mag(); m < 1e290 && r.err < 1e280 }).map(std::rc::Rc::new);
        self.affs.insert(i, r.clone());
        r
    }
    fn aff_of(&mut self, i: Id) -> Option<Aff> {
        let n = *self.n(i);
        if n.w != 64 { return None }
        let opaque = |lo: f64, hi: f64| Some(Aff { t: vec![(i, 1.0, lo, hi)], c: 0.0, err: 0.0 });
        let rounded = |mut r: Aff| { r.err += r.mag() * U + 1e-300; Some(r) };
        match n.op {
            Op::Const => { let v = f64::from_bits(n.k as u64); if v.is_finite() { Some(Aff { t: vec![], c: v, err: 0.0 }) } else { None } }
            Op::SiToFp => {
                let mut r = Aff { t: vec![], c: 0.0, err: 0.0 };
                let src = n.a;
                if self.int_aff(src, 1.0, &mut r, 0).is_none() {
                    let iw = self.w(src);
                    let b = if n.k != 0 { n.k as i32 } else { iw as i32 };
                    let m = 2f64.powi(b - 1);
                    return opaque(-m, m);
                }
                r.t.retain(|x| x.1 != 0.0);
                let m = r.mag();
                // a sum that cannot wrap and converts exactly, or with one rounding
                if m > 4e18 { return None }
                if m < 9e15 { Some(r) } else { rounded(r) }
            }
            Op::UiToFp => { let m = self.umax[n.a as usize] as f64; if self.w(n.a) <= 64 { opaque(0.0, m * (1.0 + U)) } else { None } }
            Op::FAdd | Op::FSub => {
                let x = self.aff(n.a)?;
                let y = self.aff(n.b)?;
                if x.t.len() + y.t.len() > 24 { let m = x.mag() + y.mag(); return opaque(-m * 1.01, m * 1.01) }
                let z = x.plus(&y, if n.op == Op::FAdd { 1.0 } else { -1.0 });
                let m = z.mag();
                // sums of small multiples of 1/4096 are exact
                let grid = |a: &Aff| a.err == 0.0 && a.t.iter().all(|t| t.0 & 0x8000_0000 != 0 || !self.is_float(t.0)) && a.t.iter().all(|t| (t.1 * 4096.0).fract() == 0.0) && (a.c * 4096.0).fract() == 0.0;
                if m < 1e9 && grid(&x) && grid(&y) { return Some(z) }
                rounded(z)
            }
            Op::FMul => {
                if let Some(k) = self.is_const(n.b) {
                    let k = f64::from_bits(k as u64);
                    if !k.is_finite() || k.abs() > 1e100 { return None }
                    let x = self.aff(n.a)?;
                    let z = x.scale(k);
                    return if pow2(k) { Some(z) } else { rounded(z) };
                }
                let m = self.aff(n.a)?.mag() * self.aff(n.b)?.mag() * 1.0001 + 1e-300;
                opaque(-m, m)
            }
            Op::FDiv => {
                let k = f64::from_bits(self.is_const(n.b)? as u64);
                if !k.is_finite() || k.abs() < 1e-100 { return None }
                let x = self.aff(n.a)?;
                let z = x.scale(1.0 / k);
                if pow2(k) { Some(z) } else { let mut z = z; z.err += z.slack() * 2.0 * U; rounded(z) }
            }
            Op::FSqrt => {
                let (lo, hi) = self.aff(n.a)?.range();
                if lo < 0.0 { return None }
                opaque(lo.sqrt() * 0.999, hi.sqrt() * 1.001)
            }
            Op::Xor if self.is_const(n.b) == Some(1 << 63) => Some(self.aff(n.a)?.scale(-1.0)),
            Op::ZExt | Op::And => {
                // the number without its sign
                let of = match n.op {
                    Op::ZExt => { let e = *self.n(n.a); if e.op == Op::Extract && e.w == 63 && e.k == 0 && self.w(e.a) == 64 { e.a } else { return None } }
                    _ => if self.is_const(n.b) == Some((1 << 63) - 1) { n.a } else { return None },
                };
                let x = self.aff(of)?;
                let (lo, hi) = x.range();
                if lo >= 0.0 { return Some((*x).clone()) }
                if hi <= 0.0 { return Some(x.scale(-1.0)) }
                opaque(0.0, hi.max(-lo))
            }
            Op::FFun if n.w == 64 => match FUNS[n.k as usize].0 {
                "sin" | "cos" => { self.aff(n.a)?; opaque(-1.0, 1.0) }
                "atan2" => { self.aff(n.a)?; self.aff(n.b)?; opaque(-3.15, 3.15) }
                "hypot" => { let m = self.aff(n.a)?.mag() + self.aff(n.b)?.mag(); opaque(0.0, m * 1.001) }
                "fma" => {
                    let (of, k) = match (self.is_const(n.a), self.is_const(n.b)) { (_, Some(k)) => (n.a, k), (Some(k), _) => (n.b, k), _ => return None };
                    let k = f64::from_bits(k as u64);
                    if !k.is_finite() || k.abs() > 1e100 { return None }
                    let x = self.aff(of)?;
                    let y = self.aff(n.c)?;
                    if x.t.len() + y.t.len() > 24 { return None }
                    rounded(x.scale(k).plus(&y, 1.0))
                }
                "fmod" => {
                    let k = f64::from_bits(self.is_const(n.b)? as u64).abs();
                    if !k.is_finite() || k == 0.0 { return None }
                    let x = self.aff(n.a)?;
                    if x.mag() < k * 0.999 { return Some((*x).clone()) }
                    opaque(-k, k)
                }
                _ => None,
            },
            Op::Ite => {
                let (a, b) = (self.aff(n.b)?, self.aff(n.c)?);
                let ((l, h), (m, k)) = (a.range(), b.range());
                opaque(l.min(m), h.max(k))
            }
            _ => None,
        }
    }
    fn is_float(&self, t: Id) -> bool { matches!(self.n(t).op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::Ite | Op::And | Op::Xor | Op::SiToFp | Op::UiToFp | Op::FFun) }
    /// Decide a comparison from ranges and rounding errors alone.
    fn aff_cmp(&mut self, op: Op, a: Id, b: Id) -> Option<bool> {
        let x = self.aff(a)?;
        let y = self.aff(b)?;
        if a == b { return Some(op != Op::FLt) }
        let (lo, hi) = x.plus(&y, -1.0).range();
        match op {
            Op::FEq => if lo > 0.0 || hi < 0.0 { Some(false) } else if lo == 0.0 && hi == 0.0 { Some(true) } else { None },
            Op::FLt => if hi < 0.0 { Some(true) } else if lo >= 0.0 { Some(false) } else { None },
            _ => if hi <= 0.0 { Some(true) } else if lo > 0.0 { Some(false) } else { None },
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Model { pub vals: Vec<u128> }
impl Model {
    #[inline]
    pub fn get(&self, i: u32) -> u128 { self.vals.get(i as usize).copied().unwrap_or(0) }
    pub fn set(&mut self, i: u32, v: u128) {
        if self.vals.len() <= i as usize { self.vals.resize(i as usize + 1, 0) }
        self.vals[i as usize] = v;
    }
}

fn f64b(x: u128) -> f64 { f64::from_bits(x as u64) }
fn f32b(x: u128) -> f32 { f32::from_bits(x as u32) }

pub fn eval_un(op: Op, aw: u32, w: u32, x: u128, k: u128) -> u128 {
    match op {
        Op::SiToFp => { let v = sext(x, aw); if w == 64 { (v as f64).to_bits() as u128 } else { (v as f32).to_bits() as u128 } }
        Op::UiToFp => { if w == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 } }
        Op::FpToSi => {
            // saturating semantics (llvm.fptosi.sat); plain fptosi agrees where defined
            let v = if aw == 64 { f64b(x) } else { f32b(x) as f64 };
            let (lo, hi) = (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1));
            let r: i128 = if v.is_nan() { 0 } else if v < lo { sext(1u128 << (w - 1), w) } else if v >= hi { (mask(w) >> 1) as i128 } else { v as i128 };
            r as u128 & mask(w)
        }
        Op::FpToUi => {
            let v = if aw == 64 { f64b(x) } else { f32b(x) as f64 };
            let hi = 2f64.powi(w as i32);
            if v.is_nan() || v <= 0.0 { 0 } else if v >= hi { mask(w) } else { v as u128 & mask(w) }
        }
        Op::FpExt => (f32b(x) as f64).to_bits() as u128,
        Op::FpTrunc => (f64b(x) as f32).to_bits() as u128,
        Op::FSqrt => if w == 64 { f64b(x).sqrt().to_bits() as u128 } else { f32b(x).sqrt().to_bits() as u128 },
        Op::FRound => {
            let f = |v: f64| match k { 0 => v.trunc(), 1 => v.floor(), 2 => v.ceil(), 3 => v.round(), _ => v.round_ties_even() };
            if w == 64 { f(f64b(x)).to_bits() as u128 } else { (f(f32b(x) as f64) as f32).to_bits() as u128 }
        }
        _ => panic!("eval_un {:?}", op),
    }
}

pub fn eval_bin(op: Op, w: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => if y == 0 { m } else { x / y },
        Op::URem => if y == 0 { x } else { x % y },
        Op::SDiv => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { if a >= 0 { m } else { 1 } } else { a.wrapping_div(b) as u128 & m } }
        Op::SRem => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { x } else { a.wrapping_rem(b) as u128 & m } }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        Op::LShr => if y >= w as u128 { 0 } else { x >> y },
        Op::AShr => { let s = sext(x, w); let k = y.min(w as u128 - 1); (s >> k) as u128 & m }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        Op::FAdd => fl(w, x, y, |a, b| a + b, |a, b| a + b),
        Op::FSub => fl(w, x, y, |a, b| a - b, |a, b| a - b),
        Op::FMul => fl(w, x, y, |a, b| a * b, |a, b| a * b),
        Op::FDiv => fl(w, x, y, |a, b| a / b, |a, b| a / b),
        Op::FEq => if w == 64 { (f64b(x) == f64b(y)) as u128 } else { (f32b(x) == f32b(y)) as u128 },
        Op::FLt => if w == 64 { (f64b(x) < f64b(y)) as u128 } else { (f32b(x) < f32b(y)) as u128 },
        Op::FLe => if w == 64 { (f64b(x) <= f64b(y)) as u128 } else { (f32b(x) <= f32b(y)) as u128 },
        _ => panic!("eval_bin {:?}", op),
    }
}

type F1 = (fn(f64) -> f64, fn(f32) -> f32);
type F2 = (fn(f64, f64) -> f64, fn(f32, f32) -> f32);
pub enum Fun { One(F1), Two(F2), Powi, Fma }
/// The library functions of floats, by their C name.
pub const FUNS: &[(&str, Fun)] = &[
    ("sin", Fun::One((f64::sin, f32::sin))), ("cos", Fun::One((f64::cos, f32::cos))), ("tan", Fun::One((f64::tan, f32::tan))),
    ("exp", Fun::One((f64::exp, f32::exp))), ("exp2", Fun::One((f64::exp2, f32::exp2))), ("expm1", Fun::One((f64::exp_m1, f32::exp_m1))),
    ("log", Fun::One((f64::ln, f32::ln))), ("log2", Fun::One((f64::log2, f32::log2))), ("log10", Fun::One((f64::log10, f32::log10))), ("log1p", Fun::One((f64::ln_1p, f32::ln_1p))),
    ("asin", Fun::One((f64::asin, f32::asin))), ("acos", Fun::One((f64::acos, f32::acos))), ("atan", Fun::One((f64::atan, f32::atan))),
    ("sinh", Fun::One((f64::sinh, f32::sinh))), ("cosh", Fun::One((f64::cosh, f32::cosh))), ("tanh", Fun::One((f64::tanh, f32::tanh))), ("cbrt", Fun::One((f64::cbrt, f32::cbrt))),
    ("pow", Fun::Two((f64::powf, f32::powf))), ("fmod", Fun::Two((|a, b| a % b, |a, b| a % b))), ("atan2", Fun::Two((f64::atan2, f32::atan2))), ("hypot", Fun::Two((f64::hypot, f32::hypot))),
    ("powi", Fun::Powi), ("fma", Fun::Fma),
];
pub fn fun_of(name: &str) -> Option<usize> { FUNS.iter().position(|f| f.0 == name) }
pub fn fun_args(k: usize) -> usize { match FUNS[k].1 { Fun::One(_) => 1, Fun::Two(_) | Fun::Powi => 2, Fun::Fma => 3 } }
pub fn eval_fun(k: usize, w: u32, x: u128, y: u128, z: u128) -> u128 {
    match &FUNS[k].1 {
        Fun::One((d, s)) => if w == 64 { d(f64b(x)).to_bits() as u128 } else { s(f32b(x)).to_bits() as u128 },
        Fun::Two((d, s)) => fl(w, x, y, d, s),
        Fun::Fma => if w == 64 { f64b(x).mul_add(f64b(y), f64b(z)).to_bits() as u128 } else { f32b(x).mul_add(f32b(y), f32b(z)).to_bits() as u128 },
        Fun::Powi => {
            // as compiler-rt computes it
            let mut b = y as u32 as i32;
            let neg = b < 0;
            let (mut a, mut r) = (if w == 64 { f64b(x) } else { f32b(x) as f64 }, 1.0f64);
            let (mut a4, mut r4) = (f32b(x), 1.0f32);
            loop {
                if b & 1 != 0 { r *= a; r4 *= a4 }
                b /= 2;
                if b == 0 { break }
                a *= a;
                a4 *= a4;
            }
            if w == 64 { (if neg { 1.0 / r } else { r }).to_bits() as u128 } else { (if neg { 1.0 / r4 } else { r4 }).to_bits() as u128 }
        }
    }
}

fn fl(w: u32, x: u128, y: u128, d: impl Fn(f64, f64) -> f64, s: impl Fn(f32, f32) -> f32) -> u128 {
    if w == 64 { d(f64b(x), f64b(y)).to_bits() as u128 } else { s(f32b(x), f32b(y)).to_bits() as u128 }
}
