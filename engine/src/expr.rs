//! Hash-consed bit-vector expressions (floats are bit patterns), simplifier, evaluator and
//! the lowering of floating point operations to pure bit-vector circuits.
use crate::ir::{mask, sext};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Id = u32; // 0 = "none"

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum K {
    Const,
    Var,
    Not,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Extract, // b = lo
    Concat,  // a high, b low
    ZExt,
    SExt,
    Ctlz,
    Cttz,
    Ctpop,
    FAdd,
    FMul,
    FDiv,
    FLt,
    FLe,
    FEq,
    FIsNan,
    FPExt,
    FPTrunc,
    UIToFP,
    SIToFP,
    FPToUI, // saturating
    FPToSI,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub k: K,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub struct Ctx {
    pub n: Vec<Node>,
    map: FxMap<Node, Id>,
    pub consts: Vec<u128>,
    cmap: FxMap<u128, u32>,
    low: FxMap<Id, Id>,
    absm: FxMap<Id, Id>,
    /// abstracted FP operation per fresh variable (expression id of the variable)
    pub absops: FxMap<Id, (K, Id, Id)>,
    fpax: FxMap<Id, Vec<Id>>,
    pub t: Id, // true (1-bit 1)
    pub f: Id,
}

pub const NAN32: u32 = 0x7fc00000;
pub const NAN64: u64 = 0x7ff8000000000000;
pub fn c32(f: f32) -> u128 {
    if f.is_nan() {
        NAN32 as u128
    } else {
        f.to_bits() as u128
    }
}
pub fn c64(f: f64) -> u128 {
    if f.is_nan() {
        NAN64 as u128
    } else {
        f.to_bits() as u128
    }
}
fn f32_(v: u128) -> f32 {
    f32::from_bits(v as u32)
}
fn f64_(v: u128) -> f64 {
    f64::from_bits(v as u64)
}

/// concrete semantics of every operator
pub fn ev(k: K, w: u32, aw: u32, a: u128, b: u128, c: u128) -> u128 {
    let bl = |x: bool| x as u128;
    let r = match k {
        K::Const | K::Var => unreachable!(),
        K::Not => !a,
        K::Add => a.wrapping_add(b),
        K::Sub => a.wrapping_sub(b),
        K::Mul => a.wrapping_mul(b),
        K::UDiv => {
            if b == 0 {
                u128::MAX
            } else {
                a / b
            }
        }
        K::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        K::SDiv => {
            if b == 0 {
                if sext(a, w) < 0 {
                    1
                } else {
                    u128::MAX
                }
            } else {
                sext(a, w).wrapping_div(sext(b, w)) as u128
            }
        }
        K::SRem => {
            if b == 0 {
                a
            } else {
                sext(a, w).wrapping_rem(sext(b, w)) as u128
            }
        }
        K::And => a & b,
        K::Or => a | b,
        K::Xor => a ^ b,
        K::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        K::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        K::AShr => {
            let s = sext(a, w);
            (s >> b.min(w as u128 - 1)) as u128
        }
        K::Eq => bl(a == b),
        K::Ult => bl(a < b),
        K::Ule => bl(a <= b),
        K::Slt => bl(sext(a, aw) < sext(b, aw)),
        K::Sle => bl(sext(a, aw) <= sext(b, aw)),
        K::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        K::Extract => a >> b,
        K::Concat => unreachable!(),
        K::ZExt => a,
        K::SExt => sext(a, aw) as u128,
        K::Ctlz => {
            if a == 0 {
                w as u128
            } else {
                (a.leading_zeros() - (128 - w)) as u128
            }
        }
        K::Cttz => {
            if a == 0 {
                w as u128
            } else {
                a.trailing_zeros() as u128
            }
        }
        K::Ctpop => a.count_ones() as u128,
        K::FAdd => {
            if w == 32 {
                c32(f32_(a) + f32_(b))
            } else {
                c64(f64_(a) + f64_(b))
            }
        }
        K::FMul => {
            if w == 32 {
                c32(f32_(a) * f32_(b))
            } else {
                c64(f64_(a) * f64_(b))
            }
        }
        K::FDiv => {
            if w == 32 {
                c32(f32_(a) / f32_(b))
            } else {
                c64(f64_(a) / f64_(b))
            }
        }
        K::FLt => bl(if aw == 32 { f32_(a) < f32_(b) } else { f64_(a) < f64_(b) }),
        K::FLe => bl(if aw == 32 { f32_(a) <= f32_(b) } else { f64_(a) <= f64_(b) }),
        K::FEq => bl(if aw == 32 { f32_(a) == f32_(b) } else { f64_(a) == f64_(b) }),
        K::FIsNan => bl(if aw == 32 { f32_(a).is_nan() } else { f64_(a).is_nan() }),
        K::FPExt => c64(f32_(a) as f64),
        K::FPTrunc => c32(f64_(a) as f32),
        K::UIToFP => {
            if w == 32 {
                c32(a as f32)
            } else {
                c64(a as f64)
            }
        }
        K::SIToFP => {
            if w == 32 {
                c32(sext(a, aw) as f32)
            } else {
                c64(sext(a, aw) as f64)
            }
        }
        K::FPToUI => {
            let v = if aw == 32 { f32_(a) as u128 } else { f64_(a) as u128 };
            v.min(mask(u128::MAX, w))
        }
        K::FPToSI => {
            let v = if aw == 32 { f32_(a) as i128 } else { f64_(a) as i128 };
            let hi = (1i128 << (w - 1)) - 1;
            v.clamp(-hi - 1, hi) as u128
        }
    };
    mask(r, w)
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            n: vec![Node { k: K::Const, w: 0, a: u32::MAX, b: 0, c: 0 }],
            map: Default::default(),
            consts: vec![],
            cmap: Default::default(),
            low: Default::default(),
            absm: Default::default(),
            absops: Default::default(),
            fpax: Default::default(),
            t: 0,
            f: 0,
        };
        c.f = c.k(0, 1);
        c.t = c.k(1, 1);
        c
    }
    fn raw(&mut self, n: Node) -> Id {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let i = self.n.len() as Id;
        self.n.push(n);
        self.map.insert(n, i);
        i
    }
    pub fn k(&mut self, v: u128, w: u32) -> Id {
        let v = mask(v, w);
        let ci = match self.cmap.get(&v) {
            Some(&i) => i,
            None => {
                let i = self.consts.len() as u32;
                self.consts.push(v);
                self.cmap.insert(v, i);
                i
            }
        };
        self.raw(Node { k: K::Const, w: w as u16, a: ci, b: 0, c: 0 })
    }
    pub fn var(&mut self, id: u32, w: u32) -> Id {
        self.raw(Node { k: K::Var, w: w as u16, a: id, b: 0, c: 0 })
    }
    pub fn w(&self, e: Id) -> u32 {
        self.n[e as usize].w as u32
    }
    pub fn cv(&self, e: Id) -> Option<u128> {
        let n = self.n[e as usize];
        if n.k == K::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn node(&self, e: Id) -> Node {
        self.n[e as usize]
    }
    fn mk(&mut self, k: K, w: u32, a: Id, b: Id, c: Id) -> Id {
        self.raw(Node { k, w: w as u16, a, b, c })
    }
    pub fn not(&mut self, a: Id) -> Id {
        let w = self.w(a);
        if let Some(v) = self.cv(a) {
            return self.k(!v, w);
        }
        let n = self.node(a);
        if n.k == K::Not {
            return n.a;
        }
        self.mk(K::Not, w, a, 0, 0)
    }
    pub fn and(&mut self, a: Id, b: Id) -> Id {
        self.bin(K::And, a, b)
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        self.bin(K::Or, a, b)
    }
    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        self.bin(K::Eq, a, b)
    }
    pub fn ule(&mut self, a: Id, b: Id) -> Id {
        self.bin(K::Ule, a, b)
    }
    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        self.bin(K::Ult, a, b)
    }
    pub fn add(&mut self, a: Id, b: Id) -> Id {
        self.bin(K::Add, a, b)
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        self.bin(K::Sub, a, b)
    }
    fn ite_of_consts(&self, a: Id) -> bool {
        fn go(c: &Ctx, a: Id, d: u32) -> bool {
            if c.cv(a).is_some() {
                return true;
            }
            let n = c.node(a);
            d > 0 && n.k == K::Ite && go(c, n.b, d - 1) && go(c, n.c, d - 1)
        }
        let n = self.node(a);
        n.k == K::Ite && (self.cv(n.b).is_some() || self.cv(n.c).is_some() || go(self, a, 4))
    }
    fn ite_tree_consts(&self, e: Id, d: u32) -> bool {
        if self.cv(e).is_some() {
            return true;
        }
        let n = self.node(e);
        d > 0 && n.k == K::Ite && self.ite_tree_consts(n.b, d - 1) && self.ite_tree_consts(n.c, d - 1)
    }
    /// binary (and comparison) operators
    pub fn bin(&mut self, k: K, mut a: Id, mut b: Id) -> Id {
        let aw = self.w(a);
        let w = match k {
            K::Eq | K::Ult | K::Ule | K::Slt | K::Sle | K::FLt | K::FLe | K::FEq => 1,
            _ => aw,
        };
        debug_assert!(aw == self.w(b), "{k:?} {} {}", aw, self.w(b));
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.k(ev(k, w, aw, x, y, 0), w);
        }
        let comm = matches!(k, K::Add | K::Mul | K::And | K::Or | K::Xor | K::Eq | K::FAdd | K::FMul | K::FEq);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (ca, cb) = (self.cv(a), self.cv(b));
        let ones = mask(u128::MAX, aw);
        match k {
            K::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    let n = self.node(a);
                    if n.k == K::Add {
                        if let Some(z) = self.cv(n.b) {
                            let c = self.k(y.wrapping_add(z), w);
                            return self.bin(K::Add, n.a, c);
                        }
                    }
                }
                // (x - y) + y = x
                let n = self.node(a);
                if n.k == K::Sub && n.b == b {
                    return n.a;
                }
                let n = self.node(b);
                if n.k == K::Sub && n.b == a {
                    return n.a;
                }
            }
            K::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.k(0, w);
                }
                if let Some(y) = cb {
                    let c = self.k(0u128.wrapping_sub(y), w);
                    return self.bin(K::Add, a, c);
                }
                let n = self.node(a);
                if n.k == K::Add {
                    if n.a == b {
                        return n.b;
                    }
                    if n.b == b {
                        return n.a;
                    }
                    // (x+c) - (y+c2)
                    if let Some(z) = self.cv(n.b) {
                        let nb = self.node(b);
                        if nb.k == K::Add && nb.a == n.a {
                            if let Some(z2) = self.cv(nb.b) {
                                return self.k(z.wrapping_sub(z2), w);
                            }
                        }
                    }
                }
            }
            K::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let c = self.k(y.trailing_zeros() as u128, w);
                        return self.bin(K::Shl, a, c);
                    }
                    let n = self.node(a);
                    if n.k == K::ZExt && self.w(n.a) == 1 {
                        let z = self.k(0, w);
                        return self.ite(n.a, b, z);
                    }
                }
            }
            K::UDiv => {
                if let Some(y) = cb {
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let c = self.k(y.trailing_zeros() as u128, w);
                        return self.bin(K::LShr, a, c);
                    }
                }
            }
            K::And => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(ones) {
                    return a;
                }
                if w == 1 {
                    let (na, nb) = (self.node(a), self.node(b));
                    if (na.k == K::Not && na.a == b) || (nb.k == K::Not && nb.a == a) {
                        return self.f;
                    }
                }
                if let Some(y) = cb {
                    // low mask -> zext(extract)
                    if y != 0 && (y & (y + 1)) == 0 {
                        let n = 128 - y.leading_zeros();
                        let e = self.extract(a, n - 1, 0);
                        return self.zext(e, w);
                    }
                    let n = self.node(a);
                    if n.k == K::And {
                        if let Some(z) = self.cv(n.b) {
                            let c = self.k(y & z, w);
                            return self.bin(K::And, n.a, c);
                        }
                    }
                }
            }
            K::Or => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(ones) {
                    return b;
                }
                if w == 1 {
                    let (na, nb) = (self.node(a), self.node(b));
                    if (na.k == K::Not && na.a == b) || (nb.k == K::Not && nb.a == a) {
                        return self.t;
                    }
                }
                // (x << n) | zext(y)  => concat when disjoint
                if let Some(r) = self.or_concat(a, b) {
                    return r;
                }
                if let Some(r) = self.or_concat(b, a) {
                    return r;
                }
                // (x & !low) | zext(low bits of x) => x
                for (p, q) in [(a, b), (b, a)] {
                    let (np, nq) = (self.node(p), self.node(q));
                    if np.k == K::And && nq.k == K::ZExt {
                        if let Some(y) = self.cv(np.b) {
                            let iw = self.w(nq.a);
                            if mask(!y, w) == mask(u128::MAX, iw) && self.extract(np.a, iw - 1, 0) == nq.a {
                                return np.a;
                            }
                        }
                    }
                }
            }
            K::Xor => {
                if a == b {
                    return self.k(0, w);
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(ones) {
                    return self.not(a);
                }
                if let Some(y) = cb {
                    let n = self.node(a);
                    if n.k == K::Xor {
                        if let Some(z) = self.cv(n.b) {
                            let c = self.k(y ^ z, w);
                            return self.bin(K::Xor, n.a, c);
                        }
                    }
                }
            }
            K::Shl | K::LShr | K::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if k != K::AShr {
                        if y >= w as u128 {
                            return self.k(0, w);
                        }
                        let s = y as u32;
                        if k == K::LShr {
                            let e = self.extract(a, w - 1, s);
                            return self.zext(e, w);
                        } else {
                            let e = self.extract(a, w - 1 - s, 0);
                            let z = self.k(0, s);
                            return self.concat(e, z);
                        }
                    }
                }
            }
            K::Eq => {
                if a == b {
                    return self.t;
                }
                if w == aw || aw == 1 {
                    // boolean equality
                    if let Some(y) = cb {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    let na = self.node(a);
                    if na.k == K::Not && na.a == b {
                        return self.f;
                    }
                    let nb = self.node(b);
                    if nb.k == K::Not && nb.a == a {
                        return self.f;
                    }
                }
                if let Some(y) = cb {
                    let n = self.node(a);
                    match n.k {
                        K::Ite if self.ite_of_consts(a) => {
                            let p = self.eq(n.b, b);
                            let q = self.eq(n.c, b);
                            return self.ite(n.a, p, q);
                        }
                        K::ZExt => {
                            let iw = self.w(n.a);
                            if y >> iw != 0 {
                                return self.f;
                            }
                            let c = self.k(y, iw);
                            return self.eq(n.a, c);
                        }
                        K::SExt => {
                            let iw = self.w(n.a);
                            if mask(sext(mask(y, iw), iw) as u128, aw) != y {
                                return self.f;
                            }
                            let c = self.k(y, iw);
                            return self.eq(n.a, c);
                        }
                        K::Add => {
                            if let Some(z) = self.cv(n.b) {
                                let c = self.k(y.wrapping_sub(z), aw);
                                return self.eq(n.a, c);
                            }
                        }
                        K::Xor => {
                            if let Some(z) = self.cv(n.b) {
                                let c = self.k(y ^ z, aw);
                                return self.eq(n.a, c);
                            }
                        }
                        K::Mul if self.node(n.a).k == K::ZExt => {
                            // a product that cannot overflow
                            if let Some(z) = self.cv(n.b) {
                                let x = self.node(n.a).a;
                                let iw = self.w(x);
                                if z != 0 && iw < 64 && aw <= 64 && (mask(u128::MAX, iw) * z) >> aw == 0 {
                                    if y % z != 0 {
                                        return self.f;
                                    }
                                    let c = self.k(y / z, aw);
                                    return self.eq(n.a, c);
                                }
                            }
                        }
                        K::Not => {
                            let c = self.k(!y, aw);
                            return self.eq(n.a, c);
                        }
                        K::Concat => {
                            let lw = self.w(n.b);
                            let hw = aw - lw;
                            let c1 = self.k(y >> lw, hw);
                            let c0 = self.k(y, lw);
                            let p = self.eq(n.a, c1);
                            let q = self.eq(n.b, c0);
                            return self.and(p, q);
                        }
                        _ => {}
                    }
                }
            }
            K::Ult => {
                if a == b {
                    return self.f;
                }
                if cb == Some(0) {
                    return self.f;
                }
                if cb == Some(1) {
                    let z = self.k(0, aw);
                    return self.eq(a, z);
                }
                if ca == Some(0) {
                    let z = self.k(0, aw);
                    let e = self.eq(b, z);
                    return self.not(e);
                }
                if let Some(r) = self.cmp_ite(k, a, b) {
                    return r;
                }
                if let Some(r) = self.cmp_zext(k, a, b) {
                    return r;
                }
            }
            K::Ule => {
                let r = self.bin(K::Ult, b, a);
                return self.not(r);
            }
            K::Slt => {
                if a == b {
                    return self.f;
                }
                if let Some(r) = self.cmp_ite(k, a, b) {
                    return r;
                }
                // both zero-extended => unsigned
                let za = ca.map(|v| v >> (aw - 1) == 0).unwrap_or(self.node(a).k == K::ZExt);
                let zb = cb.map(|v| v >> (aw - 1) == 0).unwrap_or(self.node(b).k == K::ZExt);
                if za && zb {
                    return self.bin(K::Ult, a, b);
                }
                if let Some(v) = cb {
                    if v == 0 {
                        return self.extract(a, aw - 1, aw - 1);
                    }
                }
            }
            K::Sle => {
                let r = self.bin(K::Slt, b, a);
                return self.not(r);
            }
            K::FLt | K::FLe | K::FEq if self.plus0(a) != a || self.plus0(b) != b => {
                let (a, b) = (self.plus0(a), self.plus0(b));
                return self.bin(k, a, b);
            }
            K::FAdd if cb.is_some_and(|c| c == 1u128 << (w - 1)) || (cb == Some(0) && self.not_neg0(a, 8)) => return a, // NaN payload is not modelled
            K::FEq => {
                if a == b {
                    let n = self.isnan(a);
                    return self.not(n);
                }
            }
            K::FLt => {
                if a == b {
                    return self.f;
                }
                if let Some(x) = ca {
                    if is_nan(x, aw) {
                        return self.f;
                    }
                }
                if let Some(x) = cb {
                    if is_nan(x, aw) {
                        return self.f;
                    }
                }
            }
            K::FLe => {
                if a == b {
                    let n = self.isnan(a);
                    return self.not(n);
                }
            }
            K::FMul => {
                if let Some(x) = cb {
                    if (aw == 32 && x == c32(1.0)) || (aw == 64 && x == c64(1.0)) {
                        return a; // NaN payload is not modelled
                    }
                }
            }
            K::FDiv => {
                if let Some(x) = cb {
                    if (aw == 32 && x == c32(1.0)) || (aw == 64 && x == c64(1.0)) {
                        return a;
                    }
                }
            }
            _ => {}
        }
        self.mk(k, w, a, b, 0)
    }
    fn cmp_ite(&mut self, k: K, a: Id, b: Id) -> Option<Id> {
        if self.cv(b).is_some() && self.ite_tree_consts(a, 4) {
            let n = self.node(a);
            let p = self.bin(k, n.b, b);
            let q = self.bin(k, n.c, b);
            return Some(self.ite(n.a, p, q));
        }
        if self.cv(a).is_some() && self.ite_tree_consts(b, 4) {
            let n = self.node(b);
            let p = self.bin(k, a, n.b);
            let q = self.bin(k, a, n.c);
            return Some(self.ite(n.a, p, q));
        }
        None
    }
    fn cmp_zext(&mut self, k: K, a: Id, b: Id) -> Option<Id> {
        let (na, nb) = (self.node(a), self.node(b));
        if na.k == K::ZExt {
            let iw = self.w(na.a);
            if let Some(v) = self.cv(b) {
                if v >> iw != 0 {
                    return Some(self.t);
                }
                let c = self.k(v, iw);
                return Some(self.bin(k, na.a, c));
            }
            if nb.k == K::ZExt && self.w(nb.a) == iw {
                return Some(self.bin(k, na.a, nb.a));
            }
        }
        if nb.k == K::ZExt {
            let iw = self.w(nb.a);
            if let Some(v) = self.cv(a) {
                if v >> iw != 0 {
                    return Some(self.f);
                }
                let c = self.k(v, iw);
                return Some(self.bin(k, c, nb.a));
            }
        }
        None
    }
    fn or_concat(&mut self, a: Id, b: Id) -> Option<Id> {
        // a = concat(x, 0_s) , b = zext(y) with w(y) <= s
        let na = self.node(a);
        if na.k == K::Concat && self.cv(na.b) == Some(0) {
            let s = self.w(na.b);
            let nb = self.node(b);
            if nb.k == K::ZExt {
                let iw = self.w(nb.a);
                if iw <= s {
                    let y = self.zext(nb.a, s);
                    return Some(self.concat(na.a, y));
                }
            }
            if let Some(v) = self.cv(b) {
                if v >> s == 0 {
                    let y = self.k(v, s);
                    return Some(self.concat(na.a, y));
                }
            }
            // b = zext(concat(..)) handled by iw check ; b = concat(zext..)
            if nb.k == K::Concat {
                // b's high part may be zero const
                if let Some(0) = self.cv(nb.a) {
                    let lw = self.w(nb.b);
                    if lw <= s {
                        let y = self.zext(nb.b, s);
                        return Some(self.concat(na.a, y));
                    }
                }
            }
        }
        None
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(v) = self.cv(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let n = self.node(c);
        if n.k == K::Not {
            return self.ite(n.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        let na = self.node(a);
        if na.k == K::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.node(b);
        if nb.k == K::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.mk(K::Ite, w, c, a, b)
    }
    pub fn extract(&mut self, a: Id, hi: u32, lo: u32) -> Id {
        let aw = self.w(a);
        let w = hi - lo + 1;
        if w == aw {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.k(v >> lo, w);
        }
        let n = self.node(a);
        match n.k {
            K::Extract => return self.extract(n.a, hi + n.b, lo + n.b),
            K::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, hi - lw, lo - lw);
                }
                if hi < lw {
                    return self.extract(n.b, hi, lo);
                }
                let h = self.extract(n.a, hi - lw, 0);
                let l = self.extract(n.b, lw - 1, lo);
                return self.concat(h, l);
            }
            K::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.k(0, w);
                }
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                let e = self.extract(n.a, iw - 1, lo);
                return self.zext(e, w);
            }
            K::SExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
            }
            K::Ite if self.ite_of_consts(a) => {
                let p = self.extract(n.b, hi, lo);
                let q = self.extract(n.c, hi, lo);
                return self.ite(n.a, p, q);
            }
            K::And | K::Or | K::Xor => {
                let p = self.extract(n.a, hi, lo);
                let q = self.extract(n.b, hi, lo);
                return self.bin(n.k, p, q);
            }
            K::Not => {
                let p = self.extract(n.a, hi, lo);
                return self.not(p);
            }
            K::Add | K::Sub | K::Mul if lo == 0 => {
                let p = self.extract(n.a, hi, 0);
                let q = self.extract(n.b, hi, 0);
                return self.bin(n.k, p, q);
            }
            _ => {}
        }
        self.mk(K::Extract, w, a, lo, 0)
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if hw == 0 {
            return l;
        }
        if lw == 0 {
            return h;
        }
        match (self.cv(h), self.cv(l)) {
            (Some(a), Some(b)) => return self.k((a << lw) | b, w),
            (Some(0), _) => return self.zext(l, w),
            _ => {}
        }
        let (nh, nl) = (self.node(h), self.node(l));
        if nh.k == K::Extract && nl.k == K::Extract && nh.a == nl.a && nl.b + lw == nh.b {
            return self.extract(nh.a, nh.b + hw - 1, nl.b);
        }
        // extract of top part adjoining a value that is the whole low part
        if nh.k == K::Extract && nl.k == K::Concat {
            let nlh = self.node(nl.a);
            if nlh.k == K::Extract && nlh.a == nh.a && nlh.b + self.w(nl.a) == nh.b {
                let e = self.extract(nh.a, nh.b + hw - 1, nlh.b);
                return self.concat(e, nl.b);
            }
        }
        if nh.k == K::Concat {
            // right-nest: concat(concat(a,b),l) -> concat(a, concat(b,l)) only when (b,l) merge
            let m = self.node(nh.b);
            if m.k == K::Extract && nl.k == K::Extract && m.a == nl.a && nl.b + lw == m.b {
                let e = self.extract(m.a, m.b + self.w(nh.b) - 1, nl.b);
                return self.concat(nh.a, e);
            }
        }
        if nh.k == K::ZExt {
            let e = self.concat(nh.a, l);
            return self.zext(e, w);
        }
        self.mk(K::Concat, w, h, l, 0)
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.k(v, w);
        }
        let n = self.node(a);
        if n.k == K::ZExt {
            return self.zext(n.a, w);
        }
        if n.k == K::Ite && self.ite_tree_consts(a, 3) {
            let p = self.zext(n.b, w);
            let q = self.zext(n.c, w);
            return self.ite(n.a, p, q);
        }
        self.mk(K::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.k(sext(v, aw) as u128, w);
        }
        let n = self.node(a);
        if n.k == K::ZExt {
            return self.zext(n.a, w);
        }
        if n.k == K::Ite && self.ite_tree_consts(a, 3) {
            let p = self.sext(n.b, w);
            let q = self.sext(n.c, w);
            return self.ite(n.a, p, q);
        }
        if aw == 1 {
            let p = self.k(u128::MAX, w);
            let q = self.k(0, w);
            return self.ite(a, p, q);
        }
        self.mk(K::SExt, w, a, 0, 0)
    }
    pub fn isnan(&mut self, a: Id) -> Id {
        let aw = self.w(a);
        if let Some(v) = self.cv(a) {
            return if is_nan(v, aw) { self.t } else { self.f };
        }
        let n = self.node(a);
        match n.k {
            K::Xor if self.cv(n.b) == Some(1u128 << (aw - 1)) => return self.isnan(n.a),
            K::UIToFP | K::SIToFP => return self.f,
            K::ZExt if self.w(n.a) < aw => {
                if self.w(n.a) <= if aw == 32 { 23 } else { 52 } {
                    return self.f;
                }
            }
            _ => {}
        }
        self.mk(K::FIsNan, 1, a, 0, 0)
    }
    pub fn un(&mut self, k: K, w: u32, a: Id) -> Id {
        let aw = self.w(a);
        if let Some(v) = self.cv(a) {
            return self.k(ev(k, w, aw, v, 0, 0), w);
        }
        if k == K::FPTrunc {
            // widening and narrowing again is exact; a NaN becomes the canonical one
            let n = self.node(a);
            if n.k == K::FPExt && self.w(n.a) == w {
                if matches!(self.node(n.a).k, K::FAdd | K::FMul | K::FDiv | K::FPTrunc) {
                    return n.a;
                }
                let c = self.isnan(n.a);
                let nan = self.k(NAN32 as u128, w);
                return self.ite(c, nan, n.a);
            }
        }
        self.mk(k, w, a, 0, 0)
    }
    pub fn fneg(&mut self, a: Id) -> Id {
        let w = self.w(a);
        let s = self.k(1u128 << (w - 1), w);
        self.bin(K::Xor, a, s)
    }

    // ------------------------------------------------------------ evaluation
    pub fn eval(&self, e: Id, env: &dyn Fn(u32) -> u128, memo: &mut FxMap<Id, u128>) -> u128 {
        let n = self.n[e as usize];
        match n.k {
            K::Const => return self.consts[n.a as usize],
            K::Var => return mask(env(n.a), n.w as u32),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let w = n.w as u32;
        let v = match n.k {
            K::Ite => {
                if self.eval(n.a, env, memo) != 0 {
                    self.eval(n.b, env, memo)
                } else {
                    self.eval(n.c, env, memo)
                }
            }
            K::Concat => {
                let h = self.eval(n.a, env, memo);
                let l = self.eval(n.b, env, memo);
                (h << self.w(n.b)) | l
            }
            K::Extract => mask(self.eval(n.a, env, memo) >> n.b, w),
            _ => {
                let aw = self.w(n.a);
                let a = self.eval(n.a, env, memo);
                let b = if n.b != 0 { self.eval(n.b, env, memo) } else { 0 };
                ev(n.k, w, aw, a, b, 0)
            }
        };
        memo.insert(e, v);
        v
    }
    pub fn children(&self, e: Id) -> ([Id; 3], usize) {
        let n = self.n[e as usize];
        match n.k {
            K::Const | K::Var => ([0; 3], 0),
            K::Ite => ([n.a, n.b, n.c], 3),
            K::Extract => ([n.a, 0, 0], 1),
            _ => {
                if n.b != 0 {
                    ([n.a, n.b, 0], 2)
                } else {
                    ([n.a, 0, 0], 1)
                }
            }
        }
    }

    /// replace FP additions, multiplications and divisions by fresh variables (over-approximation)
    pub fn abstr(&mut self, e: Id) -> Id {
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.absm.contains_key(&x) {
                continue;
            }
            let (ch, nc) = self.children(x);
            if !done {
                st.push((x, true));
                for i in 0..nc {
                    if !self.absm.contains_key(&ch[i]) {
                        st.push((ch[i], false))
                    }
                }
                continue;
            }
            let n = self.node(x);
            let l: Vec<Id> = ch[..nc].iter().map(|c| self.absm[c]).collect();
            let w = n.w as u32;
            let r = match n.k {
                K::Const | K::Var => x,
                K::FAdd | K::FMul | K::FDiv => {
                    let v = self.var(0x0100_0000 + x, w);
                    self.absops.insert(v, (n.k, l[0], l[1]));
                    v
                }
                _ if l[..] == ch[..nc] => x,
                K::Not => self.not(l[0]),
                K::Ite => self.ite(l[0], l[1], l[2]),
                K::Extract => self.extract(l[0], n.b + w - 1, n.b),
                K::Concat => self.concat(l[0], l[1]),
                K::ZExt => self.zext(l[0], w),
                K::SExt => self.sext(l[0], w),
                K::FIsNan => self.isnan(l[0]),
                k if nc == 1 => self.un(k, w, l[0]),
                k => self.bin(k, l[0], l[1]),
            };
            self.absm.insert(x, r);
        }
        self.absm[&e]
    }
    /// operand of a comparison without a trailing `+ 0`
    fn plus0(&self, a: Id) -> Id {
        let n = self.node(a);
        if n.k == K::FAdd && self.cv(n.b).is_some_and(|c| c << (128 - n.w as u32) << 1 == 0) {
            return n.a;
        }
        a
    }
    /// sign bit 0, or NaN
    fn sign0(&self, a: Id, d: u32) -> bool {
        let n = self.node(a);
        let w = n.w as u32;
        if let Some(c) = self.cv(a) {
            return c >> (w - 1) == 0;
        }
        if d == 0 {
            return false;
        }
        match n.k {
            K::ZExt | K::UIToFP => true,
            K::FAdd | K::FMul | K::FDiv => self.sign0(n.a, d - 1) && self.sign0(n.b, d - 1),
            K::And => self.sign0(n.a, 1) || self.sign0(n.b, 1),
            K::FPExt | K::FPTrunc => self.sign0(n.a, d - 1),
            K::Ite => {
                let (c, _) = self.children(a);
                self.sign0(c[1], d - 1) && self.sign0(c[2], d - 1)
            }
            _ => false,
        }
    }
    /// cannot be -0
    fn not_neg0(&self, a: Id, d: u32) -> bool {
        if self.sign0(a, d) {
            return true;
        }
        let n = self.node(a);
        if d == 0 || self.cv(a).is_some() {
            return self.cv(a).is_some_and(|c| c != 1u128 << (n.w - 1));
        }
        match n.k {
            K::FAdd => self.not_neg0(n.a, d - 1) || self.not_neg0(n.b, d - 1),
            K::Ite => {
                let (c, _) = self.children(a);
                self.not_neg0(c[1], d - 1) && self.not_neg0(c[2], d - 1)
            }
            _ => false,
        }
    }
    /// the abstracted operations reachable from `es`, with facts about them (all true of IEEE arithmetic)
    pub fn fp_facts(&mut self, es: &[Id]) -> (usize, Vec<Id>) {
        let mut seen: FxMap<Id, ()> = FxMap::default();
        let mut ops: Vec<Id> = vec![];
        let mut st: Vec<Id> = es.to_vec();
        while let Some(x) = st.pop() {
            if seen.insert(x, ()).is_some() {
                continue;
            }
            if let Some(&(_, a, b)) = self.absops.get(&x) {
                ops.push(x);
                st.push(a);
                st.push(b);
                continue;
            }
            let (ch, nc) = self.children(x);
            st.extend_from_slice(&ch[..nc]);
        }
        ops.sort_unstable();
        let mut out = vec![];
        for &v in &ops {
            if let Some(f) = self.fpax.get(&v) {
                out.extend_from_slice(f);
                continue;
            }
            let (k, a, b) = self.absops[&v];
            let f = self.fp_ax1(k, a, b, v);
            out.extend_from_slice(&f);
            self.fpax.insert(v, f);
        }
        if ops.len() <= 40 {
            for i in 0..ops.len() {
                for j in 0..i {
                    self.fp_ax2(ops[i], ops[j], &mut out);
                }
            }
        }
        (ops.len(), out)
    }
    fn imp(&mut self, a: Id, b: Id) -> Id {
        let n = self.not(a);
        self.or(n, b)
    }
    fn fabs_e(&mut self, a: Id) -> Id {
        let w = self.w(a);
        let m = self.k(mask(u128::MAX, w - 1), w);
        self.bin(K::And, a, m)
    }
    fn fp_ax1(&mut self, k: K, a: Id, b: Id, v: Id) -> Vec<Id> {
        let w = self.w(v);
        let mut o = vec![];
        let (eb, mb) = Self::fmt(w);
        let zero = self.k(0, w);
        let inf = self.k(mask(u128::MAX, eb) << mb, w);
        let one = self.k(if w == 32 { c32(1.0) } else { c64(1.0) }, w);
        let canon = self.k(if w == 32 { NAN32 as u128 } else { NAN64 as u128 }, w);
        let (na, nb, nv) = (self.isnan(a), self.isnan(b), self.isnan(v));
        let ok = self.not(nv);
        let cn = self.eq(v, canon);
        let t = self.imp(nv, cn);
        o.push(t);
        let (aa, ab, av) = (self.fabs_e(a), self.fabs_e(b), self.fabs_e(v));
        let (ai, bi) = (self.eq(aa, inf), self.eq(ab, inf));
        let (az, bz) = (self.eq(aa, zero), self.eq(ab, zero));
        let vz = self.eq(av, zero);
        let anyn = self.or(na, nb);
        let bothi = self.and(ai, bi);
        match k {
            K::FAdd => {
                let nbb = self.fneg(b);
                let opp = self.eq(a, nbb);
                let bad = self.and(bothi, opp);
                let bad = self.or(anyn, bad);
                let t = self.eq(nv, bad);
                o.push(t);
                for (x, y) in [(a, b), (b, a)] {
                    let p = self.bin(K::FLe, zero, x);
                    let p = self.and(p, ok);
                    let q = self.bin(K::FLe, y, v);
                    let t = self.imp(p, q);
                    o.push(t);
                    let p = self.bin(K::FLe, x, zero);
                    let p = self.and(p, ok);
                    let q = self.bin(K::FLe, v, y);
                    let t = self.imp(p, q);
                    o.push(t);
                    // adding zero: equal value
                    let xz = if x == a { az } else { bz };
                    let p = self.and(xz, ok);
                    let q = self.bin(K::FEq, v, y);
                    let t = self.imp(p, q);
                    o.push(t);
                }
                let e = self.bin(K::FLt, nbb, a);
                let p = self.bin(K::FLt, zero, v);
                let q = self.eq(e, p);
                let t = self.imp(ok, q);
                o.push(t);
                let e = self.bin(K::FLt, a, nbb);
                let p = self.bin(K::FLt, v, zero);
                let q = self.eq(e, p);
                let t = self.imp(ok, q);
                o.push(t);
            }
            _ => {
                let sa = self.extract(a, w - 1, w - 1);
                let sb = self.extract(b, w - 1, w - 1);
                let sv = self.extract(v, w - 1, w - 1);
                let sx = self.bin(K::Xor, sa, sb);
                let q = self.eq(sv, sx);
                let t = self.imp(ok, q);
                o.push(t);
                let le = |c: &mut Self, x: Id, y: Id| c.bin(K::Ule, x, y);
                if k == K::FMul {
                    let p = self.and(az, bi);
                    let q = self.and(ai, bz);
                    let bad = self.or(p, q);
                    let bad = self.or(anyn, bad);
                    let t = self.eq(nv, bad);
                    o.push(t);
                    for (x, y, xz) in [(aa, ab, az), (ab, aa, bz)] {
                        let p = le(self, y, one);
                        let p = self.and(p, ok);
                        let q = le(self, av, x);
                        let t = self.imp(p, q);
                        o.push(t);
                        let p = le(self, one, y);
                        let p = self.and(p, ok);
                        let q = le(self, x, av);
                        let t = self.imp(p, q);
                        o.push(t);
                        let p = self.and(xz, ok);
                        let t = self.imp(p, vz);
                        o.push(t);
                        // a factor at least one unit below 1 strictly shrinks a value away from the subnormals
                        let (c1, c2) = if w == 32 { (0x3f7f_fffeu128, c32(1e-30)) } else { (0x3fef_ffff_ffff_fffeu128, c64(1e-280)) };
                        let (c1, c2) = (self.k(c1, w), self.k(c2, w));
                        let p = le(self, y, c1);
                        let q = le(self, c2, x);
                        let p = self.and(p, q);
                        let p = self.and(p, ok);
                        let xi = self.bin(K::Ult, x, inf);
                        let p = self.and(p, xi);
                        let q = self.bin(K::Ult, av, x);
                        let t = self.imp(p, q);
                        o.push(t);
                    }
                } else {
                    let bothz = self.and(az, bz);
                    let bad = self.or(bothi, bothz);
                    let bad = self.or(anyn, bad);
                    let t = self.eq(nv, bad);
                    o.push(t);
                    let p = le(self, aa, ab);
                    let p = self.and(p, ok);
                    let q = le(self, av, one);
                    let t = self.imp(p, q);
                    o.push(t);
                    let p = le(self, ab, aa);
                    let p = self.and(p, ok);
                    let q = le(self, one, av);
                    let t = self.imp(p, q);
                    o.push(t);
                    let p = le(self, one, ab);
                    let p = self.and(p, ok);
                    let q = le(self, av, aa);
                    let t = self.imp(p, q);
                    o.push(t);
                    let p = le(self, ab, one);
                    let p = self.and(p, ok);
                    let q = le(self, aa, av);
                    let t = self.imp(p, q);
                    o.push(t);
                    let p = self.or(az, bi);
                    let p = self.and(p, ok);
                    let t = self.imp(p, vz);
                    o.push(t);
                }
            }
        }
        o
    }
    fn fp_ax2(&mut self, v1: Id, v2: Id, out: &mut Vec<Id>) {
        let (k, a1, b1) = self.absops[&v1];
        let (k2, a2, b2) = self.absops[&v2];
        let w = self.w(v1);
        if k != k2 || w != self.w(v2) {
            return;
        }
        let n1 = self.isnan(v1);
        let n2 = self.isnan(v2);
        let nn = self.or(n1, n2);
        let ok = self.not(nn);
        let zero = self.k(0, w);
        match k {
            K::FAdd => {
                for (x1, y1, x2, y2) in [(a1, b1, a2, b2), (a1, b1, b2, a2)] {
                    for (p1, q1, u1, p2, q2, u2) in [(x1, y1, v1, x2, y2, v2), (x2, y2, v2, x1, y1, v1)] {
                        let l = if p1 == p2 { self.t } else { self.bin(K::FLe, p1, p2) };
                        let m = if q1 == q2 { self.t } else { self.bin(K::FLe, q1, q2) };
                        let p = self.and(l, m);
                        let p = self.and(p, ok);
                        let q = self.bin(K::FLe, u1, u2);
                        let t = self.imp(p, q);
                        out.push(t);
                    }
                }
            }
            K::FMul | K::FDiv => {
                let mut cases = vec![];
                if b1 == b2 {
                    cases.push((b1, a1, a2, false));
                }
                if k == K::FMul {
                    if a1 == a2 {
                        cases.push((a1, b1, b2, false));
                    }
                    if a1 == b2 {
                        cases.push((a1, b1, a2, false));
                    }
                    if b1 == a2 {
                        cases.push((b1, a1, b2, false));
                    }
                } else if a1 == a2 {
                    cases.push((a1, b1, b2, true));
                }
                for (c, x, y, den) in cases {
                    if den {
                        // c/x vs c/y with c >= 0, 0 < x <= y
                        for (x, y, u, v) in [(x, y, v1, v2), (y, x, v2, v1)] {
                            let p = self.bin(K::FLe, zero, c);
                            let q = self.bin(K::FLt, zero, x);
                            let r = self.bin(K::FLe, x, y);
                            let p = self.and(p, q);
                            let p = self.and(p, r);
                            let p = self.and(p, ok);
                            let q = self.bin(K::FLe, v, u);
                            let t = self.imp(p, q);
                            out.push(t);
                        }
                        continue;
                    }
                    let pos = if k == K::FMul { self.bin(K::FLe, zero, c) } else { self.bin(K::FLt, zero, c) };
                    let neg = if k == K::FMul { self.bin(K::FLe, c, zero) } else { self.bin(K::FLt, c, zero) };
                    for (x, y, u, v) in [(x, y, v1, v2), (y, x, v2, v1)] {
                        let r = self.bin(K::FLe, x, y);
                        let r = self.and(r, ok);
                        let p = self.and(r, pos);
                        let q = self.bin(K::FLe, u, v);
                        let t = self.imp(p, q);
                        out.push(t);
                        let p = self.and(r, neg);
                        let q = self.bin(K::FLe, v, u);
                        let t = self.imp(p, q);
                        out.push(t);
                    }
                }
            }
            _ => {}
        }
    }
    // ------------------------------------------------------------ FP lowering
    pub fn lower(&mut self, e: Id) -> Id {
        if let Some(&x) = self.low.get(&e) {
            return x;
        }
        // iterative post-order to avoid deep recursion
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.low.contains_key(&x) {
                continue;
            }
            let (ch, nc) = self.children(x);
            if !done {
                st.push((x, true));
                for i in 0..nc {
                    if !self.low.contains_key(&ch[i]) {
                        st.push((ch[i], false))
                    }
                }
                continue;
            }
            let n = self.node(x);
            let l: Vec<Id> = ch[..nc].iter().map(|c| self.low[c]).collect();
            let w = n.w as u32;
            let r = match n.k {
                K::Const | K::Var => x,
                K::Not => self.not(l[0]),
                K::Ite => self.ite(l[0], l[1], l[2]),
                K::Extract => self.extract(l[0], n.b + w - 1, n.b),
                K::Concat => self.concat(l[0], l[1]),
                K::ZExt => self.zext(l[0], w),
                K::SExt => self.sext(l[0], w),
                K::Ctlz => self.c_ctlz(l[0]),
                K::Cttz => self.c_cttz(l[0]),
                K::Ctpop => self.c_ctpop(l[0]),
                K::FAdd => self.c_fadd(l[0], l[1]),
                K::FMul => self.c_fmul(l[0], l[1]),
                K::FDiv => self.c_fdiv(l[0], l[1]),
                K::FLt => self.c_flt(l[0], l[1], false),
                K::FLe => self.c_flt(l[0], l[1], true),
                K::FEq => self.c_feq(l[0], l[1]),
                K::FIsNan => self.c_isnan(l[0]),
                K::FPExt => self.c_fpext(l[0]),
                K::FPTrunc => self.c_fptrunc(l[0]),
                K::UIToFP => {
                    let s = self.f;
                    self.c_itofp(l[0], s, w)
                }
                K::SIToFP => {
                    let aw = self.w(l[0]);
                    let s = self.extract(l[0], aw - 1, aw - 1);
                    let z = self.k(0, aw);
                    let ng = self.sub(z, l[0]);
                    let m = self.ite(s, ng, l[0]);
                    self.c_itofp(m, s, w)
                }
                K::FPToUI => self.c_fptoi(l[0], w, false),
                K::FPToSI => self.c_fptoi(l[0], w, true),
                k => self.bin(k, l[0], l[1]),
            };
            self.low.insert(x, r);
        }
        self.low[&e]
    }
    fn fmt(w: u32) -> (u32, u32) {
        if w == 32 {
            (8, 23)
        } else {
            (11, 52)
        }
    }
    fn c_isnan(&mut self, a: Id) -> Id {
        let w = self.w(a);
        let (_eb, mb) = Self::fmt(w);
        let m = self.extract(a, w - 2, 0);
        let inf = self.k(mask(u128::MAX, w - 1 - mb) << mb, w - 1);
        self.ult(inf, m)
    }
    fn c_flt(&mut self, a: Id, b: Id, le: bool) -> Id {
        let w = self.w(a);
        let (na, nb) = (self.c_isnan(a), self.c_isnan(b));
        let nn = self.or(na, nb);
        let ma = self.extract(a, w - 2, 0);
        let mb = self.extract(b, w - 2, 0);
        let sa = self.extract(a, w - 1, w - 1);
        let sb = self.extract(b, w - 1, w - 1);
        let z = self.k(0, w - 1);
        let za = self.eq(ma, z);
        let zb = self.eq(mb, z);
        let bz = self.and(za, zb);
        let l1 = self.ult(ma, mb);
        let l2 = self.ult(mb, ma);
        let eq = self.eq(a, b);
        // same sign: sa ? mb<ma : ma<mb ; different: sa
        let same = self.ite(sa, l2, l1);
        let df = self.bin(K::Xor, sa, sb);
        let mut r = self.ite(df, sa, same);
        if le {
            r = self.or(r, eq);
            r = self.or(r, bz);
        } else {
            let nz = self.not(bz);
            r = self.and(r, nz);
        }
        let ok = self.not(nn);
        self.and(r, ok)
    }
    fn c_feq(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let na = self.c_isnan(a);
        let ma = self.extract(a, w - 2, 0);
        let mb = self.extract(b, w - 2, 0);
        let z = self.k(0, w - 1);
        let za = self.eq(ma, z);
        let zb = self.eq(mb, z);
        let bz = self.and(za, zb);
        let e = self.eq(a, b);
        let r = self.or(e, bz);
        let ok = self.not(na);
        self.and(r, ok)
    }
    fn c_ctlz(&mut self, a: Id) -> Id {
        let w = self.w(a);
        let mut r = self.k(w as u128, w);
        for i in 0..w {
            let bit = self.extract(a, i, i);
            let v = self.k((w - 1 - i) as u128, w);
            r = self.ite(bit, v, r);
        }
        r
    }
    fn c_cttz(&mut self, a: Id) -> Id {
        let w = self.w(a);
        let mut r = self.k(w as u128, w);
        for i in (0..w).rev() {
            let bit = self.extract(a, i, i);
            let v = self.k(i as u128, w);
            r = self.ite(bit, v, r);
        }
        r
    }
    fn c_ctpop(&mut self, a: Id) -> Id {
        let w = self.w(a);
        let mut r = self.k(0, w);
        for i in 0..w {
            let bit = self.extract(a, i, i);
            let z = self.zext(bit, w);
            r = self.add(r, z);
        }
        r
    }
    /// shift left until the top bit is set; returns (shifted, count as bv(cw))
    fn norm(&mut self, mut a: Id, cw: u32) -> (Id, Id) {
        let w = self.w(a);
        let mut cnt = self.k(0, cw);
        let mut s = 1;
        while s * 2 < w {
            s *= 2
        }
        while s >= 1 {
            let top = self.extract(a, w - 1, w - s);
            let z = self.k(0, s);
            let iz = self.eq(top, z);
            let sh = self.k(s as u128, w);
            let sl = self.bin(K::Shl, a, sh);
            a = self.ite(iz, sl, a);
            let c1 = self.k(s as u128, cw);
            let c2 = self.add(cnt, c1);
            cnt = self.ite(iz, c2, cnt);
            s /= 2;
        }
        (a, cnt)
    }
    fn or_reduce(&mut self, a: Id) -> Id {
        let w = self.w(a);
        let z = self.k(0, w);
        let e = self.eq(a, z);
        self.not(e)
    }
    /// sign, biased exponent e (signed bv, ew bits), sig: normalised (top bit set) mb+1+3 bits whose
    /// last bit is sticky. e is the biased exponent of a value 1.xxx. Rounds to nearest even, handles
    /// subnormals and overflow.
    fn round_pack(&mut self, w: u32, sign: Id, e: Id, sig: Id) -> Id {
        let (eb, mb) = Self::fmt(w);
        let ew = self.w(e);
        let sw = mb + 4;
        debug_assert_eq!(self.w(sig), sw);
        // subnormal: if e <= 0 shift right by 1-e
        let one = self.k(1, ew);
        let zero = self.k(0, ew);
        let sub = self.bin(K::Slt, e, one);
        let sh = self.sub(one, e);
        // clamp shift to sw
        let swk = self.k(sw as u128, ew);
        let big = self.bin(K::Slt, swk, sh);
        let shc = self.ite(big, swk, sh);
        let shc = self.ite(sub, shc, zero);
        let shs = if ew >= sw { self.extract(shc, sw - 1, 0) } else { self.zext(shc, sw) };
        let shifted = self.bin(K::LShr, sig, shs);
        let back = self.bin(K::Shl, shifted, shs);
        let same = self.eq(back, sig);
        let lost = self.not(same);
        let lz = self.zext(lost, sw);
        let sg = self.or(shifted, lz);
        let e2 = self.ite(sub, zero, e);
        // mantissa with hidden bit: sg[sw-1..3]; for normal, hidden=1 so exponent field = e2 with hidden dropped
        let man = self.extract(sg, sw - 2, 3); // mb bits
        let g = self.extract(sg, 2, 2);
        let rs = self.extract(sg, 1, 0);
        let rs = self.or_reduce(rs);
        let lsb = self.extract(sg, 3, 3);
        let t = self.or(rs, lsb);
        let up = self.and(g, t);
        // overflow check before rounding (e2 >= 2^eb - 1)
        let maxe = self.k(mask(u128::MAX, eb), ew);
        let lt = self.bin(K::Slt, e2, maxe);
        let ef = self.extract(e2, eb - 1, 0);
        let pk = self.concat(ef, man); // w-1 bits
        let upz = self.zext(up, w - 1);
        let pk = self.add(pk, upz);
        let inf = self.k(mask(u128::MAX, eb) << mb, w - 1);
        let body = self.ite(lt, pk, inf);
        self.concat(sign, body)
    }
    fn parts(&mut self, a: Id) -> (Id, Id, Id, Id, Id, Id) {
        // sign, exp, man, isnan, isinf, iszero
        let w = self.w(a);
        let (eb, mb) = Self::fmt(w);
        let s = self.extract(a, w - 1, w - 1);
        let e = self.extract(a, w - 2, mb);
        let m = self.extract(a, mb - 1, 0);
        let ones = self.k(u128::MAX, eb);
        let zm = self.k(0, mb);
        let em = self.eq(e, ones);
        let mz = self.eq(m, zm);
        let nmz = self.not(mz);
        let nan = self.and(em, nmz);
        let inf = self.and(em, mz);
        let mag = self.extract(a, w - 2, 0);
        let z = self.k(0, w - 1);
        let iz = self.eq(mag, z);
        (s, e, m, nan, inf, iz)
    }
    fn c_fadd(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let (eb, mb) = Self::fmt(w);
        let ma0 = self.extract(a, w - 2, 0);
        let mb0 = self.extract(b, w - 2, 0);
        let sw = self.ult(ma0, mb0);
        let x = self.ite(sw, b, a);
        let y = self.ite(sw, a, b);
        let (sx, ex, mx, nx, ix, _zx) = self.parts(x);
        let (sy, ey, my, ny, iy, _zy) = self.parts(y);
        let zero_e = self.k(0, eb);
        let one_e = self.k(1, eb);
        let xs = self.eq(ex, zero_e);
        let ys = self.eq(ey, zero_e);
        let ex1 = self.ite(xs, one_e, ex);
        let ey1 = self.ite(ys, one_e, ey);
        let hx = self.not(xs);
        let hy = self.not(ys);
        let d = self.sub(ex1, ey1);
        // mantissas with 3 guard bits, total mb+1+3 ; plus one carry bit
        let z3 = self.k(0, 3);
        let sgx = self.concat(hx, mx);
        let sgx = self.concat(sgx, z3);
        let sgy = self.concat(hy, my);
        let sgy = self.concat(sgy, z3);
        let n = mb + 4;
        let dz = self.zext(d, n);
        // clamp not needed: lshr by >= n gives 0
        let shr = self.bin(K::LShr, sgy, dz);
        let back = self.bin(K::Shl, shr, dz);
        let same = self.eq(back, sgy);
        let lost = self.not(same);
        let lostz = self.zext(lost, n);
        let sy_ = self.or(shr, lostz);
        let eff = self.bin(K::Xor, sx, sy);
        let xw = self.zext(sgx, n + 1);
        let yw = self.zext(sy_, n + 1);
        let sum = self.add(xw, yw);
        let dif = self.sub(xw, yw);
        let r = self.ite(eff, dif, sum); // n+1 bits
        // normalise n+1 bits so that top bit is set
        let ew = eb + 2;
        let (nr, cnt) = self.norm(r, ew);
        let ez = self.zext(ex1, ew);
        let one = self.k(1, ew);
        let e1 = self.add(ez, one);
        let e2 = self.sub(e1, cnt);
        // reduce to n bits w/ sticky
        let hi = self.extract(nr, n, 1);
        let lo = self.extract(nr, 0, 0);
        let loz = self.zext(lo, n);
        let sig = self.or(hi, loz);
        let rp = self.round_pack(w, sx, e2, sig);
        // zero result
        let z = self.k(0, n + 1);
        let rz = self.eq(r, z);
        let szero = self.and(sx, sy);
        let zb = self.k(0, w - 1);
        let zr = self.concat(szero, zb);
        let res = self.ite(rz, zr, rp);
        // inf
        let res = self.ite(ix, x, res);
        let both = self.and(ix, iy);
        let opp = self.and(both, eff);
        let nan = self.or(nx, ny);
        let nan = self.or(nan, opp);
        let nanv = self.k(if w == 32 { NAN32 as u128 } else { NAN64 as u128 }, w);
        self.ite(nan, nanv, res)
    }
    /// normalised mantissa (mb+1 bits, top set) and exponent (signed ew bits, biased) of a nonzero finite
    fn unpack_norm(&mut self, e: Id, m: Id, ew: u32) -> (Id, Id) {
        let eb = self.w(e);
        let ze = self.k(0, eb);
        let sub = self.eq(e, ze);
        let h = self.not(sub);
        let sg = self.concat(h, m);
        let (ns, cnt) = self.norm(sg, ew);
        let one_e = self.k(1, eb);
        let e1 = self.ite(sub, one_e, e);
        let e1 = self.zext(e1, ew);
        let e2 = self.sub(e1, cnt);
        (ns, e2)
    }
    fn c_fmul(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let (eb, mb) = Self::fmt(w);
        let bias = (1u128 << (eb - 1)) - 1;
        let (sa, ea, ma, na, ia, za) = self.parts(a);
        let (sb, eb_, mb_, nb, ib, zb) = self.parts(b);
        let s = self.bin(K::Xor, sa, sb);
        let ew = eb + 3;
        let (ga, xa) = self.unpack_norm(ea, ma, ew);
        let (gb, xb) = self.unpack_norm(eb_, mb_, ew);
        let pw = 2 * (mb + 1);
        let ga = self.zext(ga, pw);
        let gb = self.zext(gb, pw);
        let p = self.bin(K::Mul, ga, gb);
        let top = self.extract(p, pw - 1, pw - 1);
        let one = self.k(1, pw);
        let p1 = self.bin(K::Shl, p, one);
        let p2 = self.ite(top, p, p1);
        let e = self.add(xa, xb);
        let bk = self.k(bias, ew);
        let e = self.sub(e, bk);
        let t = self.zext(top, ew);
        let e = self.add(e, t);
        let n = mb + 4;
        let hi = self.extract(p2, pw - 1, pw - n);
        let lo = self.extract(p2, pw - n - 1, 0);
        let st = self.or_reduce(lo);
        let stz = self.zext(st, n);
        let sig = self.or(hi, stz);
        let rp = self.round_pack(w, s, e, sig);
        let zbits = self.k(0, w - 1);
        let zr = self.concat(s, zbits);
        let z = self.or(za, zb);
        let res = self.ite(z, zr, rp);
        let infb = self.k(mask(u128::MAX, eb) << mb, w - 1);
        let infr = self.concat(s, infb);
        let i = self.or(ia, ib);
        let res = self.ite(i, infr, res);
        let nan = self.or(na, nb);
        let bad = self.and(i, z);
        let nan = self.or(nan, bad);
        let nanv = self.k(if w == 32 { NAN32 as u128 } else { NAN64 as u128 }, w);
        self.ite(nan, nanv, res)
    }
    fn c_fdiv(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let (eb, mb) = Self::fmt(w);
        let bias = (1u128 << (eb - 1)) - 1;
        let (sa, ea, ma, na, ia, za) = self.parts(a);
        let (sb, eb_, mb_, nb, ib, zb) = self.parts(b);
        let s = self.bin(K::Xor, sa, sb);
        let ew = eb + 3;
        let (ga, xa) = self.unpack_norm(ea, ma, ew);
        let (gb, xb) = self.unpack_norm(eb_, mb_, ew);
        // restoring division: n+1 quotient bits of ga/gb (in [1/2,2))
        let n = mb + 4; // 27 for f32
        let rw = mb + 2;
        let mut r = self.zext(ga, rw);
        let d = self.zext(gb, rw);
        let mut q: Option<Id> = None;
        for i in 0..n {
            let ge = self.ule(d, r);
            let sb_ = self.sub(r, d);
            let r2 = self.ite(ge, sb_, r);
            q = Some(match q {
                None => ge,
                Some(q) => self.concat(q, ge),
            });
            if i + 1 < n {
                let one = self.k(1, rw);
                r = self.bin(K::Shl, r2, one);
            } else {
                r = r2;
            }
        }
        let q = q.unwrap(); // n bits: first is integer bit
        let st = self.or_reduce(r);
        let top = self.extract(q, n - 1, n - 1);
        // if top not set shift left by one (low bit 0, sticky ORed); one bit of precision: n=mb+4 has g,r,s => after shift still mb+1+2 + sticky
        let one = self.k(1, n);
        let q1 = self.bin(K::Shl, q, one);
        let q2 = self.ite(top, q, q1);
        let stz = self.zext(st, n);
        let sig = self.or(q2, stz);
        let e = self.sub(xa, xb);
        let bk = self.k(bias, ew);
        let e = self.add(e, bk);
        let nt = self.not(top);
        let t = self.zext(nt, ew);
        let e = self.sub(e, t);
        let rp = self.round_pack(w, s, e, sig);
        let zbits = self.k(0, w - 1);
        let zr = self.concat(s, zbits);
        let infb = self.k(mask(u128::MAX, eb) << mb, w - 1);
        let infr = self.concat(s, infb);
        let toz = self.or(za, ib);
        let res = self.ite(toz, zr, rp);
        let toi = self.or(ia, zb);
        let res = self.ite(toi, infr, res);
        let nan = self.or(na, nb);
        let b1 = self.and(za, zb);
        let b2 = self.and(ia, ib);
        let nan = self.or(nan, b1);
        let nan = self.or(nan, b2);
        let nanv = self.k(if w == 32 { NAN32 as u128 } else { NAN64 as u128 }, w);
        self.ite(nan, nanv, res)
    }
    fn c_fpext(&mut self, a: Id) -> Id {
        let (s, e, m, nan, inf, z) = self.parts(a);
        let ew = 12;
        let (g, x) = self.unpack_norm(e, m, ew);
        let k = self.k(1023 - 127, ew);
        let e2 = self.add(x, k);
        let ef = self.extract(e2, 10, 0);
        let man = self.extract(g, 22, 0);
        let z29 = self.k(0, 29);
        let man = self.concat(man, z29);
        let r = self.concat(ef, man);
        let zz = self.k(0, 63);
        let r = self.ite(z, zz, r);
        let ii = self.k(0x7ffu128 << 52, 63);
        let r = self.ite(inf, ii, r);
        let r = self.concat(s, r);
        let nn = self.k(NAN64 as u128, 64);
        self.ite(nan, nn, r)
    }
    fn c_fptrunc(&mut self, a: Id) -> Id {
        let (s, e, m, nan, inf, _z) = self.parts(a);
        let ew = 13;
        // subnormal doubles round to zero in f32: treat exponent 0 as value with e very small
        let ze = self.k(0, 11);
        let sub = self.eq(e, ze);
        let h = self.k(1, 1);
        let g = self.concat(h, m); // 53 bits
        let hi = self.extract(g, 52, 53 - 27);
        let lo = self.extract(g, 25, 0);
        let st = self.or_reduce(lo);
        let stz = self.zext(st, 27);
        let sig = self.or(hi, stz);
        let ez = self.zext(e, ew);
        let k = self.k(1023 - 127, ew);
        let e2 = self.sub(ez, k);
        let rp = self.round_pack(32, s, e2, sig);
        let zb = self.k(0, 31);
        let zr = self.concat(s, zb);
        let r = self.ite(sub, zr, rp);
        let ib = self.k(0xffu128 << 23, 31);
        let ir = self.concat(s, ib);
        let r = self.ite(inf, ir, r);
        let nn = self.k(NAN32 as u128, 32);
        self.ite(nan, nn, r)
    }
    fn c_itofp(&mut self, a: Id, sign: Id, w: u32) -> Id {
        let (eb, mb) = Self::fmt(w);
        let bias = (1u128 << (eb - 1)) - 1;
        let n = mb + 4;
        let aw0 = self.w(a);
        let aw = aw0.max(n + 1);
        let a2 = self.zext(a, aw);
        let ew = eb + 3;
        let (g, cnt) = self.norm(a2, ew);
        let hi = self.extract(g, aw - 1, aw - n);
        let lo = self.extract(g, aw - n - 1, 0);
        let st = self.or_reduce(lo);
        let stz = self.zext(st, n);
        let sig = self.or(hi, stz);
        let top = self.k(bias + (aw as u128 - 1), ew);
        let e = self.sub(top, cnt);
        let rp = self.round_pack(w, sign, e, sig);
        let z = self.k(0, aw0);
        let iz = self.eq(a, z);
        let zr = self.k(0, w);
        self.ite(iz, zr, rp)
    }
    fn c_fptoi(&mut self, a: Id, w: u32, signed: bool) -> Id {
        let fw = self.w(a);
        let (eb, mb) = Self::fmt(fw);
        let bias = (1u128 << (eb - 1)) - 1;
        let (s, e, m, nan, _inf, _z) = self.parts(a);
        let h = self.k(1, 1);
        let g = self.concat(h, m); // mb+1
        let tw = w + mb + 2;
        let g = self.zext(g, tw);
        // value = g * 2^(e-bias-mb); compute g << (e-bias) >> mb
        let ew = eb + 1;
        let ez = self.zext(e, ew);
        let bk = self.k(bias, ew);
        let x = self.sub(ez, bk); // signed
        let neg = self.bin(K::Slt, ez, bk); // e<bias (both non-negative in ew bits) -> 0
        let lim = if signed { w - 1 } else { w };
        let limk = self.k(lim as u128, ew);
        let big0 = self.bin(K::Sle, limk, x);
        let xz = if tw >= ew { self.zext(x, tw) } else { self.extract(x, tw - 1, 0) };
        let sh = self.bin(K::Shl, g, xz);
        let mbk = self.k(mb as u128, tw);
        let v = self.bin(K::LShr, sh, mbk);
        let v = self.extract(v, w - 1, 0);
        let z = self.k(0, w);
        let v = self.ite(neg, z, v);
        if signed {
            let mx = self.k((1u128 << (w - 1)) - 1, w);
            let mn = self.k(1u128 << (w - 1), w);
            let nv = self.sub(z, v);
            let pos = self.ite(big0, mx, v);
            let ng = self.ite(big0, mn, nv);
            let r = self.ite(s, ng, pos);
            self.ite(nan, z, r)
        } else {
            let mx = self.k(u128::MAX, w);
            let r = self.ite(big0, mx, v);
            let r = self.ite(s, z, r);
            self.ite(nan, z, r)
        }
    }
    pub fn show(&self, e: Id, d: u32) -> String {
        let n = self.node(e);
        match n.k {
            K::Const => format!("{:#x}", self.consts[n.a as usize]),
            K::Var => format!("v{}", n.a),
            _ if d == 0 => "..".into(),
            K::Extract => format!("{}[{}..{}]", self.show(n.a, d - 1), n.b + n.w as u32 - 1, n.b),
            _ => {
                let (c, k) = self.children(e);
                let s: Vec<String> = c[..k].iter().map(|&x| self.show(x, d - 1)).collect();
                format!("{:?}({})", n.k, s.join(","))
            }
        }
    }
}
pub fn is_nan(v: u128, w: u32) -> bool {
    if w == 32 {
        f32_(v).is_nan()
    } else {
        f64_(v).is_nan()
    }
}

/// self test of the floating point circuits against the hardware
pub fn selftest(iters: u64) -> Result<u64, String> {
    let mut s = 0x1234567u64;
    let mut rnd = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s.wrapping_mul(0x2545F4914F6CDD1D)
    };
    let sp32: Vec<u32> = vec![0, 0x80000000, 1, 0x80000001, 0x007fffff, 0x00800000, 0x3f800000, 0xbf800000, 0x7f7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0x3f7fffff, 0x3f800001, 0x4b7fffff, 0x4b800000, 0x5f800000, 0x5f7fffff];
    let mut count = 0;
    let mut c = Ctx::new();
    let a = c.var(0, 32);
    let b = c.var(1, 32);
    let a64 = c.var(2, 64);
    let b64 = c.var(3, 64);
    let ks: Vec<(K, Id)> = {
        let mut v = vec![];
        for k in [K::FAdd, K::FMul, K::FDiv, K::FLt, K::FLe, K::FEq] {
            v.push((k, c.bin(k, a, b)));
            v.push((k, c.bin(k, a64, b64)));
        }
        for (k, w, x) in [
            (K::FPExt, 64, a),
            (K::FPTrunc, 32, a64),
            (K::UIToFP, 32, a64),
            (K::UIToFP, 64, a64),
            (K::UIToFP, 32, a),
            (K::SIToFP, 32, a64),
            (K::SIToFP, 64, a64),
            (K::FPToUI, 64, a),
            (K::FPToUI, 64, a64),
            (K::FPToUI, 32, a),
            (K::FPToSI, 64, a),
            (K::FPToSI, 32, a64),
            (K::Ctlz, 64, a64),
            (K::Cttz, 64, a64),
            (K::Ctpop, 64, a64),
        ] {
            v.push((k, c.un(k, w, x)));
        }
        let n = c.isnan(a);
        v.push((K::FIsNan, n));
        v
    };
    let lows: Vec<Id> = ks.iter().map(|&(_, e)| c.lower(e)).collect();
    for it in 0..iters {
        let g32 = |r: u64| -> u32 {
            match r % 5 {
                0 => sp32[(r >> 8) as usize % sp32.len()],
                1 => (((r >> 8) as u32) & 0x807fffff) | (0x3f800000u32.wrapping_add((((r >> 40) % 60) as u32) << 23).wrapping_sub(30 << 23)),
                2 => ((r >> 8) as u32) & 0x80ffffff,
                _ => (r >> 16) as u32,
            }
        };
        let (r0, r1, r2, r3) = (rnd(), rnd(), rnd(), rnd());
        let (x, y) = (g32(r0), g32(r1));
        let g64 = |r: u64, q: u32| -> u64 {
            match r % 6 {
                0 => (f32::from_bits(q) as f64).to_bits(),
                1 => (r >> 3) & 0x800fffffffffffff | (0x3ff0000000000000u64.wrapping_add(((r >> 5) % 300) << 52).wrapping_sub(150 << 52)),
                2 => (f32::from_bits(q) as f64).to_bits().wrapping_add(1 << 28),
                3 => (f32::from_bits(q) as f64).to_bits().wrapping_add((r >> 60) + (1 << 28)),
                4 => r >> (r & 63),
                _ => r,
            }
        };
        let (p, q) = (g64(r2, x), g64(r3, y));
        let env = |v: u32| -> u128 {
            match v {
                0 => x as u128,
                1 => y as u128,
                2 => p as u128,
                _ => q as u128,
            }
        };
        let mut m1 = FxMap::default();
        for (i, &(k, e)) in ks.iter().enumerate() {
            let u = c.eval(e, &env, &mut m1);
            let v = c.eval(lows[i], &env, &mut m1);
            count += 1;
            if u != v {
                return Err(format!("iter {it}: {k:?} w{} x={x:#x} y={y:#x} p={p:#x} q={q:#x}: native {u:#x} circuit {v:#x}", c.w(e)));
            }
        }
    }
    Ok(count)
}
