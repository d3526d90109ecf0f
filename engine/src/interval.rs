//! Bounds on floating-point subexpressions implied by a set of constraints. Bounds are propagated with the
//! machine's own arithmetic (round-to-nearest is monotone, so endpoints map to endpoints).
use crate::expr::*;
use crate::ir::mask;
use crate::math::{self, MathFn};

#[derive(Clone, Copy, Debug)]
pub struct Iv {
    pub lo: f64,
    pub hi: f64,
    pub nan: bool,
}
pub const TOP: Iv = Iv { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan: true };
impl Iv {
    fn pt(v: f64) -> Iv {
        if v.is_nan() {
            TOP
        } else {
            Iv { lo: v, hi: v, nan: false }
        }
    }
    fn meet(self, o: Iv) -> Iv {
        Iv { lo: self.lo.max(o.lo), hi: self.hi.min(o.hi), nan: self.nan && o.nan }
    }
    fn top(&self) -> bool {
        self.nan && self.lo == f64::NEG_INFINITY && self.hi == f64::INFINITY
    }
}
/// bounds carried along one path, for deciding branches without a solver call
#[derive(Default)]
pub struct Bounds {
    refine: FxMap<Id, Iv>,
    memo: FxMap<Id, Iv>,
    le: FxMap<Id, Vec<Id>>,
    ints: FxMap<Id, (u128, u128)>,
}
type MathOf<'a> = &'a dyn Fn(u32) -> Option<(MathFn, Id, u128, Id, u128, u32)>;
impl Bounds {
    pub fn clear(&mut self) {
        self.refine.clear();
        self.memo.clear();
        self.le.clear();
        self.ints.clear();
    }
    fn with<R>(&mut self, cx: &Ctx, math: MathOf, f: impl FnOnce(&mut Ivs) -> R) -> R {
        let mut s = Ivs { cx, math, refine: std::mem::take(&mut self.refine), memo: std::mem::take(&mut self.memo), le: std::mem::take(&mut self.le), depth: 0 };
        let r = f(&mut s);
        self.refine = s.refine;
        self.memo = s.memo;
        self.le = s.le;
        r
    }
    fn int(&self, cx: &Ctx, e: Id, d: u32) -> (u128, u128) {
        let w = cx.w(e);
        if let Some(v) = cx.cv(e) {
            return (v, v);
        }
        let n = cx.node(e);
        let mut r = (0, mask(u128::MAX, w));
        if d < 6 {
            match n.k {
                K::ZExt => r = self.int(cx, n.a, d + 1),
                K::Ite => {
                    let (a, b) = (self.int(cx, n.b, d + 1), self.int(cx, n.c, d + 1));
                    r = (a.0.min(b.0), a.1.max(b.1));
                }
                _ => {}
            }
        }
        if let Some(i) = self.ints.get(&e) {
            r = (r.0.max(i.0), r.1.min(i.1));
        }
        r
    }
    fn int_narrow(&mut self, cx: &Ctx, e: Id, lo: u128, hi: u128) {
        if cx.cv(e).is_some() {
            return;
        }
        let n = cx.node(e);
        let i = self.ints.entry(e).or_insert((0, u128::MAX));
        *i = (i.0.max(lo), i.1.min(hi));
        if n.k == K::ZExt {
            self.int_narrow(cx, n.a, lo, hi);
        }
    }
    /// the path condition grows by e
    pub fn add(&mut self, cx: &Ctx, math: MathOf, e: Id) {
        let mut st = vec![(e, true)];
        while let Some((e, v)) = st.pop() {
            let n = cx.node(e);
            match n.k {
                K::Not => st.push((n.a, !v)),
                K::And if v && n.w == 1 => st.extend([(n.a, v), (n.b, v)]),
                K::Or if !v && n.w == 1 => st.extend([(n.a, v), (n.b, v)]),
                K::Ult => {
                    let (a, b) = (self.int(cx, n.a, 0), self.int(cx, n.b, 0));
                    if v {
                        self.int_narrow(cx, n.a, 0, b.1.saturating_sub(1));
                        self.int_narrow(cx, n.b, a.0.saturating_add(1), u128::MAX);
                    } else {
                        self.int_narrow(cx, n.b, 0, a.1);
                        self.int_narrow(cx, n.a, b.0, u128::MAX);
                    }
                    if !v {
                        self.with(cx, math, |s| {
                            s.not_nan_bits(e);
                        })
                    }
                }
                K::Eq => {
                    if v {
                        let (a, b) = (self.int(cx, n.a, 0), self.int(cx, n.b, 0));
                        self.int_narrow(cx, n.a, b.0, b.1);
                        self.int_narrow(cx, n.b, a.0, a.1);
                    }
                    self.with(cx, math, |s| {
                        s.literal(e, v, true);
                    })
                }
                K::FLt | K::FLe | K::FEq | K::FIsNan => self.with(cx, math, |s| {
                    if s.literal(e, v, true) {
                        s.memo.clear()
                    }
                }),
                _ => {}
            }
        }
    }
    /// the value e must have on this path, if the bounds alone tell
    pub fn decide(&mut self, cx: &Ctx, math: MathOf, e: Id, d: u32) -> Option<bool> {
        let n = cx.node(e);
        match n.k {
            K::Not => self.decide(cx, math, n.a, d).map(|b| !b),
            K::And | K::Or if n.w == 1 && d < 4 => {
                let dom = n.k == K::Or;
                let a = self.decide(cx, math, n.a, d + 1);
                if a == Some(dom) {
                    return a;
                }
                let b = self.decide(cx, math, n.b, d + 1);
                if b == Some(dom) {
                    return b;
                }
                (a.is_some() && b.is_some()).then_some(!dom)
            }
            K::Ult => {
                let (a, b) = (self.int(cx, n.a, 0), self.int(cx, n.b, 0));
                if a.1 < b.0 {
                    Some(true)
                } else if a.0 >= b.1 {
                    Some(false)
                } else {
                    None
                }
            }
            K::Eq => {
                let (a, b) = (self.int(cx, n.a, 0), self.int(cx, n.b, 0));
                (a.1 < b.0 || b.1 < a.0).then_some(false)
            }
            K::FLt | K::FLe | K::FEq => self.with(cx, math, |s| {
                let (a, b) = (s.get(n.a), s.get(n.b));
                let sure = !a.nan && !b.nan;
                match n.k {
                    K::FLt if sure && a.hi < b.lo => Some(true),
                    K::FLt if a.lo >= b.hi => Some(false),
                    K::FLe if sure && a.hi <= b.lo => Some(true),
                    K::FLe if a.lo > b.hi => Some(false),
                    K::FEq if a.lo > b.hi || b.lo > a.hi => Some(false),
                    _ => None,
                }
            }),
            K::FIsNan => self.with(cx, math, |s| (!s.get(n.a).nan).then_some(false)),
            _ => None,
        }
    }
}
pub struct Ivs<'a> {
    depth: u32,
    cx: &'a Ctx,
    math: &'a dyn Fn(u32) -> Option<(MathFn, Id, u128, Id, u128, u32)>,
    pub refine: FxMap<Id, Iv>,
    memo: FxMap<Id, Iv>,
    /// a <= b edges (both not NaN)
    le: FxMap<Id, Vec<Id>>,
}
fn val(v: u128, w: u32) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v as u64)
    }
}
fn rnd(v: f64, w: u32) -> f64 {
    if w == 32 {
        v as f32 as f64
    } else {
        v
    }
}
fn app(f: MathFn, w: u32, x: f64) -> f64 {
    let a = if w == 32 { c32(x as f32) } else { c64(x) };
    val(math::apply(f, w, a, 0), w)
}
fn comb(a: Iv, b: Iv, f: impl Fn(f64, f64) -> f64, nan: bool) -> Iv {
    let mut lo = f64::INFINITY;
    let mut hi = f64::NEG_INFINITY;
    for x in [a.lo, a.hi] {
        for y in [b.lo, b.hi] {
            let r = f(x, y);
            if r.is_nan() {
                return Iv { nan, ..TOP };
            }
            lo = lo.min(r);
            hi = hi.max(r);
        }
    }
    Iv { lo, hi, nan }
}
impl<'a> Ivs<'a> {
    pub fn new(cx: &'a Ctx, math: &'a dyn Fn(u32) -> Option<(MathFn, Id, u128, Id, u128, u32)>, cs: &[Id]) -> Ivs<'a> {
        let mut s = Ivs { cx, math, refine: FxMap::default(), memo: FxMap::default(), le: FxMap::default(), depth: 0 };
        // top-level conjuncts
        let mut lits: Vec<(Id, bool)> = vec![];
        let mut st: Vec<(Id, bool)> = cs.iter().map(|&c| (c, true)).collect();
        while let Some((e, v)) = st.pop() {
            let n = cx.node(e);
            match n.k {
                K::Not => st.push((n.a, !v)),
                K::And if v && n.w == 1 => {
                    st.push((n.a, v));
                    st.push((n.b, v));
                }
                K::Or if !v && n.w == 1 => {
                    st.push((n.a, v));
                    st.push((n.b, v));
                }
                K::FLt | K::FLe | K::FEq | K::FIsNan => lits.push((e, v)),
                K::Eq if v && (cx.w(n.a) == 32 || cx.w(n.a) == 64) => lits.push((e, v)),
                K::Eq if !v => {
                    // exponent bits not all ones: finite
                    let w = cx.w(n.a);
                    let m: u128 = if w == 32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 };
                    let x = cx.node(n.a);
                    if (w == 32 || w == 64) && cx.cv(n.b) == Some(m) && x.k == K::And && cx.cv(x.b) == Some(m) {
                        let mx = if w == 32 { f32::MAX as f64 } else { f64::MAX };
                        s.narrow(x.a, Iv { lo: -mx, hi: mx, nan: false });
                    }
                }
                K::Ult if !v => s.not_nan_bits(e),
                _ => {}
            }
        }
        for round in 0..3 {
            let mut changed = false;
            for &(e, v) in &lits {
                changed |= s.literal(e, v, round == 0);
            }
            if changed || round == 0 {
                s.memo.clear();
            } else {
                break;
            }
        }
        s
    }
    /// ¬(inf bits < magnitude bits): not NaN
    fn not_nan_bits(&mut self, e: Id) {
        let cx = self.cx;
        let n = cx.node(e);
        let w = cx.w(n.a);
        let m: u128 = if w == 32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 };
        let x = cx.node(n.b);
        if (w == 32 || w == 64) && cx.cv(n.a) == Some(m) {
            let y = if x.k == K::And && cx.cv(x.b) == Some((1 << (w - 1)) - 1) {
                Some(x.a)
            } else if x.k == K::ZExt {
                let q = cx.node(x.a);
                (q.k == K::Extract && q.b == 0 && q.w as u32 == w - 1 && cx.w(q.a) == w).then_some(q.a)
            } else {
                None
            };
            if let Some(y) = y {
                self.narrow(y, Iv { nan: false, ..TOP });
            }
        }
    }
    /// narrow by one literal
    fn literal(&mut self, e: Id, v: bool, edges: bool) -> bool {
        let cx = self.cx;
        let n = cx.node(e);
        if n.k == K::FIsNan {
            return !v && self.narrow(n.a, Iv { nan: false, ..TOP });
        }
        let (a, b) = (self.get(n.a), self.get(n.b));
        let w = cx.w(n.a);
        if w != 32 && w != 64 {
            return false;
        }
        let mut changed = false;
        match (n.k, v) {
            (K::FLt, true) | (K::FLe, true) => {
                changed |= self.narrow(n.a, Iv { lo: f64::NEG_INFINITY, hi: b.hi, nan: false });
                changed |= self.narrow(n.b, Iv { lo: a.lo, hi: f64::INFINITY, nan: false });
                if edges {
                    self.edge(n.a, n.b);
                }
            }
            (K::FLt, false) | (K::FLe, false) if !a.nan && !b.nan => {
                // b <= a
                changed |= self.narrow(n.b, Iv { lo: f64::NEG_INFINITY, hi: a.hi, nan: false });
                changed |= self.narrow(n.a, Iv { lo: b.lo, hi: f64::INFINITY, nan: false });
                self.edge(n.b, n.a);
            }
            (K::FEq, true) => {
                changed |= self.narrow(n.a, Iv { lo: b.lo, hi: b.hi, nan: false });
                changed |= self.narrow(n.b, Iv { lo: a.lo, hi: a.hi, nan: false });
                if edges {
                    self.edge(n.a, n.b);
                    self.edge(n.b, n.a);
                }
            }
            (K::Eq, true) => {
                // bitwise equality with a constant
                if let Some(c) = cx.cv(n.b) {
                    changed |= self.narrow(n.a, Iv::pt(val(c, w)));
                } else if let Some(c) = cx.cv(n.a) {
                    changed |= self.narrow(n.b, Iv::pt(val(c, w)));
                }
            }
            (K::Eq, false) => {
                // exponent bits not all ones: finite
                let m: u128 = if w == 32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 };
                let x = cx.node(n.a);
                if cx.cv(n.b) == Some(m) && x.k == K::And && cx.cv(x.b) == Some(m) {
                    let mx = if w == 32 { f32::MAX as f64 } else { f64::MAX };
                    changed |= self.narrow(x.a, Iv { lo: -mx, hi: mx, nan: false });
                }
            }
            _ => {}
        }
        changed
    }
    fn edge(&mut self, a: Id, b: Id) {
        let v = self.le.entry(a).or_default();
        if !v.contains(&b) {
            v.push(b)
        }
    }
    fn narrow(&mut self, e: Id, i: Iv) -> bool {
        if self.cx.cv(e).is_some() {
            return false;
        }
        let w = self.cx.w(e);
        if w != 32 && w != 64 {
            return false;
        }
        let x = self.cx.node(e);
        let ext = self.cx.node(x.a);
        if x.k == K::ZExt && ext.k == K::Extract && ext.b == 0 && ext.w as u32 == w - 1 && self.cx.w(ext.a) == w {
            // absolute value
            return self.narrow(ext.a, Iv { lo: -i.hi, hi: i.hi, nan: i.nan });
        }
        if let Some(y) = self.negated(e) {
            return self.narrow(y, Iv { lo: -i.hi, hi: -i.lo, nan: i.nan });
        }
        let o = self.refine.get(&e).copied().unwrap_or(TOP);
        let n = o.meet(i);
        if n.lo != o.lo || n.hi != o.hi || n.nan != o.nan {
            self.refine.insert(e, n);
            return true;
        }
        false
    }
    fn leq(&self, a: Id, b: Id) -> bool {
        if a == b {
            return true;
        }
        let mut seen = vec![a];
        let mut i = 0;
        while i < seen.len() {
            if let Some(v) = self.le.get(&seen[i]) {
                for &x in v {
                    if x == b {
                        return true;
                    }
                    if !seen.contains(&x) && seen.len() < 64 {
                        seen.push(x)
                    }
                }
            }
            i += 1;
        }
        false
    }
    /// x with e == -x, if e is a sign flip
    fn negated(&self, e: Id) -> Option<Id> {
        let n = self.cx.node(e);
        if n.k == K::Xor {
            let s = 1u128 << (n.w - 1);
            if self.cx.cv(n.b) == Some(s) {
                return Some(n.a);
            }
            if self.cx.cv(n.a) == Some(s) {
                return Some(n.b);
            }
        }
        None
    }
    fn leaves(&self, e: Id, out: &mut Vec<Id>, d: u32) {
        let n = self.cx.node(e);
        if n.k == K::FAdd && d < 12 {
            self.leaves(n.a, out, d + 1);
            self.leaves(n.b, out, d + 1);
        } else {
            out.push(e)
        }
    }
    /// unsigned range of a bit-vector term
    fn urange(&self, e: Id, d: u32) -> (u128, u128) {
        let w = self.cx.w(e);
        if let Some(v) = self.cx.cv(e) {
            return (v, v);
        }
        let top = (0, mask(u128::MAX, w));
        if d > 6 {
            return top;
        }
        let n = self.cx.node(e);
        match n.k {
            K::ZExt => self.urange(n.a, d + 1),
            K::Or => {
                let (a, b) = (self.urange(n.a, d + 1), self.urange(n.b, d + 1));
                let m = a.1 | b.1;
                let bits = 128 - m.leading_zeros();
                let fill = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
                // bits above the smaller operand's range come from the larger one alone
                let (s, l) = if a.1 < b.1 { (a.1, b.1) } else { (b.1, a.1) };
                let sb = 128 - s.leading_zeros();
                let low = if sb >= 128 { u128::MAX } else { (1u128 << sb) - 1 };
                (a.0.max(b.0), if a.0 == a.1 || b.0 == b.1 { l | low } else { fill })
            }
            K::And => {
                let (a, b) = (self.urange(n.a, d + 1), self.urange(n.b, d + 1));
                (0, a.1.min(b.1))
            }
            K::Concat => {
                let (a, b) = (self.urange(n.a, d + 1), self.urange(n.b, d + 1));
                let lw = self.cx.w(n.b);
                (a.0 << lw | b.0, a.1 << lw | b.1)
            }
            K::Ite => {
                let (a, b) = (self.urange(n.b, d + 1), self.urange(n.c, d + 1));
                (a.0.min(b.0), a.1.max(b.1))
            }
            _ => top,
        }
    }
    pub fn get(&mut self, e: Id) -> Iv {
        if let Some(v) = self.cx.cv(e) {
            let w = self.cx.w(e);
            return if w == 32 || w == 64 { Iv::pt(val(v, w)) } else { TOP };
        }
        if let Some(i) = self.memo.get(&e) {
            return *i;
        }
        if self.depth > 2000 {
            return self.refine.get(&e).copied().unwrap_or(TOP);
        }
        self.depth += 1;
        let f = self.fwd(e);
        self.depth -= 1;
        let r = match self.refine.get(&e) {
            Some(i) => f.meet(*i),
            None => f,
        };
        self.memo.insert(e, r);
        r
    }
    fn fwd(&mut self, e: Id) -> Iv {
        let w = self.cx.w(e);
        if w != 32 && w != 64 {
            return TOP;
        }
        if let Some(v) = self.cx.cv(e) {
            return Iv::pt(val(v, w));
        }
        if let Some(x) = self.negated(e) {
            let i = self.get(x);
            return Iv { lo: -i.hi, hi: -i.lo, nan: i.nan };
        }
        let n = self.cx.node(e);
        // a bit pattern assembled without FP operations: its numeric range orders like its value
        if matches!(n.k, K::Or | K::ZExt | K::Concat) {
            let (lo, hi) = self.urange(e, 0);
            if hi <= if w == 32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 } {
                return Iv { lo: val(lo, w), hi: val(hi, w), nan: false };
            }
        }
        match n.k {
            K::Var => match (self.math)(n.a) {
                Some((f, x, xc, _, _, mw)) => {
                    let i = if x != 0 { self.get(x) } else { Iv::pt(val(xc, mw)) };
                    match f {
                        MathFn::Exp | MathFn::Exp2 => Iv { lo: app(f, mw, i.lo).max(0.0), hi: app(f, mw, i.hi), nan: i.nan },
                        MathFn::Pow => TOP,
                        _ => {
                            if i.lo >= 0.0 {
                                Iv { lo: app(f, mw, i.lo), hi: app(f, mw, i.hi), nan: i.nan }
                            } else {
                                TOP
                            }
                        }
                    }
                }
                None => TOP,
            },
            K::Ite => {
                let (a, b) = (self.get(n.b), self.get(n.c));
                Iv { lo: a.lo.min(b.lo), hi: a.hi.max(b.hi), nan: a.nan || b.nan }
            }
            K::FAdd => {
                let (a, b) = (self.get(n.a), self.get(n.b));
                let inf = |i: &Iv, s: f64| if s > 0.0 { i.hi == f64::INFINITY } else { i.lo == f64::NEG_INFINITY };
                let nan = a.nan || b.nan || (inf(&a, 1.0) && inf(&b, -1.0)) || (inf(&a, -1.0) && inf(&b, 1.0));
                let mut r = comb(a, b, |x, y| rnd(if w == 32 { (x as f32 + y as f32) as f64 } else { x + y }, w), nan);
                for (p, q) in [(n.a, n.b), (n.b, n.a)] {
                    if let Some(q) = self.negated(q) {
                        // p - q
                        if self.leq(p, q) {
                            r.hi = r.hi.min(0.0)
                        }
                        if self.leq(q, p) {
                            r.lo = r.lo.max(0.0)
                        }
                    }
                }
                r
            }
            K::FMul => {
                let (a, b) = (self.get(n.a), self.get(n.b));
                let z = |i: &Iv| i.lo <= 0.0 && i.hi >= 0.0;
                let inf = |i: &Iv| i.hi == f64::INFINITY || i.lo == f64::NEG_INFINITY;
                let nan = a.nan || b.nan || (z(&a) && inf(&b)) || (z(&b) && inf(&a));
                let m = |x: f64, y: f64| if x == 0.0 || y == 0.0 { 0.0 } else { rnd(if w == 32 { (x as f32 * y as f32) as f64 } else { x * y }, w) };
                comb(a, b, m, nan)
            }
            K::FDiv => {
                let (a, b) = (self.get(n.a), self.get(n.b));
                let mut r = TOP;
                if b.lo > 0.0 || b.hi < 0.0 {
                    let inf = |i: &Iv| i.hi == f64::INFINITY || i.lo == f64::NEG_INFINITY;
                    let nan = a.nan || b.nan || (inf(&a) && inf(&b));
                    let d = |x: f64, y: f64| {
                        if x.is_infinite() && y.is_infinite() {
                            // limit values: 0 is covered by finite/inf, the rest by inf/finite endpoints
                            f64::NAN
                        } else if w == 32 {
                            (x as f32 / y as f32) as f64
                        } else {
                            x / y
                        }
                    };
                    r = comb(a, b, d, nan);
                }
                if a.lo >= 0.0 && !a.nan && !b.nan {
                    if b.lo >= 0.0 {
                        r.lo = r.lo.max(0.0);
                    }
                    let mut l = vec![];
                    self.leaves(n.b, &mut l, 0);
                    if l.contains(&n.a) && l.iter().all(|&x| {
                        let i = self.get(x);
                        i.lo >= 0.0 && !i.nan
                    }) {
                        r.hi = r.hi.min(1.0);
                    }
                    if self.leq(n.a, n.b) {
                        r.hi = r.hi.min(1.0);
                    }
                }
                r
            }
            K::FPExt => self.get(n.a),
            K::FPTrunc => {
                let i = self.get(n.a);
                Iv { lo: i.lo as f32 as f64, hi: i.hi as f32 as f64, nan: i.nan }
            }
            K::UIToFP | K::SIToFP => {
                let aw = self.cx.w(n.a);
                let b = 2f64.powi(aw as i32);
                Iv { lo: if n.k == K::UIToFP { 0.0 } else { -b / 2.0 }, hi: b, nan: false }
            }
            K::ZExt => {
                // absolute value
                let x = self.cx.node(n.a);
                if x.k == K::Extract && x.b == 0 && x.w as u32 == w - 1 && self.cx.w(x.a) == w {
                    let i = self.get(x.a);
                    let m = i.lo.abs().max(i.hi.abs());
                    let lo = if i.lo > 0.0 { i.lo } else if i.hi < 0.0 { -i.hi } else { 0.0 };
                    return Iv { lo, hi: m, nan: i.nan };
                }
                TOP
            }
            K::And => {
                let m = (1u128 << (w - 1)) - 1;
                let x = if self.cx.cv(n.b) == Some(m) { n.a } else if self.cx.cv(n.a) == Some(m) { n.b } else { return TOP };
                let i = self.get(x);
                let hi = i.lo.abs().max(i.hi.abs());
                let lo = if i.lo > 0.0 { i.lo } else if i.hi < 0.0 { -i.hi } else { 0.0 };
                Iv { lo, hi, nan: i.nan }
            }
            _ => TOP,
        }
    }
}
/// interval facts about every FP operation and math variable below `cs`
pub fn facts(cx: &mut Ctx, math: &dyn Fn(u32) -> Option<(MathFn, Id, u128, Id, u128, u32)>, cs: &[Id]) -> Vec<(Id, Iv)> {
    let mut out = vec![];
    let mut seen: FxMap<Id, ()> = FxMap::default();
    let mut st: Vec<Id> = cs.to_vec();
    let mut nodes = vec![];
    while let Some(x) = st.pop() {
        if seen.insert(x, ()).is_some() {
            continue;
        }
        let n = cx.node(x);
        if matches!(n.k, K::FAdd | K::FMul | K::FDiv) || (n.k == K::Var && math(n.a).is_some()) {
            nodes.push(x)
        }
        let (ch, k) = cx.children(x);
        st.extend_from_slice(&ch[..k]);
    }
    if nodes.is_empty() {
        return out;
    }
    let mut iv = Ivs::new(cx, math, cs);
    for x in nodes {
        let f = iv.get(x);
        if !f.top() {
            out.push((x, f))
        }
    }
    out
}
