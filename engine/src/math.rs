//! Transcendental functions: concrete evaluation with the platform libm, and axioms for symbolic
//! arguments. Every axiom holds of the real library functions (see DESIGN.md).
use crate::exec::Val;
use crate::expr::*;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MathFn {
    Exp,
    Exp2,
    Log,
    Log2,
    Log10,
    Pow,
    Sqrt,
}
pub fn by_name(n: &str) -> Option<(MathFn, u32)> {
    Some(match n {
        "expf" => (MathFn::Exp, 32),
        "exp" => (MathFn::Exp, 64),
        "exp2f" => (MathFn::Exp2, 32),
        "exp2" => (MathFn::Exp2, 64),
        "logf" => (MathFn::Log, 32),
        "log" => (MathFn::Log, 64),
        "log2f" => (MathFn::Log2, 32),
        "log2" => (MathFn::Log2, 64),
        "log10f" => (MathFn::Log10, 32),
        "log10" => (MathFn::Log10, 64),
        "powf" => (MathFn::Pow, 32),
        "pow" => (MathFn::Pow, 64),
        "sqrtf" => (MathFn::Sqrt, 32),
        "sqrt" => (MathFn::Sqrt, 64),
        _ => return None,
    })
}
pub fn by_intrinsic(b: &str) -> Option<MathFn> {
    Some(match b {
        "exp" => MathFn::Exp,
        "exp2" => MathFn::Exp2,
        "log" => MathFn::Log,
        "log2" => MathFn::Log2,
        "log10" => MathFn::Log10,
        "pow" => MathFn::Pow,
        "sqrt" => MathFn::Sqrt,
        _ => return None,
    })
}
pub fn apply(f: MathFn, w: u32, x: u128, y: u128) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        c32(match f {
            MathFn::Exp => x.exp(),
            MathFn::Exp2 => x.exp2(),
            MathFn::Log => x.ln(),
            MathFn::Log2 => x.log2(),
            MathFn::Log10 => x.log10(),
            MathFn::Pow => x.powf(y),
            MathFn::Sqrt => x.sqrt(),
        })
    } else {
        let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        c64(match f {
            MathFn::Exp => x.exp(),
            MathFn::Exp2 => x.exp2(),
            MathFn::Log => x.ln(),
            MathFn::Log2 => x.log2(),
            MathFn::Log10 => x.log10(),
            MathFn::Pow => x.powf(y),
            MathFn::Sqrt => x.sqrt(),
        })
    }
}
fn kf(c: &mut Ctx, w: u32, v: f64) -> Id {
    if w == 32 {
        c.k(c32(v as f32), 32)
    } else {
        c.k(c64(v), 64)
    }
}
fn ex(c: &mut Ctx, v: Val, w: u32) -> Id {
    if v.e != 0 {
        v.e
    } else {
        c.k(v.c, w)
    }
}
fn imp(c: &mut Ctx, a: Id, b: Id) -> Id {
    let n = c.not(a);
    c.or(n, b)
}
fn is_exp(f: MathFn) -> bool {
    matches!(f, MathFn::Exp | MathFn::Exp2)
}
fn is_log(f: MathFn) -> bool {
    matches!(f, MathFn::Log | MathFn::Log2 | MathFn::Log10)
}
const GRID_EXP: [f64; 13] = [-100.0, -20.0, -8.0, -4.0, -2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 8.0, 88.0];
const GRID_LOG: [f64; 15] = [1e-38, 1e-20, 1e-6, 0.001, 0.03125, 0.125, 0.25, 0.5, 0.75, 1.0, 2.0, 4.0, 100.0, 1e10, 1e38];

fn mono_point(c: &mut Ctx, f: MathFn, w: u32, x: Id, v: Id, at: u128, out: &mut Vec<Id>) {
    let fx = apply(f, w, at, 0);
    let k = c.k(at, w);
    let r = c.k(fx, w);
    if is_nan(at, w) || is_nan(fx, w) {
        return;
    }
    let le = c.bin(K::FLe, x, k);
    let b = c.bin(K::FLe, v, r);
    // for logs with negative argument the value is NaN: guard by x >= 0
    let mut pre = le;
    if is_log(f) || f == MathFn::Sqrt {
        let z = kf(c, w, 0.0);
        let ge0 = c.bin(K::FLe, z, x);
        pre = c.and(pre, ge0);
    }
    let a = imp(c, pre, b);
    out.push(a);
    let ge = c.bin(K::FLe, k, x);
    let b = c.bin(K::FLe, r, v);
    let a = imp(c, ge, b);
    out.push(a);
}
pub fn axioms(c: &mut Ctx, f: MathFn, w: u32, x: Val, y: Val, v: Id, out: &mut Vec<Id>) {
    let xe = ex(c, x, w);
    let nanv = c.isnan(v);
    let xnan = c.isnan(xe);
    let zero = kf(c, w, 0.0);
    let one = kf(c, w, 1.0);
    let inf = kf(c, w, f64::INFINITY);
    let ninf = kf(c, w, f64::NEG_INFINITY);
    // results never have a non-canonical NaN
    let cn = c.k(if w == 32 { NAN32 as u128 } else { NAN64 as u128 }, w);
    let isc = c.eq(v, cn);
    let a = imp(c, nanv, isc);
    out.push(a);
    if is_exp(f) {
        let a = c.eq(nanv, xnan);
        out.push(a);
        // v >= +0 with sign bit clear unless NaN
        let s = c.extract(v, w - 1, w - 1);
        let ns = c.not(s);
        let a = c.or(nanv, ns);
        out.push(a);
        let xi = c.eq(xe, inf);
        let vi = c.eq(v, inf);
        let a = imp(c, xi, vi);
        out.push(a);
        let xi = c.eq(xe, ninf);
        let vi = c.eq(v, zero);
        let a = imp(c, xi, vi);
        out.push(a);
        for g in GRID_EXP {
            let at = if w == 32 { c32(g as f32) } else { c64(g) };
            mono_point(c, f, w, xe, v, at, out);
        }
    } else if is_log(f) || f == MathFn::Sqrt {
        let neg = c.bin(K::FLt, xe, zero);
        let bad = c.or(neg, xnan);
        let a = c.eq(nanv, bad);
        out.push(a);
        if is_log(f) {
            let xz = c.bin(K::FEq, xe, zero);
            let vn = c.eq(v, ninf);
            let a = c.eq(xz, vn);
            out.push(a);
            let xo = c.eq(xe, one);
            let vz = c.eq(v, zero);
            let a = imp(c, xo, vz);
            out.push(a);
            // -0 is never produced
            let nz = c.fneg(zero);
            let e = c.eq(v, nz);
            let a = c.not(e);
            out.push(a);
        }
        let xi = c.eq(xe, inf);
        let vi = c.eq(v, inf);
        let a = c.eq(xi, vi);
        out.push(a);
        for g in GRID_LOG {
            let at = if w == 32 { c32(g as f32) } else { c64(g) };
            mono_point(c, f, w, xe, v, at, out);
        }
    } else if f == MathFn::Pow {
        let ye = ex(c, y, w);
        let ynan = c.isnan(ye);
        let x1 = c.eq(xe, one);
        let y0 = c.bin(K::FEq, ye, zero);
        let one_r = c.or(x1, y0);
        let v1 = c.eq(v, one);
        let a = imp(c, one_r, v1);
        out.push(a);
        let anynan = c.or(xnan, ynan);
        let n1 = c.not(one_r);
        let p = c.and(anynan, n1);
        let a = imp(c, p, nanv);
        out.push(a);
        // x >= 0 (sign clear), no NaN -> v >= 0, not NaN
        let sx = c.extract(xe, w - 1, w - 1);
        let pos = c.not(sx);
        let nn = c.not(anynan);
        let p = c.and(pos, nn);
        let sv = c.extract(v, w - 1, w - 1);
        let nsv = c.not(sv);
        let nvn = c.not(nanv);
        let q = c.and(nsv, nvn);
        let a = imp(c, p, q);
        out.push(a);
        // 0 <= x <= 1, y > 0 -> v <= 1 ; y >= 1 -> v <= x ; 0<y<=1 -> v >= x
        let le1 = c.bin(K::FLe, xe, one);
        let y_pos = c.bin(K::FLt, zero, ye);
        let p1 = c.and(p, le1);
        let p2 = c.and(p1, y_pos);
        let q = c.bin(K::FLe, v, one);
        let a = imp(c, p2, q);
        out.push(a);
        let y_ge1 = c.bin(K::FLe, one, ye);
        let p3 = c.and(p1, y_ge1);
        let q = c.bin(K::FLe, v, xe);
        let a = imp(c, p3, q);
        out.push(a);
        // y == 1 -> v == x
        let y1 = c.eq(ye, one);
        let e = c.eq(v, xe);
        let a1 = imp(c, y1, e);
        let nx = c.not(xnan);
        let a = imp(c, nx, a1);
        out.push(a);
        // x = 0, y > 0 -> 0
        let xz = c.eq(xe, zero);
        let p4 = c.and(xz, y_pos);
        let vz = c.eq(v, zero);
        let a = imp(c, p4, vz);
        out.push(a);
    }
}
pub fn pair_axioms(c: &mut Ctx, f: MathFn, w: u32, p: (Val, Val, Id), q: (Val, Val, Id), out: &mut Vec<Id>) {
    let (x1, y1, v1) = p;
    let (x2, y2, v2) = q;
    let e1 = ex(c, x1, w);
    let e2 = ex(c, x2, w);
    let zero = kf(c, w, 0.0);
    match f {
        MathFn::Pow => {
            // same positive constant/expression exponent, non-negative bases: monotone
            let g1 = ex(c, y1, w);
            let g2 = ex(c, y2, w);
            if g1 != g2 {
                return;
            }
            let yp = c.bin(K::FLt, zero, g1);
            for (a, va, b, vb) in [(e1, v1, e2, v2), (e2, v2, e1, v1)] {
                let le = c.bin(K::FLe, a, b);
                let nn = c.bin(K::FLe, zero, a);
                let pre = c.and(le, nn);
                let pre = c.and(pre, yp);
                let post = c.bin(K::FLe, va, vb);
                let a = imp(c, pre, post);
                out.push(a);
            }
        }
        _ => {
            for (a, va, b, vb) in [(e1, v1, e2, v2), (e2, v2, e1, v1)] {
                let le = c.bin(K::FLe, a, b);
                let mut pre = le;
                if !is_exp(f) {
                    let nn = c.bin(K::FLe, zero, a);
                    pre = c.and(pre, nn);
                }
                let post = c.bin(K::FLe, va, vb);
                let a = imp(c, pre, post);
                out.push(a);
            }
        }
    }
}
/// the exact value at the point (xv,yv), plus monotone bounds around it for one-argument functions
pub fn point_lemma(c: &mut Ctx, f: MathFn, w: u32, x: Val, y: Val, xv: u128, yv: u128, real: u128, v: Id, out: &mut Vec<Id>) {
    let xe = ex(c, x, w);
    let kx = c.k(xv, w);
    let kr = c.k(real, w);
    let mut pre = c.eq(xe, kx);
    if f == MathFn::Pow {
        let ye = ex(c, y, w);
        let ky = c.k(yv, w);
        let q = c.eq(ye, ky);
        pre = c.and(pre, q);
    }
    let post = c.eq(v, kr);
    let a = imp(c, pre, post);
    out.push(a);
    if f != MathFn::Pow {
        mono_point(c, f, w, xe, v, xv, out);
    } else if y.e == 0 && !is_nan(xv, w) && !is_nan(real, w) {
        // constant positive exponent: monotone on non-negative bases
        let yc = if w == 32 { f32::from_bits(y.c as u32) as f64 } else { f64::from_bits(y.c as u64) };
        let xc = if w == 32 { f32::from_bits(xv as u32) as f64 } else { f64::from_bits(xv as u64) };
        if yc > 0.0 && xc >= 0.0 {
            let zero = kf(c, w, 0.0);
            let le = c.bin(K::FLe, xe, kx);
            let nn = c.bin(K::FLe, zero, xe);
            let p = c.and(le, nn);
            let b = c.bin(K::FLe, v, kr);
            let a = imp(c, p, b);
            out.push(a);
            let ge = c.bin(K::FLe, kx, xe);
            let b = c.bin(K::FLe, kr, v);
            let a = imp(c, ge, b);
            out.push(a);
        }
    }
}
/// exhaustive check, over all non-NaN f32, that the one-argument functions are monotone
pub fn check_monotone() -> String {
    let mut out = String::new();
    for f in [MathFn::Exp, MathFn::Exp2, MathFn::Log, MathFn::Log2, MathFn::Sqrt] {
        let nt = 8u32;
        let bad: u64 = std::thread::scope(|s| {
            let hs: Vec<_> = (0..nt)
                .map(|t| {
                    s.spawn(move || {
                        // ordered integer keys: key k in [-0x7f800000, 0x7f800000]
                        let lo = -0x7f800000i64;
                        let hi = 0x7f800000i64;
                        let span = hi - lo + 1;
                        let a = lo + span * t as i64 / nt as i64;
                        let b = lo + span * (t + 1) as i64 / nt as i64;
                        let fl = |k: i64| -> f32 {
                            if k < 0 {
                                f32::from_bits((-k) as u32 | 0x80000000)
                            } else {
                                f32::from_bits(k as u32)
                            }
                        };
                        let mut bad = 0u64;
                        let mut prev = f32::NAN;
                        for k in (a - 1).max(lo)..b {
                            let x = fl(k);
                            let y = f32::from_bits(apply(f, 32, x.to_bits() as u128, 0) as u32);
                            if !prev.is_nan() && !y.is_nan() && !(prev <= y) {
                                bad += 1
                            }
                            if y.is_nan() && x >= 0.0 {
                                bad += 1
                            }
                            prev = y;
                        }
                        bad
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).sum()
        });
        out += &format!("{f:?}: {bad} monotonicity violations over all f32\n");
    }
    out
}
