//! Minimal hand-written binding to the Z3 C API plus translation of lowered expressions.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_iff(c: P, a: P, b: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_mk_tactic(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn onerr(_c: P, e: c_int) {
    eprintln!("z3 error {e}");
    std::process::exit(3)
}
pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

#[derive(Clone)]
pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}
pub struct Z3 {
    c: P,
    s: P,
    cache: FxMap<Id, P>,
    sorts: FxMap<u32, P>,
    bsort: P,
    timeout: u32,
    pub nqueries: u64,
}
impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_del_context(self.c)
        }
    }
}
impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(onerr));
            let l = CString::new("QF_BV").unwrap();
            let sy = Z3_mk_string_symbol(c, l.as_ptr());
            let s = match std::env::var("SYMEX_SOLVER").as_deref() {
                Ok("simple") => Z3_mk_simple_solver(c),
                Ok(t) if !t.is_empty() => {
                    let l = CString::new(t).unwrap();
                    Z3_mk_solver_from_tactic(c, Z3_mk_tactic(c, l.as_ptr()))
                }
                _ => Z3_mk_solver_for_logic(c, sy),
            };
            Z3_solver_inc_ref(c, s);
            Z3 { c, s, cache: Default::default(), sorts: Default::default(), bsort: Z3_mk_bool_sort(c), timeout: 0, nqueries: 0 }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        if let Some(&s) = self.sorts.get(&w) {
            return s;
        }
        let s = unsafe { Z3_mk_bv_sort(self.c, w) };
        self.sorts.insert(w, s);
        s
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        unsafe {
            if w <= 64 {
                let s = self.sort(w);
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let s1 = self.sort(w - 64);
                let s0 = self.sort(64);
                let h = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, s1);
                let l = Z3_mk_unsigned_int64(self.c, v as u64, s0);
                Z3_mk_concat(self.c, h, l)
            }
        }
    }
    /// Bool AST -> bv1
    fn b2v(&mut self, a: P) -> P {
        let o = self.num(1, 1);
        let z = self.num(0, 1);
        unsafe { Z3_mk_ite(self.c, a, o, z) }
    }
    fn v2b(&mut self, a: P) -> P {
        let o = self.num(1, 1);
        unsafe { Z3_mk_eq(self.c, a, o) }
    }
    pub fn tr(&mut self, x: &Ctx, e: Id) -> P {
        if let Some(&p) = self.cache.get(&e) {
            return p;
        }
        let mut st = vec![(e, false)];
        while let Some((n, done)) = st.pop() {
            if self.cache.contains_key(&n) {
                continue;
            }
            let (ch, nc) = x.children(n);
            if !done {
                st.push((n, true));
                for &k in &ch[..nc] {
                    if !self.cache.contains_key(&k) {
                        st.push((k, false))
                    }
                }
                continue;
            }
            let p = self.tr1(x, n, &ch[..nc]);
            self.cache.insert(n, p);
        }
        self.cache[&e]
    }
    fn tr1(&mut self, x: &Ctx, e: Id, ch: &[Id]) -> P {
        let n = x.node(e);
        let w = n.w as u32;
        let a: Vec<P> = ch.iter().map(|k| self.cache[k]).collect();
        let aw = ch.first().map(|&k| x.w(k)).unwrap_or(0);
        let c = self.c;
        unsafe {
            match n.k {
                K::Const => {
                    let v = x.cv(e).unwrap();
                    if w == 1 {
                        if v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(v, w)
                    }
                }
                K::Var => {
                    let nm = CString::new(format!("v{}_{}", n.a, w)).unwrap();
                    let sy = Z3_mk_string_symbol(c, nm.as_ptr());
                    let so = if w == 1 { self.bsort } else { self.sort(w) };
                    Z3_mk_const(c, sy, so)
                }
                K::Not if w == 1 => Z3_mk_not(c, a[0]),
                K::Not => Z3_mk_bvnot(c, a[0]),
                K::And if w == 1 => Z3_mk_and(c, 2, a.as_ptr()),
                K::Or if w == 1 => Z3_mk_or(c, 2, a.as_ptr()),
                K::Xor | K::Add | K::Sub if w == 1 => Z3_mk_xor(c, a[0], a[1]),
                K::Eq if aw == 1 => Z3_mk_iff(c, a[0], a[1]),
                K::Eq => Z3_mk_eq(c, a[0], a[1]),
                K::Ite => Z3_mk_ite(c, a[0], a[1], a[2]),
                K::Extract => {
                    if aw == 1 {
                        return a[0];
                    }
                    let r = Z3_mk_extract(c, n.b + w - 1, n.b, a[0]);
                    if w == 1 {
                        self.v2b(r)
                    } else {
                        r
                    }
                }
                K::Concat => {
                    let h = if aw == 1 { self.b2v(a[0]) } else { a[0] };
                    let l = if x.w(ch[1]) == 1 { self.b2v(a[1]) } else { a[1] };
                    Z3_mk_concat(c, h, l)
                }
                K::ZExt | K::SExt => {
                    let h = if aw == 1 { self.b2v(a[0]) } else { a[0] };
                    if n.k == K::ZExt {
                        Z3_mk_zero_ext(c, w - aw, h)
                    } else {
                        Z3_mk_sign_ext(c, w - aw, h)
                    }
                }
                _ => {
                    let mut a = a;
                    if aw == 1 {
                        for p in a.iter_mut() {
                            *p = self.b2v(*p)
                        }
                    }
                    let r = match n.k {
                        K::Add => Z3_mk_bvadd(c, a[0], a[1]),
                        K::Sub => Z3_mk_bvsub(c, a[0], a[1]),
                        K::Mul => Z3_mk_bvmul(c, a[0], a[1]),
                        K::UDiv => Z3_mk_bvudiv(c, a[0], a[1]),
                        K::URem => Z3_mk_bvurem(c, a[0], a[1]),
                        K::SDiv => Z3_mk_bvsdiv(c, a[0], a[1]),
                        K::SRem => Z3_mk_bvsrem(c, a[0], a[1]),
                        K::And => Z3_mk_bvand(c, a[0], a[1]),
                        K::Or => Z3_mk_bvor(c, a[0], a[1]),
                        K::Xor => Z3_mk_bvxor(c, a[0], a[1]),
                        K::Shl => Z3_mk_bvshl(c, a[0], a[1]),
                        K::LShr => Z3_mk_bvlshr(c, a[0], a[1]),
                        K::AShr => Z3_mk_bvashr(c, a[0], a[1]),
                        K::Ult => return Z3_mk_bvult(c, a[0], a[1]),
                        K::Slt => return Z3_mk_bvslt(c, a[0], a[1]),
                        k => panic!("z3 tr {k:?} (unlowered)"),
                    };
                    if w == 1 {
                        self.v2b(r)
                    } else {
                        r
                    }
                }
            }
        }
    }
    /// conjunction of lowered 1-bit expressions; model restricted to vars (id,width)
    pub fn check(&mut self, x: &Ctx, cs: &[Id], vars: &[(u32, u32)], timeout_ms: u32) -> Res {
        self.nqueries += 1;
        unsafe {
            let c = self.c;
            Z3_solver_reset(c, self.s);
            if self.timeout != timeout_ms {
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let k = CString::new("timeout").unwrap();
                let sy = Z3_mk_string_symbol(c, k.as_ptr());
                Z3_params_set_uint(c, p, sy, timeout_ms);
                Z3_solver_set_params(c, self.s, p);
                Z3_params_dec_ref(c, p);
                self.timeout = timeout_ms;
            }
            for &e in cs {
                let a = self.tr(x, e);
                Z3_solver_assert(c, self.s, a);
            }
            match Z3_solver_check(c, self.s) {
                1 => {
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for &(v, w) in vars {
                        let nm = CString::new(format!("v{}_{}", v, w)).unwrap();
                        let sy = Z3_mk_string_symbol(c, nm.as_ptr());
                        let so = if w == 1 { self.bsort } else { self.sort(w) };
                        let t = Z3_mk_const(c, sy, so);
                        let mut r: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, t, true, &mut r);
                        let val = if w == 1 {
                            (Z3_get_bool_value(c, r) == 1) as u128
                        } else {
                            let mut u = 0u64;
                            Z3_get_numeral_uint64(c, r, &mut u);
                            u as u128
                        };
                        out.push((v, val));
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            }
        }
    }
    pub fn size(&self) -> usize {
        self.cache.len()
    }
}
