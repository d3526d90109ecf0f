//! Path-based symbolic executor over the compiled IR. Every path is re-executed from the start,
//! following a recorded decision prefix; each register/byte carries a concrete shadow value (the
//! current model) and optionally a symbolic expression.
use crate::expr::*;
use crate::ir::{mask, sext, Callee, Cast, Func, Module, Op, Pred, B, FB, I};
use crate::math::{self, MathFn};
use crate::z3::{Res, Z3};
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Default)]
pub struct Val {
    pub c: u128,
    pub e: Id,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    B(bool),
    F(bool),
    I(u32),
    K(u128),
}
#[derive(Clone, Debug, Default)]
pub struct Work {
    pub prefix: Vec<Dec>,
    pub model: Vec<u128>,
}
#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Panic(String),
    Assert(String),
    Pruned,
    Restart,
    Inconclusive(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub enum VarKind {
    Input(String),
    Math(MathFn, Val, Val, u32),
}
fn math_of(vars: &[Var], v: u32) -> Option<(MathFn, Id, u128, Id, u128, u32)> {
    match vars.get(v as usize).map(|v| &v.kind) {
        Some(VarKind::Math(f, x, y, w)) => Some((*f, x.e, x.c, y.e, y.c, *w)),
        _ => None,
    }
}
#[derive(Clone, Debug)]
pub struct Var {
    pub w: u32,
    pub kind: VarKind,
    pub e: Id,
    pub sup: u128, // support of arguments for math vars
}

const STACK_BASE: u64 = 0x2000_0000;
const HEAP_BASE: u64 = 0x4000_0000;
const HEAP_LIMIT: u64 = 64 << 20;

pub struct Region {
    base: u64,
    d: Vec<u8>,
    sid: Vec<u32>,
    so: Vec<u8>,
    fl: Vec<u8>, // 0 unmapped 1 rw 2 ro 3 freed
}
impl Region {
    fn new(base: u64) -> Region {
        Region { base, d: vec![], sid: vec![], so: vec![], fl: vec![] }
    }
    fn ensure(&mut self, end: u64) {
        let n = (end - self.base) as usize;
        if self.d.len() < n {
            let n = n.max(self.d.len() * 2);
            self.d.resize(n, 0);
            self.sid.resize(n, 0);
            self.so.resize(n, 0);
            self.fl.resize(n, 0);
        }
    }
    fn clear(&mut self) {
        self.d.clear();
        self.sid.clear();
        self.so.clear();
        self.fl.clear();
    }
    fn map(&mut self, a: u64, n: u64, f: u8, zero: bool) {
        self.ensure(a + n);
        let o = (a - self.base) as usize;
        let n = n as usize;
        self.fl[o..o + n].fill(f);
        self.sid[o..o + n].fill(0);
        if zero {
            self.d[o..o + n].fill(0);
        }
    }
}
struct Frame {
    f: Arc<Func>,
    bb: u32,
    prev: u32,
    ip: u32,
    base: u32,
    sp: u64,
    dst: u32,
    nret: u32,
    normal: Option<u32>,
}
#[derive(Clone, Copy, PartialEq)]
enum Hook {
    None,
    Panic,
    HashOne,
    BacktraceCapture,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub restarts: u64,
    pub decisions: u64,
    pub forced: u64,
    pub instrs: u64,
    pub q_sat: u64,
    pub q_unsat: u64,
    pub q_unknown: u64,
    pub q_cached: u64,
    pub q_search: u64,
    pub q_bounds: u64,
    pub q_abs: u64,
    pub cegar: u64,
    pub solver_us: u64,
    pub max_query_us: u64,
    pub asserts: BTreeMap<String, (u64, u64, u64)>, // concrete/structural, by solver, failed
    pub reach: BTreeMap<String, u64>,
    pub require: BTreeMap<String, u64>,
    pub inconclusive: BTreeMap<String, u64>,
    pub funcs: BTreeMap<u32, u64>,
    pub abstract_paths: u64,
    pub math_vars: u64,
    pub max_vars: u64,
    pub slow: Vec<(u64, String)>,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.paths += o.paths;
        self.pruned += o.pruned;
        self.restarts += o.restarts;
        self.decisions += o.decisions;
        self.forced += o.forced;
        self.instrs += o.instrs;
        self.q_sat += o.q_sat;
        self.q_unsat += o.q_unsat;
        self.q_unknown += o.q_unknown;
        self.q_cached += o.q_cached;
        self.q_search += o.q_search;
        self.q_bounds += o.q_bounds;
        self.q_abs += o.q_abs;
        self.cegar += o.cegar;
        self.solver_us += o.solver_us;
        self.max_query_us = self.max_query_us.max(o.max_query_us);
        for (k, v) in &o.asserts {
            let e = self.asserts.entry(k.clone()).or_default();
            e.0 += v.0;
            e.1 += v.1;
            e.2 += v.2;
        }
        for (a, b) in [(&mut self.reach, &o.reach), (&mut self.require, &o.require), (&mut self.inconclusive, &o.inconclusive)] {
            for (k, v) in b {
                *a.entry(k.clone()).or_default() += v
            }
        }
        for (k, v) in &o.funcs {
            *self.funcs.entry(*k).or_default() += v
        }
        self.abstract_paths += o.abstract_paths;
        self.math_vars += o.math_vars;
        self.max_vars = self.max_vars.max(o.max_vars);
        self.slow.extend(o.slow.iter().cloned());
    }
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub stop: Stop,
    pub inputs: Vec<(String, u32, u128)>,
    pub obs: Vec<u128>,
    pub abstract_: bool,
    pub trace: Vec<String>,
}

pub struct Opts {
    pub timeout_ms: u32,
    pub max_instr: u64,
    pub conc_limit: usize,
    /// does the real code fail to end on these inputs?
    pub endless: Arc<dyn Fn(u32, &[(String, u32, u128)]) -> bool + Send + Sync>,
    pub stop: Arc<std::sync::atomic::AtomicBool>,
}

pub struct Worker {
    m: Arc<Module>,
    pub cx: Ctx,
    pub z: Z3,
    glob: Region,
    stack: Region,
    heap: Region,
    glob_init: (Vec<u8>, Vec<u8>),
    hooks: Vec<Hook>,
    sup: FxMap<Id, u128>,
    qcache: FxMap<Vec<Id>, Option<Vec<(u32, u128)>>>,
    pub st: Stats,
    pub opts: Opts,
    // path state
    regs: Vec<Val>,
    frames: Vec<Frame>,
    sp: u64,
    hp: u64,
    allocs: FxMap<u64, u64>,
    pc: Vec<Id>,
    facts: FxMap<Id, bool>,
    bounds: crate::interval::Bounds,
    vars: Vec<Var>,
    vals: Vec<u128>,
    mathmap: FxMap<(u32, Id, Id, u128, u128), u32>,
    prefix: Vec<Dec>,
    decs: Vec<Dec>,
    pos: usize,
    model: Vec<u128>,
    spawn: Vec<Work>,
    obs: Vec<u128>,
    violations: Vec<(String, Vec<(String, u32, u128)>, bool)>,
    abstract_: bool,
    steps: u64,
    queried: bool,
    /// another thread is taken to hold what the code waits for
    may_wait: bool,
    axset: FxMap<Id, ()>,
}

impl Worker {
    pub fn new(m: Arc<Module>, opts: Opts) -> Worker {
        let mut glob = Region::new(crate::ir::GLOB_BASE);
        glob.ensure(m.globals_end + 64);
        m.init_globals(&mut |a, b, c| {
            let o = (a - crate::ir::GLOB_BASE) as usize;
            glob.d[o..o + b.len()].copy_from_slice(b);
            glob.fl[o..o + b.len()].fill(if c { 2 } else { 1 });
        });
        let hooks = m
            .fns
            .iter()
            .map(|f| {
                let n = &f.name;
                if n.contains("9panicking") && !n.contains("panic_count") || n.contains("18handle_alloc_error") || n == "rust_begin_unwind" || n.contains("rust_panic") {
                    Hook::Panic
                } else if n.contains("8hash_one") {
                    Hook::HashOne
                } else if n.contains("9backtrace9Backtrace7capture") {
                    Hook::BacktraceCapture
                } else {
                    Hook::None
                }
            })
            .collect();
        let glob_init = (glob.d.clone(), glob.fl.clone());
        Worker {
            m,
            cx: Ctx::new(),
            z: Z3::new(),
            glob,
            stack: Region::new(STACK_BASE),
            heap: Region::new(HEAP_BASE),
            glob_init,
            hooks,
            sup: Default::default(),
            qcache: Default::default(),
            st: Default::default(),
            opts,
            regs: vec![],
            frames: vec![],
            sp: 0,
            hp: 0,
            allocs: Default::default(),
            pc: vec![],
            facts: Default::default(),
            bounds: Default::default(),
            vars: vec![],
            vals: vec![],
            mathmap: Default::default(),
            prefix: vec![],
            decs: vec![],
            pos: 0,
            model: vec![],
            spawn: vec![],
            obs: vec![],
            violations: vec![],
            abstract_: false,
            steps: 0,
            queried: false,
            may_wait: false,
            axset: Default::default(),
        }
    }
    fn reset(&mut self) {
        if self.cx.n.len() > 2_000_000 || self.z.size() > 1_500_000 {
            self.cx = Ctx::new();
            self.z = Z3::new();
            self.sup.clear();
            self.qcache.clear();
            self.axset.clear();
        }
        self.glob.d.copy_from_slice(&self.glob_init.0);
        self.glob.fl.copy_from_slice(&self.glob_init.1);
        self.glob.sid.fill(0);
        self.stack.clear();
        self.heap.clear();
        self.regs.clear();
        self.frames.clear();
        self.sp = STACK_BASE + 64;
        self.hp = HEAP_BASE + 64;
        self.allocs.clear();
        self.pc.clear();
        self.facts.clear();
        self.bounds.clear();
        self.vars.clear();
        self.vals.clear();
        self.mathmap.clear();
        self.decs.clear();
        self.pos = 0;
        self.spawn.clear();
        self.obs.clear();
        self.violations.clear();
        self.abstract_ = false;
        self.steps = 0;
        self.may_wait = false;
        self.axset.clear();
    }
    pub fn inputs(&self) -> Vec<(String, u32, u128)> {
        self.inputs_of(&self.vals)
    }
    fn inputs_of(&self, vals: &[u128]) -> Vec<(String, u32, u128)> {
        self.vars
            .iter()
            .enumerate()
            .filter_map(|(i, v)| if let VarKind::Input(n) = &v.kind { Some((n.clone(), v.w, vals[i])) } else { None })
            .collect()
    }

    /// run one path; returns outcome, spawned work and violations (id, inputs, abstract)
    pub fn run(&mut self, entry: u32, w: Work) -> (Outcome, Vec<Work>, Vec<(String, Vec<(String, u32, u128)>, bool)>) {
        self.reset();
        self.prefix = w.prefix;
        self.model = w.model;
        let r = self.exec(entry);
        let stop = match r {
            Ok(()) => Stop::Done,
            Err(s) => s,
        };
        self.st.instrs += self.steps;
        self.st.max_vars = self.st.max_vars.max(self.vars.len() as u64);
        match &stop {
            Stop::Pruned => self.st.pruned += 1,
            Stop::Restart => self.st.restarts += 1,
            Stop::Inconclusive(s) => {
                *self.st.inconclusive.entry(s.clone()).or_default() += 1;
                self.st.paths += 1
            }
            _ => self.st.paths += 1,
        }
        if self.abstract_ && !matches!(stop, Stop::Pruned | Stop::Restart) {
            self.st.abstract_paths += 1;
        }
        let trace = self.backtrace();
        let o = Outcome { stop, inputs: self.inputs(), obs: self.obs.clone(), abstract_: self.abstract_, trace };
        (o, std::mem::take(&mut self.spawn), std::mem::take(&mut self.violations))
    }
    pub fn backtrace(&self) -> Vec<String> {
        self.frames.iter().rev().map(|f| f.f.name.clone()).collect()
    }

    // ------------------------------------------------------------ memory
    fn region(&mut self, a: u64) -> R<&mut Region> {
        if a >= HEAP_BASE {
            Ok(&mut self.heap)
        } else if a >= STACK_BASE {
            Ok(&mut self.stack)
        } else if a >= crate::ir::GLOB_BASE {
            Ok(&mut self.glob)
        } else {
            Err(Stop::Panic(format!("memory error: access to address {a:#x}")))
        }
    }
    fn acc(&mut self, a: u64, n: u64, wr: bool) -> R<(usize, &mut Region)> {
        let r = self.region(a)?;
        let o = a.wrapping_sub(r.base) as usize;
        let e = o.wrapping_add(n as usize);
        if n > (1 << 40) || e > r.fl.len() || e < o {
            return Err(Stop::Panic(format!("memory error: out-of-bounds access {a:#x}+{n}")));
        }
        for i in o..e {
            let f = r.fl[i];
            if f == 0 || f == 3 || (wr && f == 2) {
                let k = match f {
                    0 => "out-of-bounds",
                    3 => "use-after-free",
                    _ => "write to constant",
                };
                return Err(Stop::Panic(format!("memory error: {k} access {a:#x}+{n}")));
            }
        }
        Ok((o, r))
    }
    fn load(&mut self, a: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        let (o, r) = self.acc(a, n as u64, false)?;
        let mut c = 0u128;
        let mut any = 0u32;
        for i in 0..n.min(16) {
            c |= (r.d[o + i] as u128) << (8 * i);
            any |= r.sid[o + i];
        }
        c = mask(c, w);
        if any == 0 {
            return Ok(Val { c, e: 0 });
        }
        let ids: Vec<(u32, u8, u8)> = (0..n).map(|i| (r.sid[o + i], r.so[o + i], r.d[o + i])).collect();
        let first = ids[0].0;
        let cx = &mut self.cx;
        let full = (n * 8) as u32;
        let e = if first != 0 && cx.w(first) == full && ids.iter().enumerate().all(|(i, x)| x.0 == first && x.1 as usize == i) {
            first
        } else {
            // build from runs, low to high
            let mut res: Option<Id> = None;
            let mut i = 0;
            while i < n {
                let (id, so, _) = ids[i];
                let mut j = i + 1;
                let part = if id == 0 {
                    let mut v = ids[i].2 as u128;
                    while j < n && ids[j].0 == 0 {
                        v |= (ids[j].2 as u128) << (8 * (j - i));
                        j += 1
                    }
                    cx.k(v, 8 * (j - i) as u32)
                } else {
                    while j < n && ids[j].0 == id && ids[j].1 as usize == so as usize + (j - i) {
                        j += 1
                    }
                    cx.extract(id, so as u32 * 8 + 8 * (j - i) as u32 - 1, so as u32 * 8)
                };
                res = Some(match res {
                    None => part,
                    Some(l) => cx.concat(part, l),
                });
                i = j;
            }
            res.unwrap()
        };
        let e = if full != w { cx.extract(e, w - 1, 0) } else { e };
        let e = if cx.cv(e).is_some() { 0 } else { e };
        Ok(Val { c, e })
    }
    fn store(&mut self, a: u64, w: u32, v: Val) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let mut e = v.e;
        if e != 0 && (n * 8) as u32 != w {
            e = self.cx.zext(e, (n * 8) as u32);
        }
        let (o, r) = self.acc(a, n as u64, true)?;
        for i in 0..n {
            r.d[o + i] = if i < 16 { (v.c >> (8 * i)) as u8 } else { 0 };
            r.sid[o + i] = e;
            r.so[o + i] = i as u8;
        }
        Ok(())
    }
    fn copy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, r) = self.acc(s, n, false)?;
        let e = o + n as usize;
        let (a, b, c) = (r.d[o..e].to_vec(), r.sid[o..e].to_vec(), r.so[o..e].to_vec());
        let (o, r) = self.acc(d, n, true)?;
        let e = o + n as usize;
        r.d[o..e].copy_from_slice(&a);
        r.sid[o..e].copy_from_slice(&b);
        r.so[o..e].copy_from_slice(&c);
        Ok(())
    }
    fn cstr(&mut self, a: u64, n: u64) -> R<String> {
        let mut s = vec![];
        for i in 0..n {
            s.push(self.load(a + i, 8)?.c as u8)
        }
        Ok(String::from_utf8_lossy(&s).to_string())
    }
    fn malloc(&mut self, n: u64, align: u64, zero: bool) -> u64 {
        if n > HEAP_LIMIT || self.hp - HEAP_BASE + n > 4 * HEAP_LIMIT {
            return 0;
        }
        let al = align.max(16);
        let a = (self.hp + al - 1) / al * al;
        self.heap.map(a, n, 1, true);
        let _ = zero;
        self.hp = a + n + 16;
        self.heap.ensure(self.hp);
        self.allocs.insert(a, n);
        a
    }
    fn free(&mut self, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        match self.allocs.remove(&a) {
            None => Err(Stop::Panic(format!("memory error: invalid or double free {a:#x}"))),
            Some(n) => {
                let o = (a - HEAP_BASE) as usize;
                self.heap.fl[o..o + n as usize].fill(3);
                Ok(())
            }
        }
    }

    // ------------------------------------------------------------ constraints
    fn support(&mut self, e: Id) -> u128 {
        if let Some(&s) = self.sup.get(&e) {
            return s;
        }
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.sup.contains_key(&x) {
                continue;
            }
            let n = self.cx.node(x);
            if n.k == K::Var {
                self.sup.insert(x, if n.a < 127 { 1u128 << n.a } else { 1u128 << 127 });
                continue;
            }
            let (ch, nc) = self.cx.children(x);
            if !done {
                st.push((x, true));
                for i in 0..nc {
                    if !self.sup.contains_key(&ch[i]) {
                        st.push((ch[i], false));
                    }
                }
                continue;
            }
            let mut s = 0;
            for i in 0..nc {
                s |= self.sup[&ch[i]];
            }
            self.sup.insert(x, s);
        }
        self.sup[&e]
    }
    fn fact(&self, e: Id) -> Option<bool> {
        if let Some(v) = self.cx.cv(e) {
            return Some(v != 0);
        }
        let n = self.cx.node(e);
        if n.k == K::Not {
            return self.facts.get(&n.a).map(|b| !b);
        }
        self.facts.get(&e).copied()
    }
    fn learn(&mut self, e: Id, v: bool) {
        let n = self.cx.node(e);
        if n.k == K::Not {
            return self.learn(n.a, !v);
        }
        if self.facts.insert(e, v).is_some() {
            return;
        }
        if n.w == 1 {
            if (n.k == K::And && v) || (n.k == K::Or && !v) {
                self.learn(n.a, v);
                self.learn(n.b, v);
            }
        }
        match (n.k, v) {
            (K::FLt, true) => {
                let r = self.cx.bin(K::FLt, n.b, n.a);
                self.facts.entry(r).or_insert(false);
                let r = self.cx.bin(K::FLe, n.b, n.a);
                self.facts.entry(r).or_insert(false);
                let r = self.cx.bin(K::FLe, n.a, n.b);
                self.facts.entry(r).or_insert(true);
                let r = self.cx.bin(K::FEq, n.a, n.b);
                self.facts.entry(r).or_insert(false);
            }
            (K::FLe, true) => {
                let r = self.cx.bin(K::FLt, n.b, n.a);
                self.facts.entry(r).or_insert(false);
            }
            (K::Ult, true) => {
                let r = self.cx.bin(K::Ult, n.b, n.a);
                self.facts.entry(r).or_insert(false);
            }
            _ => {}
        }
    }
    /// e becomes part of the path condition (shadow already satisfies it)
    fn add_pc(&mut self, e: Id) {
        if self.cx.cv(e).is_some() {
            return;
        }
        self.learn(e, true);
        self.pc.push(e);
        let vars = &self.vars;
        self.bounds.add(&self.cx, &|v| math_of(vars, v), e);
    }
    /// the branch condition's value where the path's bounds alone settle it
    fn by_bounds(&mut self, e: Id) -> Option<bool> {
        let vars = &self.vars;
        self.bounds.decide(&self.cx, &|v| math_of(vars, v), e, 0)
    }
    fn eval_shadow(&self, e: Id) -> u128 {
        let mut m = FxMap::default();
        self.cx.eval(e, &|v| self.vals[v as usize], &mut m)
    }
    /// is pc (sliced) ∧ extra satisfiable?
    fn query(&mut self, extra: Id) -> Q {
        self.queried = true;
        if let Some(b) = self.fact(extra) {
            if !b {
                return Q::Unsat;
            }
        }
        let mut sup = self.support(extra);
        let n = self.pc.len();
        let mut inc = vec![false; n];
        let pcs: Vec<(Id, u128)> = {
            let pc = self.pc.clone();
            pc.into_iter().map(|e| (e, self.support(e))).collect()
        };
        loop {
            let mut ch = false;
            for i in 0..n {
                if !inc[i] && pcs[i].1 & sup != 0 {
                    inc[i] = true;
                    ch = true;
                    sup |= pcs[i].1;
                }
            }
            if !ch {
                break;
            }
        }
        let mut cs: Vec<Id> = (0..n).filter(|&i| inc[i]).map(|i| pcs[i].0).collect();
        cs.push(extra);
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.qcache.get(&cs) {
            self.st.q_cached += 1;
            return match r {
                None => Q::Unsat,
                Some(m) => {
                    // cached assignments are for the same expressions; vars are path-positional, so valid here
                    let mut mv = self.vals.clone();
                    for &(v, x) in m {
                        if (v as usize) < mv.len() {
                            mv[v as usize] = x
                        }
                    }
                    let (mv, abs) = self.repair(mv, &cs);
                    Q::Sat(mv, abs)
                }
            };
        }
        let vars: Vec<(u32, u32)> = self
            .vars
            .iter()
            .enumerate()
            .filter(|(i, _)| sup & (if *i < 127 { 1u128 << *i } else { 1u128 << 127 }) != 0)
            .map(|(i, v)| (i as u32, v.w))
            .collect();
        // stage 1: FP arithmetic abstracted; an unsatisfiable abstraction decides the query
        let mut again: Option<Vec<Id>> = None;
        {
            let ab: Vec<Id> = cs.iter().map(|&e| self.cx.abstr(e)).collect();
            // stage 0: only the constraints free of FP arithmetic and math functions
            let mut mm = 0u128;
            for (i, v) in self.vars.iter().enumerate() {
                if matches!(v.kind, VarKind::Math(..)) {
                    mm |= 1u128 << i.min(127);
                }
            }
            let pure: Vec<Id> = cs.iter().zip(ab.iter()).filter(|(c, a)| c == a && self.sup[c] & mm == 0).map(|(c, _)| *c).collect();
            if pure.len() < cs.len() && pure.contains(&extra) {
                let l: Vec<Id> = pure.iter().map(|&e| self.cx.lower(e)).collect();
                let t = std::time::Instant::now();
                let r = self.z.check(&self.cx, &l, &vars, self.opts.timeout_ms.min(400));
                self.st.solver_us += t.elapsed().as_micros() as u64;
                if let Res::Unsat = r {
                    self.st.q_unsat += 1;
                    self.st.q_abs += 1;
                    self.qcache.insert(cs, None);
                    return Q::Unsat;
                }
            }
            let (nops, ax) = self.cx.fp_facts(&ab);
            if nops > 0 {
                let iv = self.intervals(&cs);
                let mut l: Vec<Id> = ab.iter().chain(ax.iter()).chain(iv.iter()).map(|&e| self.cx.lower(e)).collect();
                l.sort_unstable();
                l.dedup();
                let t = std::time::Instant::now();
                let r = self.z.check(&self.cx, &l, &vars, self.opts.timeout_ms.min(400));
                let us = t.elapsed().as_micros() as u64;
                self.st.solver_us += us;
                match r.clone() {
                    Res::Unsat => {
                        self.st.q_unsat += 1;
                        self.st.q_abs += 1;
                        self.qcache.insert(cs, None);
                        return Q::Unsat;
                    }
                    Res::Sat(m) => {
                        let mut mv = self.vals.clone();
                        for &(v, x) in &m {
                            mv[v as usize] = x
                        }
                        if let Some(mv) = self.search(&cs, extra, sup, mv, 60) {
                            self.st.q_search += 1;
                            let m2 = vars.iter().map(|&(v, _)| (v, mv[v as usize])).collect();
                            self.qcache.insert(cs, Some(m2));
                            return Q::Sat(mv, false);
                        }
                    }
                    Res::Unknown => again = Some(l),
                }
                if std::env::var("SYM_DBG").is_ok() {
                    let q = self.cx.show(extra, 6);
                    let n = self.cx.n.len();
                    let mut o = format!("--- undecided {q} res={} ({n} nodes)\n", matches!(r, Res::Unknown));
                    for &i in &iv {
                        o += &format!("   iv {}\n", self.cx.show(i, 5));
                    }
                    for &i in &cs {
                        if !self.axset.contains_key(&i) {
                            o += &format!("   c {}\n", self.cx.show(i, 5));
                        }
                    }
                    eprintln!("{o}");
                }
            }
        }
        let mut low: Vec<Id> = cs.iter().map(|&e| self.cx.lower(e)).collect();
        let mut iter = 0;
        let mut fast = self.opts.timeout_ms > 400;
        let mut searched = false;
        loop {
            let t = std::time::Instant::now();
            if !fast {
                // the abstraction had too little time: give it more before the full query
                if let Some(l) = again.take() {
                    if let Res::Unsat = self.z.check(&self.cx, &l, &vars, self.opts.timeout_ms / 2) {
                        self.st.solver_us += t.elapsed().as_micros() as u64;
                        self.st.q_unsat += 1;
                        self.st.q_abs += 1;
                        self.qcache.insert(cs, None);
                        return Q::Unsat;
                    }
                }
            }
            let r = self.z.check(&self.cx, &low, &vars, if fast { 300 } else { self.opts.timeout_ms });
            let us = t.elapsed().as_micros() as u64;
            self.st.solver_us += us;
            self.st.max_query_us = self.st.max_query_us.max(us);
            if us > 2_000_000 && self.st.slow.len() < 20 {
                let s = format!("{} constraints, {} vars in {}: {}", cs.len(), vars.len(), self.frames.last().map(|f| f.f.name.as_str()).unwrap_or("?"), self.cx.show(extra, 4));
                self.st.slow.push((us, s));
            }
            match r {
                Res::Unsat => {
                    self.st.q_unsat += 1;
                    self.qcache.insert(cs, None);
                    return Q::Unsat;
                }
                Res::Unknown if fast => {
                    fast = false;
                    let init = self.vals.clone();
                    if !searched {
                        searched = true;
                        if let Some(mv) = self.search(&cs, extra, sup, init, 12000) {
                            self.st.q_search += 1;
                            let m2 = vars.iter().map(|&(v, _)| (v, mv[v as usize])).collect();
                            self.qcache.insert(cs, Some(m2));
                            return Q::Sat(mv, false);
                        }
                    }
                    continue;
                }
                Res::Unknown => {
                    self.st.q_unknown += 1;
                    return Q::Unknown;
                }
                Res::Sat(m) => {
                    self.st.q_sat += 1;
                    let mut mv = self.vals.clone();
                    for &(v, x) in &m {
                        mv[v as usize] = x
                    }
                    let (mv2, abs) = self.repair(mv.clone(), &cs);
                    if !abs || iter >= 12 {
                        if !abs {
                            let m2 = vars.iter().map(|&(v, _)| (v, mv2[v as usize])).collect();
                            self.qcache.insert(cs, Some(m2));
                        }
                        return Q::Sat(mv2, abs);
                    }
                    if iter == 0 || iter == 6 {
                        if let Some(mv) = self.search(&cs, extra, sup, mv.clone(), 400) {
                            self.st.q_search += 1;
                            let m2 = vars.iter().map(|&(v, _)| (v, mv[v as usize])).collect();
                            self.qcache.insert(cs, Some(m2));
                            return Q::Sat(mv, false);
                        }
                    }
                    // refine: point lemmas for the math variables whose value is wrong
                    iter += 1;
                    self.st.cegar += 1;
                    let mut lem = vec![];
                    for i in 0..self.vars.len() {
                        if let VarKind::Math(f, x, y, w) = self.vars[i].kind.clone() {
                            if sup >> i.min(127) & 1 == 0 {
                                continue;
                            }
                            let mut memo = FxMap::default();
                            let env = |v: u32| mv[v as usize];
                            let xv = if x.e != 0 { self.cx.eval(x.e, &env, &mut memo) } else { x.c };
                            let yv = if y.e != 0 { self.cx.eval(y.e, &env, &mut memo) } else { y.c };
                            let real = math::apply(f, w, xv, yv);
                            let ve = self.vars[i].e;
                            math::point_lemma(&mut self.cx, f, w, x, y, xv, yv, real, ve, &mut lem);
                        }
                    }
                    for l in lem {
                        let l = self.cx.lower(l);
                        low.push(l);
                    }
                }
            }
        }
    }
    /// bounds on FP subexpressions implied by cs, as facts about their abstractions
    fn intervals(&mut self, cs: &[Id]) -> Vec<Id> {
        let vars = &self.vars;
        let mf = |v: u32| math_of(vars, v);
        let fs = crate::interval::facts(&mut self.cx, &mf, cs);
        let mut out = vec![];
        for (e, i) in fs {
            let a = self.cx.abstr(e);
            let w = self.cx.w(e);
            let c = |v: f64| if w == 32 { c32(v as f32) } else { c64(v) };
            let nan = self.cx.isnan(a);
            if !i.nan {
                let n = self.cx.not(nan);
                out.push(n);
            }
            for (lo, v) in [(true, i.lo), (false, i.hi)] {
                if v.is_infinite() && (v > 0.0) != lo {
                    continue;
                }
                let k = self.cx.k(c(v), w);
                let t = if lo { self.cx.bin(K::FLe, k, a) } else { self.cx.bin(K::FLe, a, k) };
                let t = if i.nan { self.cx.or(nan, t) } else { t };
                out.push(t);
            }
        }
        out
    }
    /// give every math variable its real value
    fn fix_math(&self, r: &mut Vec<u128>) {
        for i in 0..self.vars.len() {
            if let VarKind::Math(f, x, y, w) = self.vars[i].kind {
                let mut memo = FxMap::default();
                let env = |v: u32| r[v as usize];
                let xv = if x.e != 0 { self.cx.eval(x.e, &env, &mut memo) } else { x.c };
                let yv = if y.e != 0 { self.cx.eval(y.e, &env, &mut memo) } else { y.c };
                r[i] = math::apply(f, w, xv, yv);
            }
        }
    }
    /// recompute math variables with the real library; keep the repaired model if it still satisfies cs
    fn repair(&mut self, mv: Vec<u128>, cs: &[Id]) -> (Vec<u128>, bool) {
        if !self.vars.iter().any(|v| matches!(v.kind, VarKind::Math(..))) {
            return (mv, false);
        }
        let mut r = mv.clone();
        let mut same = true;
        for i in 0..self.vars.len() {
            if let VarKind::Math(f, x, y, w) = self.vars[i].kind {
                let mut memo = FxMap::default();
                let env = |v: u32| r[v as usize];
                let xv = if x.e != 0 { self.cx.eval(x.e, &env, &mut memo) } else { x.c };
                let yv = if y.e != 0 { self.cx.eval(y.e, &env, &mut memo) } else { y.c };
                let real = math::apply(f, w, xv, yv);
                if real != r[i] {
                    same = false;
                    r[i] = real;
                }
            }
        }
        if same {
            return (r, false);
        }
        let mut memo = FxMap::default();
        let env = |v: u32| r[v as usize];
        let ok = cs.iter().all(|&e| self.cx.eval(e, &env, &mut memo) != 0) && self.pc.iter().all(|&e| self.cx.eval(e, &env, &mut memo) != 0);
        if ok {
            (r, false)
        } else {
            (mv, true)
        }
    }
    /// look for a satisfying assignment by evaluation (a witness is as good as the solver's model;
    /// failure to find one decides nothing). Math variables always get their real values.
    fn search(&mut self, cs: &[Id], extra: Id, sup: u128, init: Vec<u128>, evals: usize) -> Option<Vec<u128>> {
        let t0 = std::time::Instant::now();
        // tape in dependency order
        let mut pos: FxMap<Id, u32> = FxMap::default();
        let mut tape: Vec<(Id, u32)> = vec![]; // node, math var index+1
        let mut want: Vec<Id> = cs.iter().copied().filter(|c| *c == extra || !self.axset.contains_key(c)).collect();
        want.dedup();
        let mut st: Vec<(Id, bool)> = want.iter().map(|&e| (e, false)).collect();
        while let Some((x, done)) = st.pop() {
            if pos.contains_key(&x) {
                continue;
            }
            let n = self.cx.node(x);
            let mut ch: Vec<Id> = vec![];
            let mut mv = 0;
            if n.k == K::Var {
                if let VarKind::Math(_, a, b, _) = &self.vars[n.a as usize].kind {
                    mv = n.a + 1;
                    if a.e != 0 {
                        ch.push(a.e)
                    }
                    if b.e != 0 {
                        ch.push(b.e)
                    }
                }
            } else {
                let (c, k) = self.cx.children(x);
                ch.extend_from_slice(&c[..k]);
            }
            if !done {
                st.push((x, true));
                for c in ch {
                    if !pos.contains_key(&c) {
                        st.push((c, false))
                    }
                }
                continue;
            }
            pos.insert(x, tape.len() as u32);
            tape.push((x, mv));
            if tape.len() > 60_000 {
                return None;
            }
        }
        let inputs: Vec<u32> = (0..self.vars.len() as u32)
            .filter(|&i| matches!(self.vars[i as usize].kind, VarKind::Input(_)) && (sup >> i.min(127) & 1 != 0))
            .collect();
        if inputs.is_empty() {
            return None;
        }
        // comparison atoms per constraint
        let mut atoms: FxMap<Id, Vec<(K, Id, Id)>> = FxMap::default();
        for &c in &want {
            let mut v = vec![];
            let mut seen: FxMap<Id, ()> = FxMap::default();
            let mut st = vec![c];
            while let Some(x) = st.pop() {
                if seen.insert(x, ()).is_some() || seen.len() > 200 {
                    continue;
                }
                let n = self.cx.node(x);
                match n.k {
                    K::FLt | K::FLe | K::FEq | K::Eq | K::Ult | K::Ule | K::Slt | K::Sle => v.push((n.k, n.a, n.b)),
                    _ => {
                        if n.w == 1 {
                            let (ch, k) = self.cx.children(x);
                            st.extend_from_slice(&ch[..k])
                        }
                    }
                }
            }
            atoms.insert(c, v);
        }
        let wpos: Vec<usize> = want.iter().map(|c| pos[c] as usize).collect();
        let cx = &self.cx;
        let vars = &self.vars;
        // compiled tape
        struct Ins {
            k: K,
            w: u32,
            aw: u32,
            b: u32,
            i: [u32; 3],
            c: u128,
            m: Option<(MathFn, u32, Val, Val, u32, u32)>,
        }
        let prog: Vec<Ins> = tape
            .iter()
            .map(|&(x, mv)| {
                let n = cx.node(x);
                let (ch, k) = cx.children(x);
                let mut i = [0u32; 3];
                if n.k != K::Var {
                    for j in 0..k {
                        i[j] = pos[&ch[j]];
                    }
                }
                let aw = if n.k == K::Concat { cx.w(ch[1]) } else if n.k != K::Var && k > 0 { cx.w(ch[0]) } else { 0 };
                let mut m = None;
                if mv != 0 {
                    if let VarKind::Math(f, a, b, w) = &vars[(mv - 1) as usize].kind {
                        m = Some((*f, *w, *a, *b, if a.e != 0 { pos[&a.e] } else { u32::MAX }, if b.e != 0 { pos[&b.e] } else { u32::MAX }));
                    }
                }
                Ins { k: n.k, w: n.w as u32, aw, b: if n.k == K::Var { n.a } else { n.b }, i, c: if n.k == K::Const { cx.cv(x).unwrap() } else { 0 }, m }
            })
            .collect();
        let run = |vals: &mut Vec<u128>, out: &mut Vec<u128>| -> Vec<usize> {
            out.clear();
            for p in &prog {
                let g = |i: usize| out[p.i[i] as usize];
                let v = match p.k {
                    K::Const => p.c,
                    K::Var => {
                        if let Some((f, w, a, b, ai, bi)) = &p.m {
                            let av = if *ai != u32::MAX { out[*ai as usize] } else { a.c };
                            let bv = if *bi != u32::MAX { out[*bi as usize] } else { b.c };
                            vals[p.b as usize] = math::apply(*f, *w, av, bv);
                        }
                        vals[p.b as usize]
                    }
                    K::Extract => mask(g(0) >> p.b, p.w),
                    K::Ite => {
                        if g(0) != 0 {
                            g(1)
                        } else {
                            g(2)
                        }
                    }
                    K::Concat => (g(0) << p.aw) | g(1),
                    _ => ev(p.k, p.w, p.aw, g(0), g(1), g(2)),
                };
                out.push(v);
            }
            (0..wpos.len()).filter(|&i| out[wpos[i]] == 0).collect()
        };
        // simple bounds of the float inputs, for random restarts
        let mut bnd: FxMap<u32, (f64, f64)> = FxMap::default();
        {
            let mut st: Vec<Id> = want.clone();
            while let Some(e) = st.pop() {
                let n = cx.node(e);
                if n.k == K::And && n.w == 1 {
                    st.push(n.a);
                    st.push(n.b);
                } else if n.k == K::FLe || n.k == K::FLt {
                    for (v, c, lo) in [(n.a, n.b, false), (n.b, n.a, true)] {
                        let vn = cx.node(v);
                        if vn.k == K::Var && vn.w == 32 {
                            if let Some(k) = cx.cv(c) {
                                let f = f32::from_bits(k as u32) as f64;
                                let b = bnd.entry(vn.a).or_insert((-20.0, 20.0));
                                if lo {
                                    b.0 = f;
                                    if b.1 < f {
                                        b.1 = f + 20.0
                                    }
                                } else {
                                    b.1 = f;
                                    if b.0 > f {
                                        b.0 = f - 20.0
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        // constants the constraints mention: boundary values are often witnesses
        let mut ks: Vec<f32> = vec![];
        let mut ki: Vec<u128> = vec![];
        for &(x, _) in &tape {
            let n = cx.node(x);
            if n.k == K::Const && n.w == 32 {
                let f = f32::from_bits(cx.cv(x).unwrap() as u32);
                if f.is_finite() && f.abs() > 1e-30 && f.abs() < 1e30 && !ks.contains(&f) && ks.len() < 64 {
                    ks.push(f);
                    ks.push(-f);
                }
            }
            if n.k == K::Const && n.w > 1 && ki.len() < 64 {
                let v = cx.cv(x).unwrap();
                if !ki.contains(&v) {
                    ki.push(v);
                }
            }
        }
        let mut rs: u64 = 0x1234_5678_9abc_def1 ^ (extra as u64) << 20 ^ self.steps;
        let mut rnd = move || {
            rs ^= rs << 13;
            rs ^= rs >> 7;
            rs ^= rs << 17;
            rs
        };
        let mut out = Vec::with_capacity(tape.len());
        let mut cur = init.clone();
        let mut bad = run(&mut cur, &mut out);
        let mut curout = out.clone();
        let mut since = 0;
        let mut restarts = 0;
        for _ in 0..evals {
            if bad.is_empty() {
                return self.settle(cur);
            }
            if t0.elapsed().as_millis() > 1500 {
                return None;
            }
            since += 1;
            if since > 60 {
                since = 0;
                restarts += 1;
                cur = init.clone();
                if restarts % 4 == 3 && !ks.is_empty() {
                    // values at or near constants the constraints mention, often the same one for several inputs
                    let one = ks[(rnd() % ks.len() as u64) as usize];
                    for &v in &inputs {
                        if vars[v as usize].w == 32 && rnd() % 8 != 0 {
                            let k = if rnd() % 4 != 0 { one } else { ks[(rnd() % ks.len() as u64) as usize] };
                            let f = match rnd() % 4 {
                                0 => k,
                                1 => f32::from_bits(k.to_bits().wrapping_sub((rnd() % 4) as u32)),
                                2 => f32::from_bits(k.to_bits().wrapping_add((rnd() % 4) as u32)),
                                _ => k * (1.0 - (2f32).powi(-8 - (rnd() % 14) as i32)),
                            };
                            cur[v as usize] = f.to_bits() as u128;
                        }
                    }
                } else if restarts % 4 != 0 {
                    // random point within the simple bounds, in decreasing order of variable index or not
                    let desc = rnd() & 1 == 0;
                    let mut fs: Vec<(u32, f64)> = vec![];
                    for &v in &inputs {
                        if vars[v as usize].w != 32 {
                            continue;
                        }
                        if let Some(&(lo, hi)) = bnd.get(&v) {
                            if lo.is_finite() && hi.is_finite() {
                                fs.push((v, lo + (hi - lo) * ((rnd() % 100_000) as f64 / 100_000.0)));
                            }
                        } else if restarts % 4 == 1 {
                            fs.push((v, -20.0 + 40.0 * ((rnd() % 100_000) as f64 / 100_000.0)));
                        }
                    }
                    if desc {
                        let mut k: Vec<f64> = fs.iter().map(|x| x.1).collect();
                        k.sort_by(|a, b| b.total_cmp(a));
                        for (i, f) in fs.iter_mut().enumerate() {
                            f.1 = k[i];
                        }
                    }
                    for (v, f) in fs {
                        cur[v as usize] = (f as f32).to_bits() as u128;
                    }
                }
                bad = run(&mut cur, &mut out);
                curout = out.clone();
                if bad.is_empty() {
                    continue;
                }
            }
            let mut c = cur.clone();
            let bc = want[bad[(rnd() % bad.len() as u64) as usize]];
            let al = &atoms[&bc];
            let mut done = false;
            if !al.is_empty() && rnd() % 10 < 6 {
                let (_, a, b) = al[(rnd() % al.len() as u64) as usize];
                let (a, b) = if rnd() & 1 == 0 { (a, b) } else { (b, a) };
                let n = cx.node(a);
                if n.k == K::Var && matches!(vars[n.a as usize].kind, VarKind::Input(_)) {
                    let v = curout[pos[&b] as usize];
                    let d = [0i128, 0, 1, -1, 2, -2, 64, -64][(rnd() % 8) as usize];
                    c[n.a as usize] = mask((v as i128).wrapping_add(d) as u128, n.w as u32);
                    done = true;
                }
            }
            if !done {
                for _ in 0..1 + rnd() % 2 {
                    let v = inputs[(rnd() % inputs.len() as u64) as usize] as usize;
                    let w = vars[v].w;
                    let x = c[v];
                    let o = inputs[(rnd() % inputs.len() as u64) as usize] as usize;
                    let nv = if w == 32 {
                        let f = f32::from_bits(x as u32);
                        let r = match rnd() % 18 {
                            0 => 0f32,
                            1 => [1f32, -1.0, 0.5, 2.0, -0.0, 1e-40, 100.0, -100.0][(rnd() % 8) as usize],
                            2 => [f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN_POSITIVE, -f32::MAX][(rnd() % 6) as usize],
                            3 => f * 2.0,
                            4 => f * 0.5,
                            5 => -f,
                            6 => f32::from_bits((x as u32).wrapping_add(1)),
                            7 => f32::from_bits((x as u32).wrapping_sub(1)),
                            8 => f32::from_bits(c[o] as u32),
                            9 => f * (1.0 + (2f32).powi(-((rnd() % 20) as i32))),
                            10 => f * (1.0 - (2f32).powi(-((rnd() % 20) as i32) - 1)),
                            11 => f + (2f32).powi((rnd() % 12) as i32 - 6),
                            12 => f - (2f32).powi((rnd() % 12) as i32 - 6),
                            13 => (rnd() % 2000) as f32 / 100.0 - 10.0,
                            14 => (rnd() % 1000) as f32 / 1000.0,
                            15 | 16 if !ks.is_empty() => {
                                let k = ks[(rnd() % ks.len() as u64) as usize];
                                f32::from_bits(k.to_bits().wrapping_add((rnd() % 5) as u32).wrapping_sub(2))
                            }
                            _ => f32::from_bits(rnd() as u32),
                        };
                        r.to_bits() as u128
                    } else {
                        match rnd() % 8 {
                            7 if !ki.is_empty() => ki[(rnd() % ki.len() as u64) as usize].wrapping_add((rnd() % 3) as u128).wrapping_sub(1),
                            0 => (rnd() % 8) as u128,
                            1 => x.wrapping_add(1),
                            2 => x.wrapping_sub(1),
                            3 => c[o],
                            4 => x ^ (1u128 << (rnd() % w as u64)),
                            5 => u128::MAX,
                            _ => rnd() as u128,
                        }
                    };
                    c[v] = mask(nv, w);
                }
            }
            let nb = run(&mut c, &mut out);
            if nb.len() <= bad.len() {
                if nb.len() < bad.len() {
                    since = 0
                }
                cur = c;
                bad = nb;
                std::mem::swap(&mut curout, &mut out);
            }
        }
        if bad.is_empty() {
            return self.settle(cur);
        }
        None
    }
    /// the assignment with real values for all math variables, if the path so far still holds
    fn settle(&mut self, mut cur: Vec<u128>) -> Option<Vec<u128>> {
        self.fix_math(&mut cur);
        if self.abstract_ {
            let mut memo = FxMap::default();
            if !self.pc.iter().all(|&e| self.cx.eval(e, &|v| cur[v as usize], &mut memo) != 0) {
                return None;
            }
        }
        Some(cur)
    }
    fn incon(&mut self, s: &str) {
        *self.st.inconclusive.entry(s.to_string()).or_default() += 1;
    }
    fn replaying(&self) -> bool {
        self.pos < self.prefix.len()
    }
    fn branch(&mut self, cond: Id, shadow: bool) -> R<bool> {
        if let Some(b) = self.fact(cond) {
            if b != shadow {
                return Err(Stop::Inconclusive("shadow/fact divergence".into()));
            }
            return Ok(b);
        }
        let neg = self.cx.not(cond);
        if self.replaying() {
            let d = self.prefix[self.pos].clone();
            self.pos += 1;
            let b = match d {
                Dec::B(b) => {
                    self.add_pc(if b { cond } else { neg });
                    b
                }
                Dec::F(b) => {
                    self.learn(cond, b);
                    b
                }
                _ => return Err(Stop::Inconclusive("decision kind divergence".into())),
            };
            self.decs.push(d);
            if b != shadow {
                return Err(Stop::Inconclusive("shadow divergence".into()));
            }
            return Ok(b);
        }
        self.st.decisions += 1;
        let other = if shadow { neg } else { cond };
        let q = match self.by_bounds(cond) {
            Some(b) if b == shadow => {
                self.st.q_bounds += 1;
                Q::Unsat
            }
            _ => {
                let q = self.query(other);
                if matches!(q, Q::Unsat) && std::env::var("SYM_DBGB").is_ok() {
                    eprintln!("unsat by solver: {} in {}", self.cx.show(cond, 5), self.frames.last().map(|f| f.f.name.as_str()).unwrap_or("?"));
                }
                q
            }
        };
        match q {
            Q::Sat(m, _) => {
                let mut p = self.decs.clone();
                p.push(Dec::B(!shadow));
                self.spawn.push(Work { prefix: p, model: m });
            }
            Q::Unsat => {
                self.st.forced += 1;
                self.learn(cond, shadow);
                self.decs.push(Dec::F(shadow));
                self.pos += 1;
                return Ok(shadow);
            }
            Q::Unknown => self.incon("solver gave no answer on a branch"),
        }
        self.decs.push(Dec::B(shadow));
        self.pos += 1;
        self.add_pc(if shadow { cond } else { neg });
        Ok(shadow)
    }
    fn choose(&mut self, conds: &[(Id, u32)], taken: u32) -> R<()> {
        // conds: (condition, ordinal); taken: ordinal under the shadow
        if self.replaying() {
            let d = self.prefix[self.pos].clone();
            self.pos += 1;
            if let Dec::I(i) = d {
                self.decs.push(d);
                if i != taken {
                    return Err(Stop::Inconclusive("shadow divergence (switch)".into()));
                }
                let c = conds.iter().find(|c| c.1 == i).unwrap().0;
                self.add_pc(c);
                return Ok(());
            }
            return Err(Stop::Inconclusive("decision kind divergence".into()));
        }
        self.st.decisions += 1;
        for &(c, o) in conds {
            if o == taken {
                continue;
            }
            if self.by_bounds(c) == Some(false) {
                self.st.q_bounds += 1;
                continue;
            }
            match self.query(c) {
                Q::Sat(m, _) => {
                    let mut p = self.decs.clone();
                    p.push(Dec::I(o));
                    self.spawn.push(Work { prefix: p, model: m });
                }
                Q::Unsat => {}
                Q::Unknown => self.incon("solver gave no answer on a switch"),
            }
        }
        self.decs.push(Dec::I(taken));
        self.pos += 1;
        let c = conds.iter().find(|c| c.1 == taken).unwrap().0;
        self.add_pc(c);
        Ok(())
    }
    fn conc(&mut self, v: Val) -> R<u128> {
        if v.e == 0 {
            return Ok(v.c);
        }
        if let Some(c) = self.cx.cv(v.e) {
            return Ok(c);
        }
        let w = self.cx.w(v.e);
        if w == 1 {
            return self.branch(v.e, v.c != 0).map(|b| b as u128);
        }
        let kk = self.cx.k(v.c, w);
        let eqc = self.cx.eq(v.e, kk);
        if let Some(true) = self.fact(eqc) {
            return Ok(v.c);
        }
        if self.replaying() {
            let d = self.prefix[self.pos].clone();
            self.pos += 1;
            if let Dec::K(x) = d {
                self.decs.push(d);
                if x != v.c {
                    return Err(Stop::Inconclusive("shadow divergence (value)".into()));
                }
                self.add_pc(eqc);
                return Ok(x);
            }
            return Err(Stop::Inconclusive("decision kind divergence".into()));
        }
        self.st.decisions += 1;
        let mut excl = self.cx.not(eqc);
        let mut count = 1;
        loop {
            match self.query(excl) {
                Q::Sat(m, _) => {
                    let mut memo = FxMap::default();
                    let x = self.cx.eval(v.e, &|i| m[i as usize], &mut memo);
                    let mut p = self.decs.clone();
                    p.push(Dec::K(x));
                    self.spawn.push(Work { prefix: p, model: m });
                    let kk = self.cx.k(x, w);
                    let q = self.cx.eq(v.e, kk);
                    let q = self.cx.not(q);
                    excl = self.cx.and(excl, q);
                    count += 1;
                    if count > self.opts.conc_limit {
                        let at = self.frames.last().map(|f| f.f.name.clone()).unwrap_or_default();
                        self.incon(&format!("more than {} values at a concretisation in {at}", self.opts.conc_limit));
                        break;
                    }
                }
                Q::Unsat => break,
                Q::Unknown => {
                    self.incon("solver gave no answer on a concretisation");
                    break;
                }
            }
        }
        self.decs.push(Dec::K(v.c));
        self.pos += 1;
        self.add_pc(eqc);
        Ok(v.c)
    }
    fn assume(&mut self, e: Id, shadow: bool) -> R<()> {
        match self.fact(e) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Stop::Pruned),
            None => {}
        }
        if shadow {
            self.add_pc(e);
            return Ok(());
        }
        match self.query(e) {
            Q::Sat(m, _) => {
                self.spawn.push(Work { prefix: if self.replaying() { self.prefix.clone() } else { self.decs.clone() }, model: m });
                Err(Stop::Restart)
            }
            Q::Unsat => Err(Stop::Pruned),
            Q::Unknown => Err(Stop::Inconclusive("solver gave no answer on an assumption".into())),
        }
    }
    fn is_real(&mut self) -> bool {
        // do all math variables have their real values under the shadow?
        for i in 0..self.vars.len() {
            if let VarKind::Math(f, x, y, w) = self.vars[i].kind {
                let xv = if x.e != 0 { self.eval_shadow(x.e) } else { x.c };
                let yv = if y.e != 0 { self.eval_shadow(y.e) } else { y.c };
                if math::apply(f, w, xv, yv) != self.vals[i] {
                    return false;
                }
            }
        }
        true
    }
    fn assert_(&mut self, v: Val, id: String) -> R<()> {
        if self.replaying() {
            if v.e == 0 && v.c == 0 {
                return Err(Stop::Assert(id));
            }
            if v.e != 0 {
                if self.fact(v.e).is_none() {
                    if v.c == 0 {
                        return Err(Stop::Inconclusive("assertion divergence in replayed prefix".into()));
                    }
                    self.learn(v.e, true);
                }
            }
            return Ok(());
        }
        let known = if v.e == 0 { Some(v.c != 0) } else { self.fact(v.e) };
        if let Some(b) = known {
            let en = self.st.asserts.entry(id.clone()).or_default();
            if b {
                en.0 += 1;
                return Ok(());
            }
            en.2 += 1;
            let inp = self.inputs();
            let ab = self.abstract_;
            self.violations.push((id.clone(), inp, ab));
            return Err(Stop::Assert(id));
        }
        if v.c == 0 {
            self.st.asserts.entry(id.clone()).or_default().2 += 1;
            let inp = self.inputs();
            let ab = self.abstract_;
            self.violations.push((id.clone(), inp, ab));
            return Err(Stop::Assert(id));
        }
        let neg = self.cx.not(v.e);
        match self.query(neg) {
            Q::Unsat => {
                self.st.asserts.entry(id).or_default().1 += 1;
                self.learn(v.e, true);
                Ok(())
            }
            Q::Sat(m, abs) => {
                self.st.asserts.entry(id.clone()).or_default().2 += 1;
                let inp = self.inputs_of(&m);
                self.violations.push((id.clone(), inp, abs || self.abstract_));
                // continue under the assertion
                self.add_pc(v.e);
                Ok(())
            }
            Q::Unknown => {
                self.incon(&format!("solver gave no answer on assertion {id}"));
                self.add_pc(v.e);
                Ok(())
            }
        }
    }
    fn new_var(&mut self, w: u32, kind: VarKind, default: u128) -> (u32, Val) {
        let id = self.vars.len() as u32;
        let e = self.cx.var(id, w);
        let c = mask(self.model.get(id as usize).copied().unwrap_or(default), w);
        self.vars.push(Var { w, kind, e, sup: 0 });
        self.vals.push(c);
        (id, Val { c, e })
    }
    fn math(&mut self, f: MathFn, w: u32, x: Val, y: Val) -> R<Val> {
        let x = self.norm(x);
        let y = self.norm(y);
        if x.e == 0 && y.e == 0 {
            return Ok(Val { c: math::apply(f, w, x.c, y.c), e: 0 });
        }
        let key = (f as u32 * 2 + (w == 64) as u32, x.e, y.e, if x.e == 0 { x.c } else { 0 }, if y.e == 0 { y.c } else { 0 });
        if let Some(&i) = self.mathmap.get(&key) {
            return Ok(Val { c: self.vals[i as usize], e: self.vars[i as usize].e });
        }
        let real = math::apply(f, w, x.c, y.c);
        let (id, v) = self.new_var(w, VarKind::Math(f, x, y, w), real);
        if v.c != real {
            self.abstract_ = true;
        }
        self.st.math_vars += 1;
        self.mathmap.insert(key, id);
        let mut ax = vec![];
        math::axioms(&mut self.cx, f, w, x, y, v.e, &mut ax);
        for i in 0..id as usize {
            if let VarKind::Math(g, x2, y2, w2) = self.vars[i].kind.clone() {
                if g == f && w2 == w {
                    let v2 = self.vars[i].e;
                    math::pair_axioms(&mut self.cx, f, w, (x, y, v.e), (x2, y2, v2), &mut ax);
                }
            }
        }
        let mut bad = false;
        for a in ax {
            if self.fact(a) == Some(true) {
                continue;
            }
            self.axset.insert(a, ());
            if self.eval_shadow(a) == 0 {
                bad = true
            }
            self.add_pc(a);
        }
        if bad {
            // shadow violates an axiom (an earlier math variable has an unrealistic value): get a new model
            let t = self.cx.t;
            let _ = t;
            let all: Vec<Id> = self.pc.clone();
            let mut conj = self.cx.t;
            for e in all {
                conj = self.cx.and(conj, e);
            }
            self.pc.clear();
            self.facts.clear();
            self.bounds.clear();
            return match self.query(conj) {
                Q::Sat(m, _) => {
                    self.spawn.push(Work { prefix: if self.replaying() { self.prefix.clone() } else { self.decs.clone() }, model: m });
                    Err(Stop::Restart)
                }
                Q::Unsat => Err(Stop::Pruned),
                Q::Unknown => Err(Stop::Inconclusive("solver gave no answer on math axioms".into())),
            };
        }
        Ok(v)
    }
    fn norm(&self, v: Val) -> Val {
        if v.e != 0 {
            if let Some(c) = self.cx.cv(v.e) {
                return Val { c, e: 0 };
            }
        }
        v
    }

    // ------------------------------------------------------------ helpers on values
    fn ex(&mut self, v: Val, w: u32) -> Id {
        if v.e != 0 {
            v.e
        } else {
            self.cx.k(v.c, w)
        }
    }
    fn mkv(&self, c: u128, e: Id) -> Val {
        if self.cx.cv(e).is_some() {
            Val { c, e: 0 }
        } else {
            Val { c, e }
        }
    }
    fn bin(&mut self, k: K, w: u32, a: Val, b: Val) -> Val {
        let rw = match k {
            K::Eq | K::Ult | K::Ule | K::Slt | K::Sle | K::FLt | K::FLe | K::FEq => 1,
            _ => w,
        };
        let c = ev(k, rw, w, a.c, b.c, 0);
        if a.e == 0 && b.e == 0 {
            return Val { c, e: 0 };
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.cx.bin(k, x, y);
        if matches!(k, K::FLt | K::FLe | K::FEq) && self.cx.cv(e).is_none() {
            if let Some(v) = self.by_bounds(e) {
                if v as u128 == c {
                    return Val { c, e: 0 };
                }
            }
        }
        self.mkv(c, e)
    }
    fn un(&mut self, k: K, rw: u32, w: u32, a: Val) -> Val {
        let c = ev(k, rw, w, a.c, 0, 0);
        if a.e == 0 {
            return Val { c, e: 0 };
        }
        let e = self.cx.un(k, rw, a.e);
        self.mkv(c, e)
    }
    fn not(&mut self, a: Val, w: u32) -> Val {
        let c = mask(!a.c, w);
        if a.e == 0 {
            return Val { c, e: 0 };
        }
        let e = self.cx.not(a.e);
        Val { c, e }
    }
    fn ite(&mut self, c: Val, a: Val, b: Val, w: u32) -> Val {
        let cc = if c.c & 1 != 0 { a.c } else { b.c };
        if c.e == 0 {
            return if c.c & 1 != 0 { a } else { b };
        }
        if a.e == 0 && b.e == 0 && a.c == b.c {
            return a;
        }
        if let Some(f) = self.fact(c.e) {
            return if f { a } else { b };
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.cx.ite(c.e, x, y);
        self.mkv(cc, e)
    }
    fn isnan(&mut self, a: Val, w: u32) -> Val {
        let c = is_nan(a.c, w) as u128;
        if a.e == 0 {
            return Val { c, e: 0 };
        }
        let e = self.cx.isnan(a.e);
        self.mkv(c, e)
    }
    fn icmp(&mut self, p: Pred, w: u32, a: Val, b: Val) -> Val {
        match p {
            Pred::Eq => self.bin(K::Eq, w, a, b),
            Pred::Ne => {
                let r = self.bin(K::Eq, w, a, b);
                self.not(r, 1)
            }
            Pred::Ult => self.bin(K::Ult, w, a, b),
            Pred::Ule => self.bin(K::Ule, w, a, b),
            Pred::Ugt => self.bin(K::Ult, w, b, a),
            Pred::Uge => self.bin(K::Ule, w, b, a),
            Pred::Slt => self.bin(K::Slt, w, a, b),
            Pred::Sle => self.bin(K::Sle, w, a, b),
            Pred::Sgt => self.bin(K::Slt, w, b, a),
            Pred::Sge => self.bin(K::Sle, w, b, a),
        }
    }
    fn fcmp(&mut self, p: &str, w: u32, a: Val, b: Val) -> R<Val> {
        let uno = |s: &mut Self| {
            let x = s.isnan(a, w);
            let y = s.isnan(b, w);
            s.bin(K::Or, 1, x, y)
        };
        Ok(match p {
            "oeq" => self.bin(K::FEq, w, a, b),
            "olt" => self.bin(K::FLt, w, a, b),
            "ole" => self.bin(K::FLe, w, a, b),
            "ogt" => self.bin(K::FLt, w, b, a),
            "oge" => self.bin(K::FLe, w, b, a),
            "une" => {
                let r = self.bin(K::FEq, w, a, b);
                self.not(r, 1)
            }
            "uge" => {
                let r = self.bin(K::FLt, w, a, b);
                self.not(r, 1)
            }
            "ugt" => {
                let r = self.bin(K::FLe, w, a, b);
                self.not(r, 1)
            }
            "ule" => {
                let r = self.bin(K::FLt, w, b, a);
                self.not(r, 1)
            }
            "ult" => {
                let r = self.bin(K::FLe, w, b, a);
                self.not(r, 1)
            }
            "uno" => uno(self),
            "ord" => {
                let r = uno(self);
                self.not(r, 1)
            }
            "one" => {
                let x = self.bin(K::FLt, w, a, b);
                let y = self.bin(K::FLt, w, b, a);
                self.bin(K::Or, 1, x, y)
            }
            "ueq" => {
                let x = self.bin(K::FLt, w, a, b);
                let y = self.bin(K::FLt, w, b, a);
                let r = self.bin(K::Or, 1, x, y);
                self.not(r, 1)
            }
            "true" => Val { c: 1, e: 0 },
            "false" => Val { c: 0, e: 0 },
            x => return Err(Stop::Inconclusive(format!("fcmp {x}"))),
        })
    }
    fn ibin(&mut self, o: B, w: u32, a: Val, b: Val) -> R<Val> {
        let k = match o {
            B::Add => K::Add,
            B::Sub => K::Sub,
            B::Mul => K::Mul,
            B::Shl => K::Shl,
            B::LShr => K::LShr,
            B::AShr => K::AShr,
            B::And => K::And,
            B::Or => K::Or,
            B::Xor => K::Xor,
            B::UDiv | B::SDiv | B::URem | B::SRem => {
                // divisor zero is UB in IR; rustc checks before dividing
                let z = Val { c: 0, e: 0 };
                let iz = self.bin(K::Eq, w, b, z);
                if self.truth(iz)? {
                    return Err(Stop::Panic("division by zero (UB)".into()));
                }
                match o {
                    B::UDiv => K::UDiv,
                    B::SDiv => K::SDiv,
                    B::URem => K::URem,
                    _ => K::SRem,
                }
            }
        };
        Ok(self.bin(k, w, a, b))
    }
    fn truth(&mut self, v: Val) -> R<bool> {
        if v.e == 0 {
            return Ok(v.c & 1 != 0);
        }
        self.branch(v.e, v.c & 1 != 0)
    }
    fn cast(&mut self, k: Cast, f: u32, t: u32, a: Val) -> Val {
        match k {
            Cast::Copy => a,
            Cast::Trunc => {
                let c = mask(a.c, t);
                if a.e == 0 {
                    return Val { c, e: 0 };
                }
                let e = self.cx.extract(a.e, t - 1, 0);
                self.mkv(c, e)
            }
            Cast::ZExt => {
                if a.e == 0 {
                    return a;
                }
                let e = self.cx.zext(a.e, t);
                self.mkv(a.c, e)
            }
            Cast::SExt => {
                let c = mask(sext(a.c, f) as u128, t);
                if a.e == 0 {
                    return Val { c, e: 0 };
                }
                let e = self.cx.sext(a.e, t);
                self.mkv(c, e)
            }
            Cast::FPTrunc => self.un(K::FPTrunc, t, f, a),
            Cast::FPExt => self.un(K::FPExt, t, f, a),
            Cast::UIToFP => self.un(K::UIToFP, t, f, a),
            Cast::SIToFP => self.un(K::SIToFP, t, f, a),
            Cast::FPToUI => self.un(K::FPToUI, t, f, a),
            Cast::FPToSI => self.un(K::FPToSI, t, f, a),
        }
    }
    fn fbin(&mut self, o: FB, w: u32, a: Val, b: Val) -> R<Val> {
        Ok(match o {
            FB::Add => self.bin(K::FAdd, w, a, b),
            FB::Sub => {
                let nb = self.fneg(b, w);
                self.bin(K::FAdd, w, a, nb)
            }
            FB::Mul => self.bin(K::FMul, w, a, b),
            FB::Div => self.bin(K::FDiv, w, a, b),
            FB::Rem => {
                if a.e == 0 && b.e == 0 {
                    let c = if w == 32 {
                        c32(f32::from_bits(a.c as u32) % f32::from_bits(b.c as u32))
                    } else {
                        c64(f64::from_bits(a.c as u64) % f64::from_bits(b.c as u64))
                    };
                    Val { c, e: 0 }
                } else {
                    return Err(Stop::Inconclusive("frem on symbolic values".into()));
                }
            }
        })
    }
    fn fneg(&mut self, a: Val, w: u32) -> Val {
        let s = Val { c: 1u128 << (w - 1), e: 0 };
        self.bin(K::Xor, w, a, s)
    }
    fn fabs(&mut self, a: Val, w: u32) -> Val {
        let s = Val { c: (1u128 << (w - 1)) - 1, e: 0 };
        self.bin(K::And, w, a, s)
    }

    /// Rounding to a whole number; exact, and the sign of zero is kept.
    fn round(&mut self, how: &str, w: u32, a: Val) -> Val {
        let big = if w == 32 { c32(8388608.0) } else { c64(4503599627370496.0) };
        let (half, one) = if w == 32 { (c32(0.5), c32(1.0)) } else { (c64(0.5), c64(1.0)) };
        let cz = |c: u128| Val { c, e: 0 };
        if a.e == 0 {
            let r = if w == 32 {
                let x = f32::from_bits(a.c as u32);
                c32(match how {
                    "trunc" => x.trunc(),
                    "floor" => x.floor(),
                    "ceil" => x.ceil(),
                    "round" => x.round(),
                    _ => x.round_ties_even(),
                })
            } else {
                let x = f64::from_bits(a.c as u64);
                c64(match how {
                    "trunc" => x.trunc(),
                    "floor" => x.floor(),
                    "ceil" => x.ceil(),
                    "round" => x.round(),
                    _ => x.round_ties_even(),
                })
            };
            return cz(r);
        }
        let m = self.fabs(a, w);
        let sb = self.bin(K::And, w, a, cz(1u128 << (w - 1)));
        let small = self.bin(K::FLt, w, m, cz(big));
        let r = if matches!(how, "trunc" | "floor" | "ceil" | "round") {
            // keep the conversion within range whatever the value is
            let mm = self.ite(small, m, cz(0), w);
            let i = self.un(K::FPToSI, 64, w, mm);
            let t = self.un(K::SIToFP, w, 64, i);
            let neg = self.bin(K::Slt, w, a, cz(0));
            let up = match how {
                "trunc" => cz(0),
                "round" => {
                    let nt = self.bin(K::Xor, w, t, cz(1u128 << (w - 1)));
                    let d = self.bin(K::FAdd, w, mm, nt);
                    self.bin(K::FLe, w, cz(half), d)
                }
                _ => {
                    let frac = self.bin(K::FLt, w, t, mm);
                    let side = if how == "floor" { neg } else { self.not(neg, 1) };
                    self.bin(K::And, 1, frac, side)
                }
            };
            let t1 = self.bin(K::FAdd, w, t, cz(one));
            self.ite(up, t1, t, w)
        } else {
            let s = self.bin(K::FAdd, w, m, cz(big));
            self.bin(K::FAdd, w, s, cz(big | 1u128 << (w - 1)))
        };
        let r = self.bin(K::Or, w, r, sb);
        self.ite(small, r, a, w)
    }

    // ------------------------------------------------------------ interpreter
    #[inline]
    fn op(&self, base: u32, o: &Op) -> Val {
        match o {
            Op::S(s) => self.regs[(base + s) as usize],
            Op::C(c) => Val { c: *c, e: 0 },
            Op::A(_) => panic!("aggregate operand"),
        }
    }
    fn opn(&self, base: u32, o: &Op, i: u32) -> Val {
        match o {
            Op::S(s) => self.regs[(base + s + i) as usize],
            Op::C(c) => Val { c: *c, e: 0 },
            Op::A(v) => Val { c: v[i as usize], e: 0 },
        }
    }
    fn push_frame(&mut self, fid: u32, args: &[Val], dst: u32, nret: u32, normal: Option<u32>) -> R<()> {
        if self.frames.len() > 400 {
            return Err(Stop::Panic("stack overflow (recursion depth)".into()));
        }
        let f = self.m.func(fid);
        *self.st.funcs.entry(fid).or_default() += 1;
        let base = self.regs.len() as u32;
        self.regs.resize((base + f.nslots) as usize, Val::default());
        let mut k = 0;
        for &(s, n) in &f.args {
            for i in 0..n {
                if k < args.len() {
                    self.regs[(base + s + i) as usize] = args[k];
                }
                k += 1;
            }
        }
        self.frames.push(Frame { f, bb: 0, prev: u32::MAX, ip: 0, base, sp: self.sp, dst, nret, normal });
        Ok(())
    }
    fn goto(&mut self, bb: u32) {
        let fr = self.frames.last_mut().unwrap();
        fr.prev = fr.bb;
        fr.bb = bb;
        fr.ip = 0;
        let f = fr.f.clone();
        let (prev, base) = (fr.prev, fr.base);
        let ph = &f.blocks[bb as usize].phis;
        if ph.is_empty() {
            return;
        }
        let mut tmp: Vec<Val> = Vec::with_capacity(ph.len());
        for p in ph {
            let (_, v) = p.inc.iter().find(|x| x.0 == prev).expect("phi edge");
            for i in 0..p.n {
                tmp.push(self.opn(base, v, i));
            }
        }
        let mut k = 0;
        for p in ph {
            for i in 0..p.n {
                self.regs[(base + p.dst + i) as usize] = tmp[k];
                k += 1;
            }
        }
    }
    fn ret(&mut self, vals: &[Val]) {
        let fr = self.frames.pop().unwrap();
        // unmap allocas
        if self.sp > fr.sp {
            let (o, e) = ((fr.sp - STACK_BASE) as usize, (self.sp - STACK_BASE) as usize);
            let e = e.min(self.stack.fl.len());
            if o < e {
                self.stack.fl[o..e].fill(0);
            }
            self.sp = fr.sp;
        }
        self.regs.truncate(fr.base as usize);
        if let Some(c) = self.frames.last() {
            let b = c.base;
            if fr.dst != u32::MAX {
                for i in 0..fr.nret as usize {
                    self.regs[b as usize + fr.dst as usize + i] = vals[i];
                }
            }
            if let Some(n) = fr.normal {
                self.goto(n);
            }
        }
    }
    fn exec(&mut self, entry: u32) -> R<()> {
        self.push_frame(entry, &[], u32::MAX, 0, None)?;
        let began = std::time::Instant::now();
        let mut ask = 20;
        while !self.frames.is_empty() {
            self.steps += 1;
            if self.queried || self.steps & 0xffff == 0 {
                self.queried = false;
                let t = began.elapsed().as_secs();
                if t >= ask {
                    // a long path: the real code tells whether it is an endless one
                    if (self.opts.endless.clone())(entry, &self.inputs()) {
                        return Err(Stop::Panic("no end".into()));
                    }
                    ask = t * 2;
                }
                if t >= 10 && self.opts.stop.load(std::sync::atomic::Ordering::Relaxed) {
                    return Err(Stop::Inconclusive("time budget ended within a path".into()));
                }
            }
            if self.steps > self.opts.max_instr {
                return Err(Stop::Inconclusive("instruction limit".into()));
            }
            let fr = self.frames.last_mut().unwrap();
            let f = fr.f.clone();
            let b = fr.base;
            let ins = &f.blocks[fr.bb as usize].ins[fr.ip as usize];
            fr.ip += 1;
            macro_rules! set {
                ($d:expr,$v:expr) => {{
                    let v = $v;
                    self.regs[(b + $d) as usize] = v;
                }};
            }
            match ins {
                I::Bin(o, w, d, x, y) => {
                    let (x, y) = (self.op(b, x), self.op(b, y));
                    set!(*d, self.ibin(*o, *w, x, y)?)
                }
                I::ICmp(p, w, d, x, y) => {
                    let (x, y) = (self.op(b, x), self.op(b, y));
                    set!(*d, self.icmp(*p, *w, x, y))
                }
                I::FCmp(p, w, d, x, y) => {
                    let (x, y) = (self.op(b, x), self.op(b, y));
                    set!(*d, self.fcmp(p, *w, x, y)?)
                }
                I::FBin(o, w, d, x, y) => {
                    let (x, y) = (self.op(b, x), self.op(b, y));
                    set!(*d, self.fbin(*o, *w, x, y)?)
                }
                I::FNeg(w, d, x) => {
                    let x = self.op(b, x);
                    set!(*d, self.fneg(x, *w))
                }
                I::Cast(k, fw, tw, d, x) => {
                    let x = self.op(b, x);
                    set!(*d, self.cast(*k, *fw, *tw, x))
                }
                I::Select(n, d, c, x, y, ws) => {
                    let c = self.op(b, c);
                    for i in 0..*n {
                        let (xx, yy) = (self.opn(b, x, i), self.opn(b, y, i));
                        set!(*d + i, self.ite(c, xx, yy, ws[i as usize]))
                    }
                }
                I::Load(d, lv, p) => {
                    let p = self.op(b, p);
                    let a = self.conc(p)? as u64;
                    for (i, &(o, w)) in lv.iter().enumerate() {
                        set!(*d + i as u32, self.load(a.wrapping_add(o), w)?)
                    }
                }
                I::Store(lv, v, p) => {
                    let p = self.op(b, p);
                    let a = self.conc(p)? as u64;
                    for (i, &(o, w)) in lv.iter().enumerate() {
                        let v = self.opn(b, v, i as u32);
                        self.store(a.wrapping_add(o), w, v)?
                    }
                }
                I::Gep(d, p, off, terms) => {
                    let mut v = self.op(b, p);
                    if *off != 0 {
                        v = self.bin(K::Add, 64, v, Val { c: *off as u64 as u128, e: 0 });
                    }
                    for (o, w, s) in terms {
                        let i = self.op(b, o);
                        let i = if *w < 64 { self.cast(Cast::SExt, *w, 64, i) } else { i };
                        let t = self.bin(K::Mul, 64, i, Val { c: *s as u64 as u128, e: 0 });
                        v = self.bin(K::Add, 64, v, t);
                    }
                    set!(*d, v)
                }
                I::Alloca(d, s, a, n) => {
                    let n = self.op(b, n);
                    let n = self.conc(n)? as u64;
                    let addr = (self.sp + a - 1) / a * a;
                    let sz = s * n;
                    self.stack.map(addr, sz, 1, true);
                    self.sp = addr + sz + 16;
                    self.stack.ensure(self.sp);
                    if self.sp - STACK_BASE > (16 << 20) {
                        return Err(Stop::Panic("stack overflow".into()));
                    }
                    set!(*d, Val { c: addr as u128, e: 0 })
                }
                I::Copy(d, s, n) => {
                    for i in 0..*n {
                        set!(*d + i, self.opn(b, s, i))
                    }
                }
                I::Extract(d, s, f0, n) => {
                    for i in 0..*n {
                        set!(*d + i, self.opn(b, s, f0 + i))
                    }
                }
                I::Insert(d, a, na, v, f0, n) => {
                    let t: Vec<Val> = (0..*na).map(|i| if i >= *f0 && i < f0 + n { self.opn(b, v, i - f0) } else { self.opn(b, a, i) }).collect();
                    for (i, x) in t.into_iter().enumerate() {
                        set!(*d + i as u32, x)
                    }
                }
                I::Br(t) => self.goto(*t),
                I::CondBr(c, t, e) => {
                    let c = self.op(b, c);
                    let r = self.truth(c)?;
                    self.goto(if r { *t } else { *e })
                }
                I::Switch(v, w, def, cases) => {
                    let v = self.op(b, v);
                    let v = self.norm(v);
                    let tgt = cases.iter().find(|x| x.0 == v.c).map(|x| x.1).unwrap_or(*def);
                    if v.e != 0 {
                        let mut by: BTreeMap<u32, Id> = BTreeMap::new();
                        let mut any = self.cx.f;
                        for (k, t) in cases {
                            let kk = self.cx.k(*k, *w);
                            let q = self.cx.eq(v.e, kk);
                            any = self.cx.or(any, q);
                            let o = by.get(t).copied().unwrap_or(self.cx.f);
                            let r = self.cx.or(o, q);
                            by.insert(*t, r);
                        }
                        let nd = self.cx.not(any);
                        let o = by.get(def).copied().unwrap_or(self.cx.f);
                        let r = self.cx.or(o, nd);
                        by.insert(*def, r);
                        let conds: Vec<(Id, u32)> = by.iter().map(|(t, c)| (*c, *t)).collect();
                        let known = conds.iter().find(|c| self.fact(c.0) == Some(true)).map(|c| c.1);
                        match known {
                            Some(t) if t == tgt => {}
                            _ => self.choose(&conds, tgt)?,
                        }
                    }
                    self.goto(tgt)
                }
                I::Ret(v) => {
                    let vals: Vec<Val> = match v {
                        None => vec![],
                        Some((o, n)) => (0..*n).map(|i| self.opn(b, o, i)).collect(),
                    };
                    self.ret(&vals);
                }
                I::Unreachable => return Err(Stop::Panic("reached unreachable code".into())),
                I::Nop => {}
                I::Call { dst, nret, retw, callee, args, normal } => {
                    let mut av: Vec<Val> = Vec::with_capacity(args.len());
                    for (o, n, _) in args {
                        for i in 0..*n {
                            av.push(self.opn(b, o, i))
                        }
                    }
                    let fid = match callee {
                        Callee::F(f) => Ok(*f),
                        Callee::Nop => Err(String::new()),
                        Callee::Ext(n) => Err(n.clone()),
                        Callee::Ind(o) => {
                            let p = self.op(b, o);
                            let a = self.conc(p)? as u64;
                            match self.m.fn_at(a) {
                                Some(f) => Ok(f),
                                None => match self.m.ext_name(a) {
                                    Some(n) => Err(n.to_string()),
                                    None => return Err(Stop::Panic(format!("memory error: indirect call to {a:#x}"))),
                                },
                            }
                        }
                    };
                    let fid = match fid {
                        Ok(f) => match self.m.fns[f as usize].name.as_str() {
                            // libm names that may be defined inside compiler-builtins
                            n if math::by_name(n).is_some() => Err(n.to_string()),
                            _ => Ok(f),
                        },
                        e => e,
                    };
                    match fid {
                        Ok(f) => match self.hooks[f as usize] {
                            Hook::None => self.push_frame(f, &av, *dst, *nret, *normal)?,
                            Hook::Panic => {
                                *self.st.funcs.entry(f).or_default() += 1;
                                return Err(Stop::Panic(self.m.fns[f as usize].name.clone()));
                            }
                            Hook::HashOne => {
                                set!(*dst, Val { c: 0x9E3779B97F4A7C15, e: 0 });
                                if let Some(n) = normal {
                                    self.goto(*n)
                                }
                            }
                            Hook::BacktraceCapture => return Err(Stop::Inconclusive("backtrace capture".into())),
                        },
                        Err(n) => {
                            if n.is_empty() {
                                // inline asm: optimisation barrier only
                                if *nret > 0 && *dst != u32::MAX {
                                    return Err(Stop::Inconclusive("inline asm".into()));
                                }
                            } else {
                                let w0 = args.first().map(|a| a.2).unwrap_or(0);
                                let r = self.external(&n, &av, w0, *retw, *nret)?;
                                if *dst != u32::MAX {
                                    for i in 0..*nret {
                                        set!(*dst + i, r[i as usize])
                                    }
                                }
                            }
                            if let Some(n) = normal {
                                self.goto(*n)
                            }
                        }
                    }
                }
                I::Rmw(o, w, d, p, v) => {
                    let p = self.op(b, p);
                    let a = self.conc(p)? as u64;
                    let v = self.op(b, v);
                    let old = self.load(a, *w)?;
                    let nv = match o.as_str() {
                        "add" => self.bin(K::Add, *w, old, v),
                        "sub" => self.bin(K::Sub, *w, old, v),
                        "and" => self.bin(K::And, *w, old, v),
                        "or" => self.bin(K::Or, *w, old, v),
                        "xor" => self.bin(K::Xor, *w, old, v),
                        "xchg" => v,
                        "umax" => {
                            let c = self.bin(K::Ult, *w, old, v);
                            self.ite(c, v, old, *w)
                        }
                        x => return Err(Stop::Inconclusive(format!("atomicrmw {x}"))),
                    };
                    self.store(a, *w, nv)?;
                    if *d != u32::MAX {
                        set!(*d, old)
                    }
                }
                I::CmpXchg(w, d, p, c, n) => {
                    let p = self.op(b, p);
                    let a = self.conc(p)? as u64;
                    let (c, n) = (self.op(b, c), self.op(b, n));
                    let old = self.load(a, *w)?;
                    let eq = self.bin(K::Eq, *w, old, c);
                    let t = self.truth(eq)?;
                    if t {
                        self.store(a, *w, n)?
                    }
                    set!(*d, old);
                    set!(*d + 1, Val { c: t as u128, e: 0 })
                }
                I::VBin(o, n, ew, d, x, y) => {
                    let (x, y) = (self.op(b, x), self.op(b, y));
                    self.need_conc(x)?;
                    self.need_conc(y)?;
                    let mut r = 0u128;
                    for i in 0..*n {
                        let (p, q) = (mask(x.c >> (i * ew), *ew), mask(y.c >> (i * ew), *ew));
                        let v = self.ibin(*o, *ew, Val { c: p, e: 0 }, Val { c: q, e: 0 })?;
                        r |= v.c << (i * ew)
                    }
                    set!(*d, Val { c: r, e: 0 })
                }
                I::VICmp(pr, n, ew, d, x, y) => {
                    let (x, y) = (self.op(b, x), self.op(b, y));
                    self.need_conc(x)?;
                    self.need_conc(y)?;
                    let mut r = 0u128;
                    for i in 0..*n {
                        let (p, q) = (mask(x.c >> (i * ew), *ew), mask(y.c >> (i * ew), *ew));
                        let v = self.icmp(*pr, *ew, Val { c: p, e: 0 }, Val { c: q, e: 0 });
                        r |= v.c << i
                    }
                    set!(*d, Val { c: r, e: 0 })
                }
                I::VCast(k, n, fw, tw, d, x) => {
                    let x = self.op(b, x);
                    self.need_conc(x)?;
                    if n * tw > 128 || n * fw > 128 {
                        return Err(Stop::Inconclusive("vector wider than 128 bits".into()));
                    }
                    let mut r = 0u128;
                    for i in 0..*n {
                        let p = mask(x.c >> (i * fw), *fw);
                        let v = self.cast(*k, *fw, *tw, Val { c: p, e: 0 });
                        r |= v.c << (i * tw)
                    }
                    set!(*d, Val { c: r, e: 0 })
                }
                I::VSelect(n, ew, d, c, x, y) => {
                    let (c, x, y) = (self.op(b, c), self.op(b, x), self.op(b, y));
                    self.need_conc(c)?;
                    self.need_conc(x)?;
                    self.need_conc(y)?;
                    let mut r = 0u128;
                    for i in 0..*n {
                        let s = if c.c >> i & 1 != 0 { x.c } else { y.c };
                        r |= mask(s >> (i * ew), *ew) << (i * ew)
                    }
                    set!(*d, Val { c: r, e: 0 })
                }
                I::ExtractElt(ew, d, v, i) => {
                    let (v, i) = (self.op(b, v), self.op(b, i));
                    self.need_conc(i)?;
                    let r = if v.e != 0 {
                        let lo = i.c as u32 * ew;
                        let e = self.cx.extract(v.e, lo + ew - 1, lo);
                        self.mkv(mask(v.c >> lo, *ew), e)
                    } else {
                        Val { c: mask(v.c >> (i.c as u32 * ew), *ew), e: 0 }
                    };
                    set!(*d, r)
                }
                I::InsertElt(ew, d, v, x, i) => {
                    let (v, x, i) = (self.op(b, v), self.op(b, x), self.op(b, i));
                    self.need_conc(i)?;
                    self.need_conc(v)?;
                    self.need_conc(x)?;
                    let sh = i.c as u32 * ew;
                    if sh + ew > 128 {
                        return Err(Stop::Inconclusive("vector wider than 128 bits".into()));
                    }
                    let m = mask(u128::MAX, *ew) << sh;
                    set!(*d, Val { c: (v.c & !m) | (mask(x.c, *ew) << sh), e: 0 })
                }
                I::Shuffle(n, ew, d, x, y, idx) => {
                    let (x, y) = (self.op(b, x), self.op(b, y));
                    self.need_conc(x)?;
                    self.need_conc(y)?;
                    if n * ew > 128 || idx.len() as u32 * ew > 128 {
                        return Err(Stop::Inconclusive("vector wider than 128 bits".into()));
                    }
                    let mut r = 0u128;
                    for (k, &i) in idx.iter().enumerate() {
                        let s = if i < *n { x.c >> (i * ew) } else { y.c >> ((i - n) * ew) };
                        r |= mask(s, *ew) << (k as u32 * ew)
                    }
                    set!(*d, Val { c: r, e: 0 })
                }
                I::Bad(s) => return Err(Stop::Inconclusive(format!("unsupported: {s} in {}", f.name))),
            }
        }
        Ok(())
    }
    fn need_conc(&self, v: Val) -> R<()> {
        if v.e != 0 {
            return Err(Stop::Inconclusive("symbolic vector lanes".into()));
        }
        Ok(())
    }

    fn external(&mut self, n: &str, a: &[Val], w0: u32, retw: u32, nret: u32) -> R<Vec<Val>> {
        let one = |v: Val| Ok(vec![v]);
        let z = Val { c: 0, e: 0 };
        let cz = |c: u128| Val { c, e: 0 };
        if let Some(rest) = n.strip_prefix("llvm.") {
            if rest.starts_with("lifetime") || rest.starts_with("experimental.noalias") || rest.starts_with("assume") || rest.starts_with("dbg") || rest.starts_with("prefetch") || rest.starts_with("x86.sse2.pause") || rest.starts_with("donothing") || rest.starts_with("sideeffect") {
                return Ok(vec![]);
            }
            if rest.starts_with("memcpy") || rest.starts_with("memmove") {
                let d = self.conc(a[0])? as u64;
                let s = self.conc(a[1])? as u64;
                let l = self.conc(a[2])? as u64;
                self.copy(d, s, l)?;
                return Ok(vec![]);
            }
            if rest.starts_with("memset") {
                let d = self.conc(a[0])? as u64;
                let l = self.conc(a[2])? as u64;
                for i in 0..l {
                    self.store(d + i, 8, a[1])?
                }
                return Ok(vec![]);
            }
            if rest.starts_with("trap") || rest.starts_with("debugtrap") {
                return Err(Stop::Panic("llvm.trap".into()));
            }
            if rest.starts_with("threadlocal.address") || rest.starts_with("ssa.copy") || rest.starts_with("expect.") || rest.starts_with("launder.") || rest.starts_with("strip.") {
                return one(a[0]);
            }
            if rest.starts_with("is.constant") {
                return one(z);
            }
            let w = w0;
            let base = rest.split('.').next().unwrap();
            let two = rest.split('.').take(3).collect::<Vec<_>>();
            if two.len() >= 3 && two[1] == "with" && two[2] == "overflow" {
                let (x, y) = (a[0], a[1]);
                let (k, sg) = match base {
                    "uadd" => (K::Add, false),
                    "usub" => (K::Sub, false),
                    "umul" => (K::Mul, false),
                    "sadd" => (K::Add, true),
                    "ssub" => (K::Sub, true),
                    "smul" => (K::Mul, true),
                    _ => return Err(Stop::Inconclusive(format!("intrinsic {n}"))),
                };
                let r = self.bin(k, w, x, y);
                if !sg && k == K::Add {
                    let o = self.bin(K::Ult, w, r, x);
                    return Ok(vec![r, o]);
                }
                if !sg && k == K::Sub {
                    let o = self.bin(K::Ult, w, x, y);
                    return Ok(vec![r, o]);
                }
                // constant multiplier: x*c overflows iff x > max/c
                if !sg && k == K::Mul && (x.e == 0 || y.e == 0) && w <= 64 {
                    let (s, c) = if y.e == 0 { (x, y.c) } else { (y, x.c) };
                    if c == 0 {
                        return Ok(vec![z, z]);
                    }
                    let lim = cz(mask(u128::MAX, w) / c);
                    let o = self.bin(K::Ult, w, lim, s);
                    return Ok(vec![r, o]);
                }
                let w2 = if w <= 64 { 2 * w } else { return Err(Stop::Inconclusive("128-bit overflow op".into())) };
                let ck = if sg { Cast::SExt } else { Cast::ZExt };
                let x2 = self.cast(ck, w, w2, x);
                let y2 = self.cast(ck, w, w2, y);
                let r2 = self.bin(k, w2, x2, y2);
                let rr = self.cast(ck, w, w2, r);
                let same = self.bin(K::Eq, w2, r2, rr);
                let o = self.not(same, 1);
                return Ok(vec![r, o]);
            }
            match base {
                "umax" | "umin" | "smax" | "smin" => {
                    if rest.contains(".v") {
                        return Err(Stop::Inconclusive(format!("intrinsic {n}")));
                    }
                    let k = if base.starts_with('u') { K::Ult } else { K::Slt };
                    let c = self.bin(k, w, a[0], a[1]);
                    return one(if base.ends_with("max") { self.ite(c, a[1], a[0], w) } else { self.ite(c, a[0], a[1], w) });
                }
                "abs" => {
                    let c = self.bin(K::Slt, w, a[0], z);
                    let ng = self.bin(K::Sub, w, z, a[0]);
                    return one(self.ite(c, ng, a[0], w));
                }
                "usub" if two.get(1) == Some(&"sat") => {
                    let c = self.bin(K::Ult, w, a[0], a[1]);
                    let d = self.bin(K::Sub, w, a[0], a[1]);
                    return one(self.ite(c, z, d, w));
                }
                "uadd" if two.get(1) == Some(&"sat") => {
                    let s = self.bin(K::Add, w, a[0], a[1]);
                    let c = self.bin(K::Ult, w, s, a[0]);
                    return one(self.ite(c, cz(mask(u128::MAX, w)), s, w));
                }
                "ucmp" | "scmp" => {
                    let k = if base == "ucmp" { K::Ult } else { K::Slt };
                    let lt = self.bin(k, w, a[0], a[1]);
                    let gt = self.bin(k, w, a[1], a[0]);
                    let r = self.ite(gt, cz(1), z, retw);
                    return one(self.ite(lt, cz(mask(u128::MAX, retw)), r, retw));
                }
                "fshl" | "fshr" => {
                    let s = self.conc(a[2])? as u32 % w;
                    let (l, r) = if base == "fshl" { (s, w - s) } else { (w - s, s) };
                    if s == 0 {
                        return one(if base == "fshl" { a[0] } else { a[1] });
                    }
                    let x = self.bin(K::Shl, w, a[0], cz(l as u128));
                    let y = self.bin(K::LShr, w, a[1], cz(r as u128));
                    return one(self.bin(K::Or, w, x, y));
                }
                "ctpop" => return one(self.un(K::Ctpop, w, w, a[0])),
                "ctlz" => return one(self.un(K::Ctlz, w, w, a[0])),
                "cttz" => return one(self.un(K::Cttz, w, w, a[0])),
                "bswap" => {
                    let nb = w / 8;
                    let mut r = z;
                    for i in 0..nb {
                        let s = self.bin(K::LShr, w, a[0], cz((8 * i) as u128));
                        let s = self.bin(K::And, w, s, cz(0xff));
                        let s = self.bin(K::Shl, w, s, cz((8 * (nb - 1 - i)) as u128));
                        r = self.bin(K::Or, w, r, s);
                    }
                    return one(r);
                }
                "is" if rest.starts_with("is.fpclass.f32") || rest.starts_with("is.fpclass.f64") => {
                    let w = if rest.contains("f32") { 32 } else { 64 };
                    let k = self.conc(a[1])?;
                    let x = a[0];
                    let kc = |v32: u32, v64: u64| cz(if w == 32 { v32 as u128 } else { v64 as u128 });
                    let sg = |v: Val| Val { c: v.c | 1u128 << (w - 1), e: 0 };
                    let (sub0, sub1) = (cz(1), kc(0x7f_ffff, 0xf_ffff_ffff_ffff));
                    let (nor0, nor1) = (kc(0x80_0000, 0x10_0000_0000_0000), kc(0x7f7f_ffff, 0x7fef_ffff_ffff_ffff));
                    let inf = kc(0x7f80_0000, 0x7ff0_0000_0000_0000);
                    // classes in numeric order with their bounds; both zeros are one step
                    let line = [
                        (4u128, sg(inf), sg(inf)),
                        (8, sg(nor1), sg(nor0)),
                        (0x10, sg(sub1), sg(sub0)),
                        (0x60, cz(0), cz(0)),
                        (0x80, sub0, sub1),
                        (0x100, nor0, nor1),
                        (0x200, inf, inf),
                    ];
                    let mut r = z;
                    if k & 3 == 3 {
                        r = self.isnan(x, w);
                    } else if k & 3 != 0 {
                        return Err(Stop::Inconclusive(format!("intrinsic {n} (signalling NaN)")));
                    }
                    let mut i = 0;
                    while i < 7 {
                        let (m, lo, mut hi) = line[i];
                        i += 1;
                        if k & m == 0 {
                            continue;
                        }
                        if k & m != m {
                            // one of the zeros
                            let v = if k & 0x20 != 0 { 1u128 << (w - 1) } else { 0 };
                            let t = self.bin(K::Eq, w, x, cz(v));
                            r = self.bin(K::Or, 1, r, t);
                            continue;
                        }
                        while i < 7 && k & line[i].0 == line[i].0 {
                            hi = line[i].2;
                            i += 1;
                        }
                        let t = self.bin(K::FLe, w, lo, x);
                        let t2 = self.bin(K::FLe, w, x, hi);
                        let t = self.bin(K::And, 1, t, t2);
                        r = self.bin(K::Or, 1, r, t);
                    }
                    return one(r);
                }
                "bitreverse" if a[0].e == 0 => return one(cz(a[0].c.reverse_bits() >> (128 - w))),
                "fabs" => return one(self.fabs(a[0], w)),
                "copysign" => {
                    let m = self.fabs(a[0], w);
                    let s = self.bin(K::And, w, a[1], cz(1u128 << (w - 1)));
                    return one(self.bin(K::Or, w, m, s));
                }
                "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                    let c = self.bin(K::FLt, w, a[0], a[1]);
                    let r = if base.starts_with("min") { self.ite(c, a[0], a[1], w) } else { self.ite(c, a[1], a[0], w) };
                    let nb = self.isnan(a[1], w);
                    let r = self.ite(nb, a[0], r, w);
                    let na = self.isnan(a[0], w);
                    return one(self.ite(na, a[1], r, w));
                }
                "minimum" | "maximum" => {
                    let c = self.bin(K::FLt, w, a[0], a[1]);
                    let r = if base == "minimum" { self.ite(c, a[0], a[1], w) } else { self.ite(c, a[1], a[0], w) };
                    let nb = self.isnan(a[1], w);
                    let r = self.ite(nb, a[1], r, w);
                    let na = self.isnan(a[0], w);
                    return one(self.ite(na, a[0], r, w));
                }
                "fptoui" => return one(self.un(K::FPToUI, retw, w, a[0])),
                "fptosi" => return one(self.un(K::FPToSI, retw, w, a[0])),
                "fmuladd" | "fma" => {
                    if base == "fma" && a.iter().any(|v| v.e != 0) {
                        return Err(Stop::Inconclusive("fma on symbolic values".into()));
                    }
                    if a.iter().all(|v| v.e == 0) && base == "fma" {
                        let c = if w == 32 {
                            c32(f32::from_bits(a[0].c as u32).mul_add(f32::from_bits(a[1].c as u32), f32::from_bits(a[2].c as u32)))
                        } else {
                            c64(f64::from_bits(a[0].c as u64).mul_add(f64::from_bits(a[1].c as u64), f64::from_bits(a[2].c as u64)))
                        };
                        return one(cz(c));
                    }
                    let p = self.bin(K::FMul, w, a[0], a[1]);
                    return one(self.bin(K::FAdd, w, p, a[2]));
                }
                "is" => {
                    // llvm.is.fpclass
                    let m = a[1].c as u32;
                    return one(self.fpclass(a[0], w, m));
                }
                "canonicalize" => return one(a[0]),
                "trunc" | "floor" | "ceil" | "round" | "rint" | "nearbyint" | "roundeven" if !rest.contains(".v") => return one(self.round(base, w, a[0])),
                "sadd" | "ssub" if two.get(1) == Some(&"sat") => {
                    let r = self.bin(if base == "sadd" { K::Add } else { K::Sub }, w, a[0], a[1]);
                    let ns = self.bin(K::Slt, w, a[0], z);
                    let lim = self.ite(ns, cz(1u128 << (w - 1)), cz((1u128 << (w - 1)) - 1), w);
                    let below = self.bin(K::Slt, w, r, a[0]);
                    let nb = self.bin(K::Slt, w, a[1], z);
                    let nb = if base == "sadd" { nb } else {
                        // subtracting a positive number makes it smaller
                        self.bin(K::Slt, w, z, a[1])
                    };
                    let o = self.bin(K::Xor, 1, below, nb);
                    return one(self.ite(o, lim, r, w));
                }
                "powi" => {
                    let i = self.conc(a[1])?;
                    let p = sext(i, 32) as i32;
                    let mut r = cz(if w == 32 { c32(1.0) } else { c64(1.0) });
                    let n = p.unsigned_abs();
                    if n > 64 {
                        return Err(Stop::Inconclusive("powi".into()));
                    }
                    for _ in 0..n {
                        r = self.bin(K::FMul, w, r, a[0]);
                    }
                    if p < 0 {
                        let o = cz(if w == 32 { c32(1.0) } else { c64(1.0) });
                        r = self.bin(K::FDiv, w, o, r);
                    }
                    return one(r);
                }
                _ => {}
            }
            if let Some(f) = math::by_intrinsic(base) {
                let r = self.math(f, w, a[0], a.get(1).copied().unwrap_or(z))?;
                return one(r);
            }
            return Err(Stop::Inconclusive(format!("intrinsic {n}")));
        }
        if let Some((f, w)) = math::by_name(n) {
            let r = self.math(f, w, a[0], a.get(1).copied().unwrap_or(z))?;
            return one(r);
        }
        match n {
            "sym_bits" => {
                let (p, l, w) = (a[0].c as u64, a[1].c as u64, a[2].c as u32);
                let nm = self.cstr(p, l)?;
                let (_, v) = self.new_var(w, VarKind::Input(nm), 0);
                one(self.cast(Cast::ZExt, w, 64, v))
            }
            "sym_range" => {
                let (p, l) = (a[0].c as u64, a[1].c as u64);
                let (lo, hi) = (a[2].c, a[3].c);
                let nm = self.cstr(p, l)?;
                if lo == hi {
                    // still an input of the replay file
                    let (id, _) = self.new_var(64, VarKind::Input(nm), lo);
                    self.vals[id as usize] = lo;
                    return one(cz(lo));
                }
                let (_, v) = self.new_var(64, VarKind::Input(nm), lo);
                let c1 = self.bin(K::Ule, 64, cz(lo), v);
                let c2 = self.bin(K::Ule, 64, v, cz(hi));
                let c = self.bin(K::And, 1, c1, c2);
                if c.e != 0 {
                    self.assume(c.e, c.c != 0)?;
                }
                one(v)
            }
            // futex wait: the caller blocks until another thread acts
            "syscall" if a.len() > 2 && a[0].e == 0 && a[0].c as u32 == 202 && a[2].e == 0 && matches!(a[2].c as u32 & 0x7f, 0 | 9) => {
                return Err(if self.may_wait { Stop::Pruned } else { Stop::Panic("waits for a lock nobody else holds".into()) });
            }
            "sym_assume" => {
                let v = self.norm(Val { c: a[0].c & 1, e: a[0].e });
                if v.e == 0 {
                    if v.c == 0 {
                        return Err(Stop::Pruned);
                    }
                } else {
                    let mut e = v.e;
                    if self.cx.w(e) != 1 {
                        e = self.cx.extract(e, 0, 0);
                    }
                    self.assume(e, v.c != 0)?;
                }
                Ok(vec![])
            }
            "sym_assert" => {
                let nm = self.cstr(a[1].c as u64, a[2].c as u64)?;
                let mut v = self.norm(Val { c: a[0].c & 1, e: a[0].e });
                if v.e != 0 && self.cx.w(v.e) != 1 {
                    v.e = self.cx.extract(v.e, 0, 0);
                    v = self.norm(v);
                }
                self.assert_(v, nm)?;
                Ok(vec![])
            }
            "sym_reach" => {
                let nm = self.cstr(a[0].c as u64, a[1].c as u64)?;
                if !self.replaying() {
                    *self.st.reach.entry(nm).or_default() += 1;
                }
                Ok(vec![])
            }
            "sym_require" => {
                let nm = self.cstr(a[0].c as u64, a[1].c as u64)?;
                *self.st.require.entry(nm).or_default() += 1;
                Ok(vec![])
            }
            "sym_observe" => {
                self.obs.push(a[0].c);
                Ok(vec![])
            }
            "sym_concretize" => {
                let c = self.conc(a[0])?;
                one(cz(c))
            }
            "sym_may_wait" => {
                self.may_wait = true;
                Ok(vec![])
            }
            "sym_is_engine" => one(cz(1)),
            "malloc" => {
                let s = self.conc(a[0])? as u64;
                one(cz(self.malloc(s, 16, false) as u128))
            }
            "calloc" => {
                let s = self.conc(a[0])? as u64;
                let k = self.conc(a[1])? as u64;
                match s.checked_mul(k) {
                    Some(t) => one(cz(self.malloc(t, 16, true) as u128)),
                    None => one(z),
                }
            }
            "realloc" => {
                let p = self.conc(a[0])? as u64;
                let s = self.conc(a[1])? as u64;
                if p == 0 {
                    return one(cz(self.malloc(s, 16, false) as u128));
                }
                let old = match self.allocs.get(&p) {
                    Some(&o) => o,
                    None => return Err(Stop::Panic("memory error: realloc of invalid pointer".into())),
                };
                let q = self.malloc(s, 16, false);
                if q != 0 {
                    self.copy(q, p, old.min(s))?;
                    self.free(p)?;
                }
                one(cz(q as u128))
            }
            "posix_memalign" => {
                let p = self.conc(a[0])? as u64;
                let al = self.conc(a[1])? as u64;
                let s = self.conc(a[2])? as u64;
                let q = self.malloc(s, al, false);
                if q == 0 {
                    return one(cz(12));
                }
                self.store(p, 64, cz(q as u128))?;
                one(z)
            }
            "aligned_alloc" => {
                let s = self.conc(a[1])? as u64;
                one(cz(self.malloc(s, a[0].c as u64, false) as u128))
            }
            "free" => {
                let p = self.conc(a[0])? as u64;
                self.free(p)?;
                Ok(vec![])
            }
            "bcmp" | "memcmp" => {
                let p = self.conc(a[0])? as u64;
                let q = self.conc(a[1])? as u64;
                let l = self.conc(a[2])? as u64;
                let mut r = z;
                for i in (0..l).rev() {
                    let (x, y) = (self.load(p + i, 8)?, self.load(q + i, 8)?);
                    let eq = self.bin(K::Eq, 8, x, y);
                    let lt = self.bin(K::Ult, 8, x, y);
                    let d = if n == "bcmp" { cz(1) } else { self.ite(lt, cz(0xffffffff), cz(1), 32) };
                    r = self.ite(eq, r, d, 32);
                }
                one(r)
            }
            "strlen" => {
                let p = self.conc(a[0])? as u64;
                let mut i = 0;
                loop {
                    let c = self.load(p + i, 8)?;
                    let c = self.conc(c)?;
                    if c == 0 {
                        break;
                    }
                    i += 1
                }
                one(cz(i as u128))
            }
            "getenv" => one(z),
            "getrandom" => {
                let p = self.conc(a[0])? as u64;
                let l = self.conc(a[1])? as u64;
                for i in 0..l {
                    self.store(p + i, 8, cz(0x5a))?
                }
                one(cz(l as u128))
            }
            "abort" | "exit" | "_exit" => Err(Stop::Panic(format!("{n}() called"))),
            "__cxa_thread_atexit_impl" => one(z),
            "pthread_self" | "gettid" => one(cz(1)),
            "__errno_location" => {
                let q = self.malloc(8, 16, true);
                one(cz(q as u128))
            }
            _ => {
                let _ = nret;
                Err(Stop::Inconclusive(format!("external function {n}")))
            }
        }
    }
    fn fpclass(&mut self, x: Val, w: u32, m: u32) -> Val {
        let (eb, mb) = if w == 32 { (8, 23) } else { (11, 52) };
        let z = Val { c: 0, e: 0 };
        let cz = |c: u128| Val { c, e: 0 };
        let mag = self.fabs(x, w);
        let infb = cz(mask(u128::MAX, eb) << mb);
        let minn = cz(1u128 << mb);
        let sgn = {
            let s = self.bin(K::LShr, w, x, cz(w as u128 - 1));
            self.cast(Cast::Trunc, w, 1, s)
        };
        let nsgn = self.not(sgn, 1);
        let nan = self.bin(K::Ult, w, infb, mag);
        let inf = self.bin(K::Eq, w, mag, infb);
        let zero = self.bin(K::Eq, w, mag, z);
        let lt_inf = self.bin(K::Ult, w, mag, infb);
        let ge_min = self.bin(K::Ule, w, minn, mag);
        let norm = self.bin(K::And, 1, lt_inf, ge_min);
        let nz = self.not(zero, 1);
        let lt_min = self.bin(K::Ult, w, mag, minn);
        let sub = self.bin(K::And, 1, nz, lt_min);
        let mut r = z;
        // bits: 0 snan 1 qnan 2 ninf 3 nnorm 4 nsub 5 nzero 6 pzero 7 psub 8 pnorm 9 pinf
        if m & 3 != 0 {
            r = self.bin(K::Or, 1, r, nan);
        }
        for (bit, cls, neg) in [(2, inf, true), (3, norm, true), (4, sub, true), (5, zero, true), (6, zero, false), (7, sub, false), (8, norm, false), (9, inf, false)] {
            if m >> bit & 1 != 0 {
                let s = if neg { sgn } else { nsgn };
                let t = self.bin(K::And, 1, cls, s);
                r = self.bin(K::Or, 1, r, t);
            }
        }
        r
    }
}
enum Q {
    Sat(Vec<u128>, bool),
    Unsat,
    Unknown,
}
