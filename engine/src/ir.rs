//! Text LLVM-IR reader: splits a module, lays out globals, compiles functions lazily.
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

pub type Ty = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Void,
    I(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, Ty),
    St(Vec<Ty>, bool),
    V(u64, Ty),
    Unk(String),
}

#[derive(Default)]
pub struct Types {
    pub v: Vec<T>,
    map: HashMap<T, Ty>,
    named: HashMap<String, Ty>,
}
impl Types {
    pub fn get(&mut self, t: T) -> Ty {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let i = self.v.len() as Ty;
        self.v.push(t.clone());
        self.map.insert(t, i);
        i
    }
    pub fn size_align(&self, t: Ty) -> (u64, u64) {
        match &self.v[t as usize] {
            T::Void | T::Unk(_) => (0, 1),
            T::I(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                ((b + a - 1) / a * a, a)
            }
            T::F32 => (4, 4),
            T::F64 | T::Ptr => (8, 8),
            T::Arr(n, e) => {
                let (s, a) = self.size_align(*e);
                (s * n, a)
            }
            T::St(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for &x in f {
                    let (s, a) = self.size_align(x);
                    let a = if *packed { 1 } else { a };
                    o = (o + a - 1) / a * a + s;
                    al = al.max(a);
                }
                ((o + al - 1) / al * al, al)
            }
            T::V(n, e) => {
                let w = self.scalar_w(*e) as u64 * n;
                let b = (w + 7) / 8;
                let a = b.next_power_of_two();
                (a, a)
            }
        }
    }
    pub fn scalar_w(&self, t: Ty) -> u32 {
        match &self.v[t as usize] {
            T::I(w) => *w,
            T::F32 => 32,
            T::F64 | T::Ptr => 64,
            T::V(n, e) => self.scalar_w(*e) * *n as u32,
            _ => 0,
        }
    }
    pub fn field_off(&self, t: Ty, i: u64) -> (u64, Ty) {
        match &self.v[t as usize] {
            T::Arr(_, e) => (self.size_align(*e).0 * i, *e),
            T::V(_, e) => ((self.scalar_w(*e) as u64 / 8) * i, *e),
            T::St(f, packed) => {
                let mut o = 0;
                for (k, &x) in f.iter().enumerate() {
                    let (s, a) = self.size_align(x);
                    let a = if *packed { 1 } else { a };
                    o = (o + a - 1) / a * a;
                    if k as u64 == i {
                        return (o, x);
                    }
                    o += s;
                }
                panic!("field index")
            }
            x => panic!("field_off of {x:?}"),
        }
    }
    /// (byte offset, bit width) of every scalar leaf
    pub fn leaves(&self, t: Ty) -> Vec<(u64, u32)> {
        let mut o = vec![];
        self.leaves_into(t, 0, &mut o);
        o
    }
    fn leaves_into(&self, t: Ty, off: u64, out: &mut Vec<(u64, u32)>) {
        match &self.v[t as usize] {
            T::Void | T::Unk(_) => {}
            T::Arr(n, e) => {
                for i in 0..*n {
                    let (o, _) = self.field_off(t, i);
                    self.leaves_into(*e, off + o, out)
                }
            }
            T::St(f, _) => {
                for i in 0..f.len() {
                    let (o, e) = self.field_off(t, i as u64);
                    self.leaves_into(e, off + o, out)
                }
            }
            _ => out.push((off, self.scalar_w(t))),
        }
    }
    pub fn nleaves(&self, t: Ty) -> usize {
        match &self.v[t as usize] {
            T::Void | T::Unk(_) => 0,
            T::Arr(n, e) => *n as usize * self.nleaves(*e),
            T::St(f, _) => f.iter().map(|&x| self.nleaves(x)).sum(),
            _ => 1,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Global(String),
    Word(String),
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(char),
    Meta,
    Attr,
    Nl,
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if i + 1 < b.len() && b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3
        } else {
            o.push(b[i]);
            i += 1
        }
    }
    o
}

pub fn tokenize(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b'\n' => {
                out.push(Tok::Nl);
                i += 1
            }
            b' ' | b'\t' | b'\r' => i += 1,
            b'/' if b.get(i + 1) == Some(&b'*') => {
                while i + 1 < b.len() && !(b[i] == b'*' && b[i + 1] == b'/') {
                    i += 1
                }
                i += 2
            }
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let (name, ni) = if b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1
                    }
                    (String::from_utf8_lossy(&unescape(&b[i + 2..j])).to_string(), j + 1)
                } else {
                    let mut j = i + 1;
                    while j < b.len() && idc(b[j]) {
                        j += 1
                    }
                    (s[i + 1..j].to_string(), j)
                };
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
                i = ni
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1
                }
                let st = unescape(&b[i + 1..j]);
                i = j + 1;
                // label "foo": ?
                out.push(Tok::Str(st));
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(Tok::CStr(unescape(&b[i + 2..j])));
                i = j + 1
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && (idc(b[j])) {
                    j += 1
                }
                out.push(Tok::Meta);
                i = j
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1
                }
                out.push(Tok::Attr);
                i = j
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let mut j = i + 1;
                while j < b.len() && (idc(b[j]) || b[j] == b'+') {
                    j += 1
                }
                out.push(Tok::Num(s[i..j].to_string()));
                i = j
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1
                }
                out.push(Tok::Word(s[i..j].to_string()));
                i = j
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1
            }
        }
    }
    out
}

#[derive(Clone, Debug)]
pub enum Cst {
    V(u128),
    G(String, i64),
    Agg(Vec<Cst>),
    Bytes(Vec<u8>),
    Zero,
}

pub struct P<'a> {
    pub t: &'a [Tok],
    pub i: usize,
    pub tys: &'a mut Types,
}

impl<'a> P<'a> {
    pub fn peek(&self) -> &Tok {
        self.t.get(self.i).unwrap_or(&Tok::Nl)
    }
    pub fn next(&mut self) -> Tok {
        let r = self.peek().clone();
        self.i += 1;
        r
    }
    pub fn eat(&mut self, c: char) -> bool {
        if *self.peek() == Tok::P(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {c:?} got {:?} near {:?}", self.peek(), &self.t[self.i.saturating_sub(12)..(self.i + 5).min(self.t.len())])
        }
    }
    pub fn word(&mut self, w: &str) -> bool {
        if matches!(self.peek(), Tok::Word(x) if x==w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn is_type_start(&self) -> bool {
        match self.peek() {
            Tok::Word(w) => {
                matches!(w.as_str(), "float" | "double" | "ptr" | "void" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128" | "bfloat")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P('[') | Tok::P('{') | Tok::P('<') => true,
            Tok::Local(_) => true,
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => self.tys.get(T::Void),
                "float" => self.tys.get(T::F32),
                "double" => self.tys.get(T::F64),
                "ptr" => {
                    if self.word("addrspace") {
                        self.skip_parens();
                    }
                    self.tys.get(T::Ptr)
                }
                x if x.starts_with('i') && x[1..].parse::<u32>().is_ok() => {
                    let w = x[1..].parse().unwrap();
                    self.tys.get(T::I(w))
                }
                x => self.tys.get(T::Unk(x.to_string())),
            },
            Tok::P('[') => {
                let n = self.num() as u64;
                self.word("x");
                let e = self.ty();
                self.expect(']');
                self.tys.get(T::Arr(n, e))
            }
            Tok::P('{') => {
                let f = self.ty_list('}');
                self.tys.get(T::St(f, false))
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let f = self.ty_list('}');
                    self.expect('>');
                    self.tys.get(T::St(f, true))
                } else {
                    let n = self.num() as u64;
                    self.word("x");
                    let e = self.ty();
                    self.expect('>');
                    self.tys.get(T::V(n, e))
                }
            }
            Tok::Local(n) => match self.tys.named.get(&n) {
                Some(&t) => t,
                None => self.tys.get(T::Unk(n)),
            },
            x => panic!("type? {x:?} near {:?}", &self.t[self.i.saturating_sub(12)..(self.i + 5).min(self.t.len())]),
        }
    }
    fn ty_list(&mut self, end: char) -> Vec<Ty> {
        let mut f = vec![];
        if self.eat(end) {
            return f;
        }
        loop {
            f.push(self.ty());
            if self.eat(end) {
                return f;
            }
            self.expect(',')
        }
    }
    pub fn num(&mut self) -> i128 {
        match self.next() {
            Tok::Num(s) => s.parse().unwrap(),
            x => panic!("num? {x:?}"),
        }
    }
    pub fn skip_parens(&mut self) {
        if self.eat('(') {
            let mut d = 1;
            while d > 0 {
                match self.next() {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => d -= 1,
                    _ => {}
                }
            }
        }
    }
    pub fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::Word(w) if w == "align" => {
                    self.i += 1;
                    if !matches!(self.peek(), Tok::P('(')) {
                        self.i += 1;
                    } else {
                        self.skip_parens()
                    }
                }
                Tok::Word(w)
                    if !self.is_type_start()
                        && !matches!(
                            w.as_str(),
                            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "asm" | "splat" | "none" | "trunc" | "sub" | "add" | "bitcast" | "f0x" | "xor" | "mul" | "and" | "to"
                        )
                        && !w.starts_with("0x")
                        && !w.starts_with("f0x") =>
                {
                    self.i += 1;
                    if matches!(self.peek(), Tok::P('(')) {
                        self.skip_parens()
                    }
                }
                Tok::Str(_) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1
                    }
                }
                Tok::Attr => self.i += 1,
                _ => break,
            }
        }
    }
    pub fn skip_line(&mut self) {
        while *self.peek() != Tok::Nl && self.i < self.t.len() {
            self.i += 1
        }
    }
    fn parse_num_as(&mut self, s: &str, ty: Ty) -> u128 {
        match &self.tys.v[ty as usize] {
            T::F32 => parse_fp(s, true),
            T::F64 => parse_fp(s, false),
            T::I(w) => {
                let v: i128 = s.parse::<i128>().unwrap_or_else(|_| s.parse::<u128>().unwrap() as i128);
                mask(v as u128, *w)
            }
            x => panic!("num as {x:?}"),
        }
    }
    /// constant of type ty
    pub fn cst(&mut self, ty: Ty) -> Cst {
        match self.next() {
            Tok::Num(s) => Cst::V(self.parse_num_as(&s, ty)),
            Tok::Global(g) => Cst::G(g, 0),
            Tok::CStr(b) => Cst::Bytes(b),
            Tok::P('[') => self.agg(']'),
            Tok::P('{') => self.agg('}'),
            Tok::P('<') => {
                if self.eat('{') {
                    let r = self.agg('}');
                    self.expect('>');
                    r
                } else {
                    let r = self.agg('>');
                    self.pack_vec(ty, r)
                }
            }
            Tok::Word(w) => match w.as_str() {
                "true" => Cst::V(1),
                "false" | "none" => Cst::V(0),
                "null" => Cst::V(0),
                "undef" | "poison" | "zeroinitializer" => {
                    if self.tys.nleaves(ty) == 1 && !matches!(self.tys.v[ty as usize], T::Arr(..) | T::St(..)) {
                        Cst::V(0)
                    } else {
                        Cst::Zero
                    }
                }
                "splat" => {
                    self.expect('(');
                    let t = self.ty();
                    let c = self.cst(t);
                    self.expect(')');
                    let n = match self.tys.v[ty as usize] {
                        T::V(n, _) => n,
                        _ => panic!(),
                    };
                    self.pack_vec(ty, Cst::Agg(vec![c; n as usize]))
                }
                "getelementptr" => {
                    while matches!(self.peek(), Tok::Word(_)) {
                        self.i += 1;
                        self.skip_parens_if_attr();
                    }
                    self.expect('(');
                    let st = self.ty();
                    self.expect(',');
                    let bt = self.ty();
                    let base = self.cst(bt);
                    let mut off: i64 = 0;
                    let mut cur = st;
                    let mut first = true;
                    while self.eat(',') {
                        self.word("inrange");
                        let it = self.ty();
                        let v = match self.cst(it) {
                            Cst::V(v) => sext(v, self.tys.scalar_w(it)) as i64,
                            _ => panic!("gep const idx"),
                        };
                        if first {
                            off += self.tys.size_align(cur).0 as i64 * v;
                            first = false;
                        } else {
                            let (o, t) = self.tys.field_off(cur, v as u64);
                            off += o as i64;
                            cur = t;
                        }
                    }
                    self.expect(')');
                    add_off(base, off)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" => {
                    self.expect('(');
                    let t = self.ty();
                    let c = self.cst(t);
                    assert!(self.word("to"));
                    let t2 = self.ty();
                    self.expect(')');
                    match c {
                        Cst::V(v) => Cst::V(mask(v, self.tys.scalar_w(t2))),
                        c => c,
                    }
                }
                "add" | "sub" => {
                    while matches!(self.peek(), Tok::Word(_)) {
                        self.i += 1;
                    }
                    self.expect('(');
                    let t = self.ty();
                    let a = self.cst(t);
                    self.expect(',');
                    let t = self.ty();
                    let b = self.cst(t);
                    self.expect(')');
                    match (a, b) {
                        (a, Cst::V(b)) => add_off(a, if w == "add" { b as i64 } else { -(b as i64) }),
                        (a, b) => panic!("const expr {a:?} {b:?}"),
                    }
                }
                "f0x" => panic!("f0x"),
                x if x.starts_with("f0x") || x.starts_with("0x") => Cst::V(self.parse_num_as(x, ty)),
                x => panic!("const {x} near {:?}", &self.t[self.i.saturating_sub(12)..(self.i + 5).min(self.t.len())]),
            },
            x => panic!("const? {x:?} near {:?}", &self.t[self.i.saturating_sub(12)..(self.i + 5).min(self.t.len())]),
        }
    }
    fn skip_parens_if_attr(&mut self) {
        // inrange(-16, 8)
        if matches!(self.t.get(self.i.wrapping_sub(1)), Some(Tok::Word(w)) if w=="inrange") {
            self.skip_parens()
        }
    }
    fn pack_vec(&mut self, ty: Ty, c: Cst) -> Cst {
        let ew = match &self.tys.v[ty as usize] {
            T::V(_, e) => self.tys.scalar_w(*e),
            _ => panic!(),
        };
        match c {
            Cst::Agg(v) => {
                let mut r = 0u128;
                for (i, x) in v.iter().enumerate() {
                    match x {
                        Cst::V(x) => {
                            if (i as u32 * ew) < 128 {
                                r |= x << (i as u32 * ew)
                            }
                        }
                        _ => {}
                    }
                }
                Cst::V(r)
            }
            c => c,
        }
    }
    fn agg(&mut self, end: char) -> Cst {
        let mut v = vec![];
        if self.eat(end) {
            return Cst::Agg(v);
        }
        loop {
            let t = self.ty();
            v.push(self.cst(t));
            if self.eat(end) {
                return Cst::Agg(v);
            }
            self.expect(',')
        }
    }
}

fn add_off(c: Cst, o: i64) -> Cst {
    match c {
        Cst::V(v) => Cst::V((v as u64).wrapping_add(o as u64) as u128),
        Cst::G(g, x) => Cst::G(g, x + o),
        c => panic!("add_off {c:?}"),
    }
}
pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w == 0 || w >= 128 {
        return v as i128;
    }
    ((v << (128 - w)) as i128) >> (128 - w)
}
fn parse_fp(s: &str, f32_: bool) -> u128 {
    if let Some(h) = s.strip_prefix("f0x") {
        return u128::from_str_radix(h, 16).unwrap();
    }
    let d = if let Some(h) = s.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
    } else {
        match s {
            "+inf" | "inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            "+qnan" | "-qnan" | "nan" => f64::NAN,
            _ => s.parse::<f64>().unwrap(),
        }
    };
    if f32_ {
        (d as f32).to_bits() as u128
    } else {
        d.to_bits() as u128
    }
}

// ---------------------------------------------------------------- compiled form
#[derive(Clone, Debug)]
pub enum Op {
    S(u32),
    C(u128),
    A(Arc<Vec<u128>>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FB {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    FPTrunc,
    FPExt,
    UIToFP,
    SIToFP,
    FPToUI,
    FPToSI,
    Copy,
}
#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    Ext(String),
    Ind(Op),
    Nop,
}
#[derive(Clone, Debug)]
pub enum I {
    Bin(B, u32, u32, Op, Op),            // op,width,dst
    VBin(B, u32, u32, u32, Op, Op),      // op,n,elemw,dst
    ICmp(Pred, u32, u32, Op, Op),        // pred,width,dst
    VICmp(Pred, u32, u32, u32, Op, Op),  // pred,n,ew,dst
    FCmp(String, u32, u32, Op, Op),      // pred,width,dst
    FBin(FB, u32, u32, Op, Op),
    FNeg(u32, u32, Op),
    Cast(Cast, u32, u32, u32, Op), // from,to,dst
    VCast(Cast, u32, u32, u32, u32, Op), // n,from,to,dst
    Select(u32, u32, Op, Op, Op, Vec<u32>), // nleaves,dst, cond,a,b, widths
    VSelect(u32, u32, u32, Op, Op, Op),  // n,ew,dst
    Load(u32, Arc<Vec<(u64, u32)>>, Op),
    Store(Arc<Vec<(u64, u32)>>, Op, Op), // leaves, val, ptr
    Gep(u32, Op, i64, Vec<(Op, u32, i64)>),
    Alloca(u32, u64, u64, Op),
    Call { dst: u32, nret: u32, retw: u32, callee: Callee, args: Vec<(Op, u32, u32)>, normal: Option<u32> }, // arg: (op, nleaves, width of first)
    Copy(u32, Op, u32),               // dst, src, n
    Extract(u32, Op, u32, u32),       // dst, src, first, n
    Insert(u32, Op, u32, Op, u32, u32), // dst, agg, nagg, val, first, n
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u32, u32, Vec<(u128, u32)>), // val,width,default,cases
    Ret(Option<(Op, u32)>),
    Unreachable,
    Rmw(String, u32, u32, Op, Op), // op,width,dst,ptr,val
    CmpXchg(u32, u32, Op, Op, Op), // width,dst,ptr,cmp,new
    ExtractElt(u32, u32, Op, Op),         // ew,dst
    InsertElt(u32, u32, Op, Op, Op),      // ew,dst,vec,val,idx
    Shuffle(u32, u32, u32, Op, Op, Vec<u32>), // n_in, ew,dst
    Bad(String),
    Nop,
}
pub struct Phi {
    pub dst: u32,
    pub n: u32,
    pub inc: Vec<(u32, Op)>,
}
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<I>,
    pub line: u32,
}
pub struct Func {
    pub id: u32,
    pub name: String,
    pub nslots: u32,
    pub args: Vec<(u32, u32)>, // slot, nleaves
    pub blocks: Vec<Block>,
    pub ninstr: usize,
}
pub struct FnDef {
    pub name: String,
    pub head: usize,
    pub end: usize,
    pub comp: OnceLock<Arc<Func>>,
}
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub constant: bool,
    pub align: u64,
    pub addr: u64,
    pub size: u64,
}
pub struct Module {
    pub text: String,
    pub lines: Vec<(usize, usize)>,
    pub fns: Vec<FnDef>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub addr: HashMap<String, u64>,
    pub tys: Mutex<Types>,
    pub ext: Vec<String>,
    pub globals_end: u64,
}
pub const FN_BASE: u64 = 0x10_0000;
pub const EXT_BASE: u64 = 0x40_0000;
pub const GLOB_BASE: u64 = 0x100_0000;

impl Module {
    fn line(&self, i: usize) -> &str {
        let (a, b) = self.lines[i];
        &self.text[a..b]
    }
    pub fn parse(text: String) -> Module {
        let mut lines = vec![];
        let mut st = 0;
        for (i, c) in text.bytes().enumerate() {
            if c == b'\n' {
                lines.push((st, i));
                st = i + 1;
            }
        }
        let mut m = Module {
            text,
            lines,
            fns: vec![],
            fn_by_name: HashMap::new(),
            globals: vec![],
            addr: HashMap::new(),
            tys: Mutex::new(Types::default()),
            ext: vec![],
            globals_end: 0,
        };
        let mut tys = Types::default();
        let mut i = 0;
        let mut globs = vec![];
        while i < m.lines.len() {
            let l = m.line(i);
            if l.starts_with("define ") {
                let toks = tokenize(l);
                let name = toks
                    .iter()
                    .find_map(|t| if let Tok::Global(g) = t { Some(g.clone()) } else { None })
                    .unwrap();
                let mut j = i + 1;
                while m.line(j) != "}" {
                    j += 1
                }
                let id = m.fns.len() as u32;
                m.fn_by_name.insert(name.clone(), id);
                m.addr.insert(name.clone(), FN_BASE + id as u64 * 16);
                m.fns.push(FnDef { name, head: i, end: j, comp: OnceLock::new() });
                i = j;
            } else if l.starts_with("declare ") {
                let toks = tokenize(l);
                let name = toks
                    .iter()
                    .find_map(|t| if let Tok::Global(g) = t { Some(g.clone()) } else { None })
                    .unwrap();
                m.addr.insert(name.clone(), EXT_BASE + m.ext.len() as u64 * 16);
                m.ext.push(name);
            } else if l.starts_with('@') {
                globs.push(i)
            } else if l.starts_with('%') {
                let toks = tokenize(l);
                let mut p = P { t: &toks, i: 0, tys: &mut tys };
                if let Tok::Local(n) = p.next() {
                    p.expect('=');
                    p.word("type");
                    if p.word("opaque") {
                    } else {
                        let t = p.ty();
                        p.tys.named.insert(n, t);
                    }
                }
            }
            i += 1;
        }
        for gi in globs {
            let toks = tokenize(m.line(gi));
            let mut p = P { t: &toks, i: 0, tys: &mut tys };
            let name = match p.next() {
                Tok::Global(g) => g,
                _ => continue,
            };
            p.expect('=');
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            loop {
                match p.peek().clone() {
                    Tok::Word(w) => {
                        match w.as_str() {
                            "constant" => {
                                constant = true;
                                p.i += 1;
                                break;
                            }
                            "global" => {
                                p.i += 1;
                                break;
                            }
                            "alias" => {
                                alias = true;
                                p.i += 1;
                                break;
                            }
                            "external" | "extern_weak" => external = true,
                            _ => {}
                        }
                        p.i += 1;
                        p.skip_parens();
                    }
                    _ => break,
                }
            }
            if alias {
                eprintln!("alias unsupported: {name}");
                continue;
            }
            let ty = p.ty();
            let init = if external { None } else { Some(p.cst(ty)) };
            let mut align = 0;
            while p.i < toks.len() {
                if p.word("align") {
                    align = p.num() as u64;
                } else {
                    p.i += 1
                }
            }
            let (size, a) = p.tys.size_align(ty);
            m.globals.push(Global { name, ty, init, constant, align: align.max(a), addr: 0, size });
        }
        let mut a = GLOB_BASE;
        for g in m.globals.iter_mut() {
            let al = g.align.max(8);
            a = (a + al - 1) / al * al;
            g.addr = a;
            a += g.size.max(1) + 16;
            m.addr.insert(g.name.clone(), g.addr);
        }
        m.globals_end = a;
        m.tys = Mutex::new(tys);
        m
    }
    pub fn sym_addr(&self, name: &str) -> u64 {
        *self.addr.get(name).unwrap_or_else(|| panic!("no symbol {name}"))
    }
    /// write initial bytes of all globals via callback(addr, bytes, constant)
    pub fn init_globals(&self, f: &mut dyn FnMut(u64, &[u8], bool)) {
        let tys = self.tys.lock().unwrap_or_else(|e| e.into_inner());
        for g in &self.globals {
            let mut buf = vec![0u8; g.size as usize];
            if let Some(c) = &g.init {
                self.write_cst(&tys, c, g.ty, &mut buf, 0);
            }
            f(g.addr, &buf, g.constant);
        }
    }
    fn write_cst(&self, tys: &Types, c: &Cst, ty: Ty, buf: &mut [u8], off: usize) {
        match c {
            Cst::Zero => {}
            Cst::V(v) => {
                let n = ((tys.scalar_w(ty) + 7) / 8) as usize;
                buf[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            Cst::Bytes(b) => buf[off..off + b.len()].copy_from_slice(b),
            Cst::G(g, o) => {
                let v = self.sym_addr(g).wrapping_add(*o as u64);
                buf[off..off + 8].copy_from_slice(&v.to_le_bytes());
            }
            Cst::Agg(v) => {
                for (i, x) in v.iter().enumerate() {
                    let (o, t) = tys.field_off(ty, i as u64);
                    self.write_cst(tys, x, t, buf, off + o as usize)
                }
            }
        }
    }
    pub fn func(&self, id: u32) -> Arc<Func> {
        self.fns[id as usize].comp.get_or_init(|| Arc::new(self.compile(id))).clone()
    }
    pub fn ext_name(&self, addr: u64) -> Option<&str> {
        if addr >= EXT_BASE && addr < EXT_BASE + self.ext.len() as u64 * 16 {
            return Some(&self.ext[((addr - EXT_BASE) / 16) as usize]);
        }
        None
    }
    pub fn fn_at(&self, addr: u64) -> Option<u32> {
        if addr >= FN_BASE && addr < FN_BASE + self.fns.len() as u64 * 16 && addr % 16 == 0 {
            return Some(((addr - FN_BASE) / 16) as u32);
        }
        None
    }

    fn cst_leaves(&self, tys: &Types, c: &Cst, ty: Ty, out: &mut Vec<u128>) {
        match c {
            Cst::Zero => out.extend(std::iter::repeat(0).take(tys.nleaves(ty))),
            Cst::V(v) => out.push(*v),
            Cst::G(g, o) => out.push(self.sym_addr(g).wrapping_add(*o as u64) as u128),
            Cst::Bytes(b) => out.extend(b.iter().map(|&x| x as u128)),
            Cst::Agg(v) => {
                for (i, x) in v.iter().enumerate() {
                    let t = match &tys.v[ty as usize] {
                        T::Arr(_, e) => *e,
                        T::St(f, _) => f[i],
                        _ => panic!(),
                    };
                    self.cst_leaves(tys, x, t, out)
                }
            }
        }
    }

    fn compile(&self, id: u32) -> Func {
        let d = &self.fns[id as usize];
        let mut guard = self.tys.lock().unwrap_or_else(|e| e.into_inner());
        let head = tokenize(self.line(d.head));
        let (a, _) = self.lines[d.head + 1];
        let (_, b) = self.lines[d.end - 1];
        let body = tokenize(&self.text[a..b + 1]);
        let mut c = C { m: self, slots: HashMap::new(), nslots: 0, labels: HashMap::new() };
        // header args
        let mut args = vec![];
        {
            let mut p = P { t: &head, i: 0, tys: &mut guard };
            while !matches!(p.peek(), Tok::Global(_)) {
                p.i += 1
            }
            p.i += 1;
            p.expect('(');
            let mut n = 0;
            if !p.eat(')') {
                loop {
                    if p.eat('.') || matches!(p.peek(), Tok::Word(w) if w.starts_with("...")) {
                        p.i += 1;
                        break;
                    }
                    let t = p.ty();
                    p.skip_attrs();
                    let name = match p.peek().clone() {
                        Tok::Local(n) => {
                            p.i += 1;
                            n
                        }
                        _ => {
                            let s = n.to_string();
                            s
                        }
                    };
                    n += 1;
                    let nl = p.tys.nleaves(t) as u32;
                    let s = c.slot(&name, nl);
                    args.push((s, nl));
                    if p.eat(')') {
                        break;
                    }
                    p.expect(',');
                }
            }
        }
        let mut blocks: Vec<Block> = vec![];
        // pass 1: labels
        let mut p = P { t: &body, i: 0, tys: &mut guard };
        let mut bounds: Vec<(usize, usize)> = vec![];
        {
            let mut i = 0;
            let mut start = 0;
            let mut line_start = true;
            let nargs = args.len();
            let mut first = true;
            let mut names: Vec<Option<String>> = vec![None];
            while i < body.len() {
                if line_start {
                    let lab = match (&body[i], body.get(i + 1)) {
                        (Tok::Word(w), Some(Tok::P(':'))) => Some(w.clone()),
                        (Tok::Num(w), Some(Tok::P(':'))) => Some(w.clone()),
                        (Tok::Str(s), Some(Tok::P(':'))) => Some(String::from_utf8_lossy(s).to_string()),
                        _ => None,
                    };
                    if let Some(l) = lab {
                        if first {
                            // entry label (or leading)
                            names[0] = Some(l);
                            first = false;
                            i += 2;
                            start = i;
                            line_start = false;
                            continue;
                        }
                        bounds.push((start, i));
                        names.push(Some(l));
                        i += 2;
                        start = i;
                        line_start = false;
                        continue;
                    }
                }
                if body[i] == Tok::Nl {
                    line_start = true;
                } else {
                    line_start = false;
                    first = false;
                }
                i += 1;
            }
            bounds.push((start, body.len()));
            for (k, n) in names.iter().enumerate() {
                let n = n.clone().unwrap_or_else(|| nargs.to_string());
                c.labels.insert(n, k as u32);
            }
        }
        let mut ninstr = 0;
        for (s, e) in bounds {
            let mut blk = Block { phis: vec![], ins: vec![], line: 0 };
            p.i = s;
            let mut pp = P { t: &body[..e], i: s, tys: p.tys };
            while pp.i < e {
                if *pp.peek() == Tok::Nl {
                    pp.i += 1;
                    continue;
                }
                let st = pp.i;
                // an instruction this reader does not know ends the paths that reach it, and no others
                let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.instr(&mut pp, &mut blk))).is_ok();
                ninstr += 1;
                if !ok || pp.i == st {
                    pp.i = st;
                    let txt: Vec<String> = body[st..e].iter().take_while(|t| **t != Tok::Nl).take(12).map(|t| format!("{t:?}")).collect();
                    blk.ins.push(I::Bad(format!("instruction not understood: {}", txt.join(" "))));
                }
                // to end of line
                pp.skip_line();
            }
            p.tys = pp.tys;
            blocks.push(blk);
        }
        Func { id, name: d.name.clone(), nslots: c.nslots, args, blocks, ninstr }
    }
}

struct C<'m> {
    m: &'m Module,
    slots: HashMap<String, (u32, u32)>,
    nslots: u32,
    labels: HashMap<String, u32>,
}
impl<'m> C<'m> {
    fn slot(&mut self, name: &str, n: u32) -> u32 {
        if let Some(&(s, k)) = self.slots.get(name) {
            assert_eq!(k, n, "slot size mismatch {name}");
            return s;
        }
        let s = self.nslots;
        self.nslots += n;
        self.slots.insert(name.to_string(), (s, n));
        s
    }
    fn val(&mut self, p: &mut P, ty: Ty) -> Op {
        if let Tok::Local(n) = p.peek().clone() {
            p.i += 1;
            let k = p.tys.nleaves(ty) as u32;
            return Op::S(self.slot(&n, k));
        }
        let c = p.cst(ty);
        let mut v = vec![];
        self.m.cst_leaves(p.tys, &c, ty, &mut v);
        if v.len() == 1 {
            Op::C(v[0])
        } else {
            Op::A(Arc::new(v))
        }
    }
    fn tv(&mut self, p: &mut P) -> (Ty, Op) {
        let t = p.ty();
        p.skip_attrs();
        let v = self.val(p, t);
        (t, v)
    }
    fn label(&mut self, p: &mut P) -> u32 {
        p.word("label");
        match p.next() {
            Tok::Local(n) => *self.labels.get(&n).unwrap_or_else(|| panic!("label {n}")),
            x => panic!("label? {x:?}"),
        }
    }
    fn vecinfo(p: &P, t: Ty) -> Option<(u32, u32)> {
        match &p.tys.v[t as usize] {
            T::V(n, e) => Some((*n as u32, p.tys.scalar_w(*e))),
            _ => None,
        }
    }
    fn instr(&mut self, p: &mut P, blk: &mut Block) {
        let mut name = None;
        if let Tok::Local(n) = p.peek().clone() {
            p.i += 1;
            p.expect('=');
            name = Some(n);
        }
        let mut op = match p.next() {
            Tok::Word(w) => w,
            x => panic!("instr? {x:?}"),
        };
        if op == "tail" || op == "musttail" || op == "notail" {
            p.word("call");
            op = "call".into();
        }
        let nm = name.unwrap_or_default();
        let ins = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while matches!(p.peek(), Tok::Word(w) if matches!(w.as_str(),"nuw"|"nsw"|"exact"|"disjoint")) {
                    p.i += 1
                }
                let t = p.ty();
                let a = self.val(p, t);
                p.expect(',');
                let b = self.val(p, t);
                let o = match op.as_str() {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "mul" => B::Mul,
                    "udiv" => B::UDiv,
                    "sdiv" => B::SDiv,
                    "urem" => B::URem,
                    "srem" => B::SRem,
                    "shl" => B::Shl,
                    "lshr" => B::LShr,
                    "ashr" => B::AShr,
                    "and" => B::And,
                    "or" => B::Or,
                    _ => B::Xor,
                };
                let d = self.slot(&nm, 1);
                match Self::vecinfo(p, t) {
                    Some((n, w)) => I::VBin(o, n, w, d, a, b),
                    None => I::Bin(o, p.tys.scalar_w(t), d, a, b),
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while matches!(p.peek(), Tok::Word(_)) && !p.is_type_start() {
                    p.i += 1
                }
                let t = p.ty();
                let a = self.val(p, t);
                p.expect(',');
                let b = self.val(p, t);
                let o = match op.as_str() {
                    "fadd" => FB::Add,
                    "fsub" => FB::Sub,
                    "fmul" => FB::Mul,
                    "fdiv" => FB::Div,
                    _ => FB::Rem,
                };
                let d = self.slot(&nm, 1);
                if Self::vecinfo(p, t).is_some() {
                    I::Bad("vector fp".into())
                } else {
                    I::FBin(o, p.tys.scalar_w(t), d, a, b)
                }
            }
            "fneg" => {
                while matches!(p.peek(), Tok::Word(_)) && !p.is_type_start() {
                    p.i += 1
                }
                let t = p.ty();
                let a = self.val(p, t);
                let d = self.slot(&nm, 1);
                I::FNeg(p.tys.scalar_w(t), d, a)
            }
            "icmp" => {
                p.word("samesign");
                let pr = match p.next() {
                    Tok::Word(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        x => panic!("{x}"),
                    },
                    _ => panic!(),
                };
                let t = p.ty();
                let a = self.val(p, t);
                p.expect(',');
                let b = self.val(p, t);
                let d = self.slot(&nm, 1);
                match Self::vecinfo(p, t) {
                    Some((n, w)) => I::VICmp(pr, n, w, d, a, b),
                    None => I::ICmp(pr, p.tys.scalar_w(t), d, a, b),
                }
            }
            "fcmp" => {
                let mut pr = String::new();
                while matches!(p.peek(), Tok::Word(_)) && !p.is_type_start() {
                    if let Tok::Word(w) = p.next() {
                        pr = w;
                    }
                }
                let t = p.ty();
                let a = self.val(p, t);
                p.expect(',');
                let b = self.val(p, t);
                let d = self.slot(&nm, 1);
                if Self::vecinfo(p, t).is_some() {
                    I::Bad("vector fcmp".into())
                } else {
                    I::FCmp(pr, p.tys.scalar_w(t), d, a, b)
                }
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                while matches!(p.peek(), Tok::Word(_)) && !p.is_type_start() {
                    p.i += 1
                }
                let (t, a) = self.tv(p);
                assert!(p.word("to"));
                let t2 = p.ty();
                let (fw, tw) = (p.tys.scalar_w(t), p.tys.scalar_w(t2));
                let d = self.slot(&nm, p.tys.nleaves(t2) as u32);
                let k = match op.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "fptrunc" => Cast::FPTrunc,
                    "fpext" => Cast::FPExt,
                    "uitofp" => Cast::UIToFP,
                    "sitofp" => Cast::SIToFP,
                    "fptoui" => Cast::FPToUI,
                    "fptosi" => Cast::FPToSI,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if tw > fw {
                            Cast::ZExt
                        } else if tw < fw {
                            Cast::Trunc
                        } else {
                            Cast::Copy
                        }
                    }
                    _ => Cast::Copy,
                };
                match (Self::vecinfo(p, t), k) {
                    (Some((n, fe)), k) if k != Cast::Copy => I::VCast(k, n, fe, tw / n, d, a),
                    _ => I::Cast(k, fw, tw, d, a),
                }
            }
            "select" => {
                while matches!(p.peek(), Tok::Word(_)) && !p.is_type_start() {
                    p.i += 1
                }
                let (ct, c) = self.tv(p);
                p.expect(',');
                let (t, a) = self.tv(p);
                p.expect(',');
                let (_, b) = self.tv(p);
                let lv = p.tys.leaves(t);
                let d = self.slot(&nm, lv.len() as u32);
                match Self::vecinfo(p, ct) {
                    Some((n, _)) => I::VSelect(n, p.tys.scalar_w(t) / n, d, c, a, b),
                    None => I::Select(lv.len() as u32, d, c, a, b, lv.iter().map(|x| x.1).collect()),
                }
            }
            "load" => {
                while p.word("atomic") || p.word("volatile") {}
                let t = p.ty();
                p.expect(',');
                let (_, ptr) = self.tv(p);
                let lv = p.tys.leaves(t);
                let d = self.slot(&nm, lv.len() as u32);
                I::Load(d, Arc::new(lv), ptr)
            }
            "store" => {
                while p.word("atomic") || p.word("volatile") {}
                let (t, v) = self.tv(p);
                p.expect(',');
                let (_, ptr) = self.tv(p);
                I::Store(Arc::new(p.tys.leaves(t)), v, ptr)
            }
            "getelementptr" => {
                while matches!(p.peek(), Tok::Word(_)) && !p.is_type_start() {
                    p.i += 1;
                    p.skip_parens_if_attr();
                }
                let st = p.ty();
                p.expect(',');
                let (_, base) = self.tv(p);
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = st;
                let mut first = true;
                while p.eat(',') {
                    if *p.peek() == Tok::Meta {
                        break;
                    }
                    let (it, v) = self.tv(p);
                    let w = p.tys.scalar_w(it);
                    if first {
                        first = false;
                        let sz = p.tys.size_align(cur).0 as i64;
                        match v {
                            Op::C(c) => off = off.wrapping_add((sext(c, w) as i64).wrapping_mul(sz)),
                            o => terms.push((o, w, sz)),
                        }
                    } else {
                        match v {
                            Op::C(c) => {
                                let (o, t) = p.tys.field_off(cur, sext(c, w) as u64);
                                off = off.wrapping_add(o as i64);
                                cur = t;
                            }
                            o => {
                                let e = match &p.tys.v[cur as usize] {
                                    T::Arr(_, e) => *e,
                                    T::V(_, e) => *e,
                                    _ => panic!("gep"),
                                };
                                terms.push((o, w, p.tys.size_align(e).0 as i64));
                                cur = e;
                            }
                        }
                    }
                }
                let d = self.slot(&nm, 1);
                I::Gep(d, base, off, terms)
            }
            "alloca" => {
                p.word("inalloca");
                let t = p.ty();
                let mut n = Op::C(1);
                let (s, mut a) = p.tys.size_align(t);
                while p.eat(',') {
                    if p.word("align") {
                        a = a.max(p.num() as u64);
                    } else if p.is_type_start() {
                        n = self.tv(p).1;
                    } else {
                        break;
                    }
                }
                let d = self.slot(&nm, 1);
                I::Alloca(d, s, a, n)
            }
            "call" | "invoke" => {
                // fast-math flags, cconv, ret attrs
                p.skip_attrs();
                if let Tok::Num(_) = p.peek() {
                    p.i += 1;
                    p.skip_attrs();
                }
                let rt = p.ty();
                // optional function type "(...)": appears for varargs
                if *p.peek() == Tok::P('(') {
                    p.skip_parens();
                }
                p.skip_attrs();
                let callee = match p.next() {
                    Tok::Global(g) => {
                        if let Some(&f) = self.m.fn_by_name.get(&g) {
                            Callee::F(f)
                        } else {
                            Callee::Ext(g)
                        }
                    }
                    Tok::Local(n) => Callee::Ind(Op::S(self.slot(&n, 1))),
                    Tok::Word(w) if w == "asm" => {
                        while *p.peek() != Tok::P('(') {
                            p.i += 1
                        }
                        Callee::Nop
                    }
                    x => panic!("callee {x:?} near {:?}", &p.t[p.i.saturating_sub(8)..(p.i + 8).min(p.t.len())]),
                };
                p.expect('(');
                let mut args = vec![];
                if !p.eat(')') {
                    loop {
                        if matches!(p.peek(), Tok::Word(w) if w=="metadata") {
                            let mut d = 0;
                            loop {
                                match p.peek() {
                                    Tok::P('(') => d += 1,
                                    Tok::P(')') if d == 0 => break,
                                    Tok::P(')') => d -= 1,
                                    Tok::P(',') if d == 0 => break,
                                    _ => {}
                                }
                                p.i += 1
                            }
                        } else {
                            let (t, v) = self.tv(p);
                            let lv = p.tys.leaves(t);
                            args.push((v, lv.len() as u32, lv.first().map(|x| x.1).unwrap_or(0)));
                        }
                        if p.eat(')') {
                            break;
                        }
                        p.expect(',')
                    }
                }
                let nret = p.tys.nleaves(rt) as u32;
                let retw = p.tys.scalar_w(rt);
                let dst = if nret > 0 && !nm.is_empty() { self.slot(&nm, nret) } else { u32::MAX };
                let mut normal = None;
                if op == "invoke" {
                    loop {
                        match p.peek() {
                            Tok::Word(w) if w == "to" => break,
                            _ => p.i += 1,
                        }
                    }
                    p.word("to");
                    normal = Some(self.label(p));
                    p.word("unwind");
                }
                I::Call { dst, nret, retw, callee, args, normal }
            }
            "extractvalue" => {
                let (t, a) = self.tv(p);
                let mut cur = t;
                let mut first = 0u32;
                while p.eat(',') {
                    if *p.peek() == Tok::Meta {
                        break;
                    }
                    let i = p.num() as usize;
                    let (f, e) = sub_leaf(p.tys, cur, i);
                    first += f;
                    cur = e;
                }
                let n = p.tys.nleaves(cur) as u32;
                let d = self.slot(&nm, n);
                I::Extract(d, a, first, n)
            }
            "insertvalue" => {
                let (t, a) = self.tv(p);
                p.expect(',');
                let (vt, v) = self.tv(p);
                let mut cur = t;
                let mut first = 0u32;
                while p.eat(',') {
                    if *p.peek() == Tok::Meta {
                        break;
                    }
                    let i = p.num() as usize;
                    let (f, e) = sub_leaf(p.tys, cur, i);
                    first += f;
                    cur = e;
                }
                let na = p.tys.nleaves(t) as u32;
                let d = self.slot(&nm, na);
                I::Insert(d, a, na, v, first, p.tys.nleaves(vt) as u32)
            }
            "phi" => {
                while matches!(p.peek(), Tok::Word(_)) && !p.is_type_start() {
                    p.i += 1
                }
                let t = p.ty();
                let n = p.tys.nleaves(t) as u32;
                let dst = self.slot(&nm, n);
                let mut inc = vec![];
                loop {
                    if !p.eat('[') {
                        break;
                    }
                    let v = self.val(p, t);
                    p.expect(',');
                    let l = match p.next() {
                        Tok::Local(x) => self.labels[&x],
                        x => panic!("{x:?}"),
                    };
                    p.expect(']');
                    inc.push((l, v));
                    if !p.eat(',') {
                        break;
                    }
                }
                blk.phis.push(Phi { dst, n, inc });
                return;
            }
            "br" => {
                if matches!(p.peek(), Tok::Word(w) if w=="label") {
                    I::Br(self.label(p))
                } else {
                    let (_, c) = self.tv(p);
                    p.expect(',');
                    let a = self.label(p);
                    p.expect(',');
                    let b = self.label(p);
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tv(p);
                p.expect(',');
                let d = self.label(p);
                p.expect('[');
                let mut cs = vec![];
                loop {
                    while *p.peek() == Tok::Nl {
                        p.i += 1
                    }
                    if p.eat(']') {
                        break;
                    }
                    let ty = p.ty();
                    let c = match p.cst(ty) {
                        Cst::V(v) => v,
                        _ => panic!(),
                    };
                    p.expect(',');
                    let l = self.label(p);
                    cs.push((c, l));
                }
                I::Switch(v, p.tys.scalar_w(t), d, cs)
            }
            "ret" => {
                let t = p.ty();
                let n = p.tys.nleaves(t) as u32;
                if n == 0 {
                    I::Ret(None)
                } else {
                    let v = self.val(p, t);
                    I::Ret(Some((v, n)))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" => I::Bad("resume".into()),
            "landingpad" => {
                let t = p.ty();
                let n = p.tys.nleaves(t) as u32;
                if !nm.is_empty() {
                    self.slot(&nm, n);
                }
                loop {
                    p.skip_line();
                    let save = p.i;
                    while *p.peek() == Tok::Nl && p.i < p.t.len() {
                        p.i += 1
                    }
                    if matches!(p.peek(), Tok::Word(w) if w=="cleanup"||w=="catch"||w=="filter") {
                        continue;
                    }
                    p.i = save;
                    break;
                }
                I::Bad("landingpad".into())
            }
            "freeze" => {
                let (t, v) = self.tv(p);
                let n = p.tys.nleaves(t) as u32;
                let d = self.slot(&nm, n);
                I::Copy(d, v, n)
            }
            "fence" => I::Nop,
            "atomicrmw" => {
                p.word("volatile");
                let o = match p.next() {
                    Tok::Word(w) => w,
                    _ => panic!(),
                };
                let (_, ptr) = self.tv(p);
                p.expect(',');
                let (t, v) = self.tv(p);
                let d = if nm.is_empty() { u32::MAX } else { self.slot(&nm, 1) };
                I::Rmw(o, p.tys.scalar_w(t), d, ptr, v)
            }
            "cmpxchg" => {
                while p.word("weak") || p.word("volatile") {}
                let (_, ptr) = self.tv(p);
                p.expect(',');
                let (t, c) = self.tv(p);
                p.expect(',');
                let (_, n) = self.tv(p);
                let d = self.slot(&nm, 2);
                I::CmpXchg(p.tys.scalar_w(t), d, ptr, c, n)
            }
            "extractelement" => {
                let (t, v) = self.tv(p);
                p.expect(',');
                let (_, i) = self.tv(p);
                let d = self.slot(&nm, 1);
                I::ExtractElt(Self::vecinfo(p, t).unwrap().1, d, v, i)
            }
            "insertelement" => {
                let (t, v) = self.tv(p);
                p.expect(',');
                let (_, e) = self.tv(p);
                p.expect(',');
                let (_, i) = self.tv(p);
                let d = self.slot(&nm, 1);
                I::InsertElt(Self::vecinfo(p, t).unwrap().1, d, v, e, i)
            }
            "shufflevector" => {
                let (t, a) = self.tv(p);
                p.expect(',');
                let (_, b) = self.tv(p);
                p.expect(',');
                let mt = p.ty();
                let nmask = match &p.tys.v[mt as usize] {
                    T::V(n, _) => *n as usize,
                    _ => panic!(),
                };
                let mut idx = vec![];
                if p.word("zeroinitializer") || p.word("poison") || p.word("undef") {
                    idx = vec![0; nmask]
                } else if p.word("splat") {
                    p.expect('(');
                    p.ty();
                    let k = p.num() as u32;
                    p.expect(')');
                    idx = vec![k; nmask]
                } else {
                    p.expect('<');
                    loop {
                        p.ty();
                        if p.word("poison") || p.word("undef") {
                            idx.push(0)
                        } else {
                            idx.push(p.num() as u32)
                        }
                        if !p.eat(',') {
                            break;
                        }
                    }
                    p.expect('>');
                }
                let (n, ew) = Self::vecinfo(p, t).unwrap();
                let d = self.slot(&nm, 1);
                I::Shuffle(n, ew, d, a, b, idx)
            }
            x => {
                if !nm.is_empty() {
                    // unknown result arity: treat as single
                    self.slot(&nm, 1);
                }
                I::Bad(format!("opcode {x}"))
            }
        };
        blk.ins.push(ins);
    }
}
fn sub_leaf(tys: &Types, t: Ty, i: usize) -> (u32, Ty) {
    match &tys.v[t as usize] {
        T::Arr(_, e) => ((tys.nleaves(*e) * i) as u32, *e),
        T::St(f, _) => (f[..i].iter().map(|&x| tys.nleaves(x)).sum::<usize>() as u32, f[i]),
        _ => panic!("sub_leaf"),
    }
}
/// rough v0 demangling: the identifiers of the path, in order
pub fn demangle(s: &str) -> String {
    let Some(r) = s.strip_prefix("_R") else { return s.to_string() };
    let b = r.as_bytes();
    let mut i = 0;
    let mut out: Vec<String> = vec![];
    let skip62 = |mut i: usize| {
        while i < b.len() && b[i] != b'_' {
            i += 1
        }
        i + 1
    };
    let mut last_crate = 0;
    while i < b.len() {
        match b[i] {
            b'C' if i + 1 < b.len() => {
                last_crate = out.len();
                i += 1;
                if b[i] == b's' {
                    i = skip62(i)
                }
            }
            b's' | b'B' => i = skip62(i),
            b'0'..=b'9' => {
                let mut n = 0usize;
                while i < b.len() && b[i].is_ascii_digit() {
                    n = n * 10 + (b[i] - b'0') as usize;
                    i += 1
                }
                if i < b.len() && b[i] == b'_' {
                    i += 1
                }
                let e = (i + n).min(b.len());
                if n > 0 {
                    out.push(r[i..e].to_string())
                }
                i = e
            }
            _ => i += 1,
        }
    }
    if last_crate > 0 && last_crate + 1 == out.len() {
        out.pop();
    }
    out.join("::")
}
