//! P27: the option interface serves any sampler's option table.
use crate::lib_::*;
use crate::opts::{fbits, hash};
use crate::rt::*;
use std::borrow::Cow;
use std::cell::Cell;
/// a number type an option table may use
trait Num: ConfigurableNumValue + std::fmt::Debug + Send + Sync {
    /// all bits of the number
    fn raw(self) -> u64;
    /// some number of the type
    fn some(n: &str) -> Self;
    /// what an unsigned setting becomes
    fn of_u64(v: u64) -> Option<Self>;
    /// what a float setting becomes
    fn of_f64(v: f64) -> Option<Self>;
    /// what a user reads as an unsigned value
    fn as_u64(self) -> Option<u64>;
    /// what a user reads as a float value
    fn as_f64(self) -> f64;
}
macro_rules! int {
    ($t:ident, $w:expr) => {
        impl Num for $t {
            fn raw(self) -> u64 {
                self as u64
            }
            fn some(n: &str) -> Self {
                bits(n, $w) as $t
            }
            fn of_u64(v: u64) -> Option<Self> {
                (v <= $t::MAX as u64).then_some(v as $t)
            }
            fn of_f64(_: f64) -> Option<Self> {
                None
            }
            #[allow(unused_comparisons)]
            fn as_u64(self) -> Option<u64> {
                (self >= 0).then_some(self as u64)
            }
            fn as_f64(self) -> f64 {
                0.0
            }
        }
    };
}
int!(u8, 8);
int!(i16, 16);
int!(u32, 32);
int!(u64, 64);
int!(usize, 64);
impl Num for f32 {
    fn raw(self) -> u64 {
        fbits(self)
    }
    fn some(n: &str) -> Self {
        f_num(n)
    }
    fn of_u64(_: u64) -> Option<Self> {
        None
    }
    fn of_f64(v: f64) -> Option<Self> {
        Some(v as f32)
    }
    fn as_u64(self) -> Option<u64> {
        None
    }
    fn as_f64(self) -> f64 {
        self as f64
    }
}
impl Num for f64 {
    fn raw(self) -> u64 {
        bits64(self)
    }
    fn some(n: &str) -> Self {
        f64::from_bits(bits(n, 64))
    }
    fn of_u64(_: u64) -> Option<Self> {
        None
    }
    fn of_f64(v: f64) -> Option<Self> {
        Some(v)
    }
    fn as_u64(self) -> Option<u64> {
        None
    }
    fn as_f64(self) -> f64 {
        self
    }
}
/// all NaNs alike
fn bits64(f: f64) -> u64 {
    let b = f.to_bits();
    if b & 0x7fff_ffff_ffff_ffff > 0x7ff0_0000_0000_0000 { 0x7ff8_0000_0000_0000 } else { b }
}
const N: usize = 4;
/// what happens before an option is set
#[derive(Debug, Clone, Copy, PartialEq)]
enum Before {
    Pass,
    Replace,
    Refuse,
    /// after the option was set
    RefuseAfter,
}
/// a sampler with one option of each type under the given keys, each possibly out of reach
#[derive(Debug, Clone)]
struct T<UI, F> {
    keys: [&'static str; N],
    has: [bool; N],
    n: UI,
    f: F,
    b: bool,
    s: Cow<'static, str>,
    mode: Before,
    /// calls before and after setting, with the key told
    pre: u32,
    post: u32,
    told: [&'static str; 2],
    /// all values when called after setting
    at_post: [u64; N],
    at_pre: [u64; N],
}
impl<UI: Num, F: Num> T<UI, F> {
    fn new(keys: [&'static str; N], has: [bool; N]) -> Self {
        let mode = match pin(u("mode", 0, 3)) {
            0 => Before::Pass,
            1 => Before::Replace,
            2 => Before::Refuse,
            _ => Before::RefuseAfter,
        };
        Self { keys, has, n: UI::some("n"), f: F::some("f"), b: boolean("b"), s: Cow::from("x"), mode, pre: 0, post: 0, told: [""; 2], at_post: [0; N], at_pre: [0; N] }
    }
    fn vals(&self) -> [u64; N] {
        [self.n.raw(), self.f.raw(), self.b as u64, hash(&self.s)]
    }
}
const TYPES: [SamplerOptionType; N] = [SamplerOptionType::UInt, SamplerOptionType::Float, SamplerOptionType::Bool, SamplerOptionType::String];
impl<UI: Num, F: Num> HasSamplerMetadata<UI, F> for T<UI, F> {
    fn sampler_metadata(&self) -> SamplerMetadata {
        SamplerMetadata {
            name: "t",
            description: None,
            options: (0..N).map(|i| SamplerOptionMetadata { key: self.keys[i], description: None, option_type: TYPES[i] }).collect(),
        }
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, UI, F>> {
        let h = self.has;
        let md = self.sampler_metadata().options;
        SamplerOptions::from(md.into_iter().zip([
            h[0].then_some(SamplerOptionValueMut::UInt(&mut self.n)),
            h[1].then_some(SamplerOptionValueMut::Float(&mut self.f)),
            h[2].then_some(SamplerOptionValueMut::Bool(&mut self.b)),
            h[3].then_some(SamplerOptionValueMut::String(&mut self.s)),
        ]))
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, UI, F>> {
        let h = self.has;
        unsafe {
            SamplerOptions::build_options(
                self.sampler_metadata().options,
                [
                    h[0].then_some(SamplerOptionValue::UInt(self.n)),
                    h[1].then_some(SamplerOptionValue::Float(self.f)),
                    h[2].then_some(SamplerOptionValue::Bool(self.b)),
                    h[3].then_some(SamplerOptionValue::String(self.s.clone())),
                ],
            )
        }
    }
}
impl<UI: Num, F: Num> ConfigurableSampler<UI, F> for T<UI, F> {
    fn pre_set_option(&mut self, md: &SamplerOptionMetadata, val: &mut SamplerOptionValue) -> anyhow::Result<()> {
        self.pre += 1;
        self.told[0] = md.key;
        self.at_pre = self.vals();
        match self.mode {
            Before::Replace => {
                *val = match val {
                    SamplerOptionValue::UInt(_) => SamplerOptionValue::UInt(7),
                    SamplerOptionValue::Float(_) => SamplerOptionValue::Float(7.5),
                    SamplerOptionValue::Bool(b) => SamplerOptionValue::Bool(!*b),
                    SamplerOptionValue::String(_) => SamplerOptionValue::String(Cow::from("yy")),
                }
            }
            Before::Refuse => anyhow::bail!("refused"),
            _ => (),
        }
        Ok(())
    }
    fn post_set_option(&mut self, md: &SamplerOptionMetadata) -> anyhow::Result<()> {
        self.post += 1;
        self.told[1] = md.key;
        self.at_post = self.vals();
        if self.mode == Before::RefuseAfter {
            anyhow::bail!("refused")
        }
        Ok(())
    }
}
/// how an operation ended
#[derive(Clone, Copy, PartialEq)]
enum End {
    Good,
    Unknown,
    Ambiguous,
    Closed,
    Conversion,
    Other,
}
fn end<X>(r: &anyhow::Result<X>) -> End {
    match r {
        Ok(_) => End::Good,
        Err(e) => match e.downcast_ref::<ConfigureSamplerError>() {
            Some(ConfigureSamplerError::UnknownOrBadType(_)) => End::Unknown,
            Some(ConfigureSamplerError::AmbiguousKey(_)) => End::Ambiguous,
            Some(ConfigureSamplerError::CannotAccessOptionValue(_)) => End::Closed,
            Some(ConfigureSamplerError::ConversionFailure(_)) => End::Conversion,
            #[allow(unreachable_patterns)]
            _ => End::Other,
        },
    }
}
/// the option meant: the one of exactly this key, else the only one it starts
fn lookup(keys: &[&str], key: &[u8]) -> Result<usize, End> {
    for i in 0..keys.len() {
        if keys[i].as_bytes() == key {
            return Ok(i);
        }
    }
    let mut hit = Err(End::Unknown);
    for i in 0..keys.len() {
        let k = keys[i].as_bytes();
        if key.len() <= k.len() && &k[..key.len()] == key {
            if hit.is_ok() {
                return Err(End::Ambiguous);
            }
            hit = Ok(i);
        }
    }
    hit
}
fn equal4(a: &[u64; N], b: &[u64; N]) -> bool {
    (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]) & (a[3] == b[3])
}
/// a value of any type, and which
fn value<'a>() -> (SamplerOptionValue<'a>, usize) {
    match pin(u("type", 0, 3)) {
        0 => (SamplerOptionValue::UInt(bits("uint", 64)), 0),
        1 => (SamplerOptionValue::Float(f64::from_bits(bits("float", 64))), 1),
        2 => (SamplerOptionValue::Bool(boolean("bool")), 2),
        _ => (SamplerOptionValue::String(Cow::from("ab")), 3),
    }
}
fn set<UI: Num, F: Num>(mut t: T<UI, F>, key: &[u8], pad: bool) {
    let before = t.vals();
    let (val, kind) = value();
    let want = lookup(&t.keys, key);
    let mut k = String::from_utf8(key.to_vec()).unwrap_or_default();
    if pad {
        k = format!(" {k} ");
    }
    let r = t.set_option(&k, val.clone());
    let got = end(&r);
    let after = t.vals();
    let i = match want {
        Err(e) => {
            check(got == e, "P27.lookup");
            check((t.pre == 0) & (t.post == 0), "P27.hooks");
            return check(equal4(&before, &after), "P27.changed");
        }
        Ok(i) if !t.has[i] => {
            check(got == End::Closed, "P27.closed");
            check((t.pre == 0) & (t.post == 0), "P27.hooks");
            return check(equal4(&before, &after), "P27.changed");
        }
        Ok(i) => i,
    };
    check((t.pre == 1) & (t.told[0] == t.keys[i]) & equal4(&t.at_pre, &before), "P27.hooks");
    // the value that counts
    let (v, w) = match (t.mode, val) {
        (Before::Replace, SamplerOptionValue::UInt(_)) => (UI::of_u64(7).map(|x| x.raw()), kind),
        (Before::Replace, SamplerOptionValue::Float(_)) => (F::of_f64(7.5).map(|x| x.raw()), kind),
        (Before::Replace, SamplerOptionValue::Bool(b)) => (Some(!b as u64), kind),
        (Before::Replace, SamplerOptionValue::String(_)) => (Some(hash("yy")), kind),
        (_, SamplerOptionValue::UInt(v)) => (UI::of_u64(v).map(|x| x.raw()), kind),
        (_, SamplerOptionValue::Float(v)) => (F::of_f64(v).map(|x| x.raw()), kind),
        (_, SamplerOptionValue::Bool(b)) => (Some(b as u64), kind),
        (_, SamplerOptionValue::String(_)) => (Some(hash("ab")), kind),
    };
    if t.mode == Before::Refuse || w != i || v.is_none() {
        if t.mode == Before::Refuse {
            check(got == End::Other, "P27.refused");
        } else if w != i {
            check(got == End::Unknown, "P27.bad-type");
        } else {
            check(got == End::Conversion, "P27.conversion");
        }
        check(t.post == 0, "P27.hooks");
        check(equal4(&before, &after), "P27.changed");
        reach("refused");
    } else {
        check(got == (if t.mode == Before::RefuseAfter { End::Other } else { End::Good }), "P27.set");
        let mut exp = before;
        exp[i] = v.unwrap_or(0);
        check(equal4(&after, &exp), "P27.set");
        check((t.post == 1) & (t.told[1] == t.keys[i]) & equal4(&t.at_post, &exp), "P27.hooks");
        reach("set");
    }
}
fn get<UI: Num, F: Num>(t: T<UI, F>, key: &[u8], pad: bool) {
    let mut k = String::from_utf8(key.to_vec()).unwrap_or_default();
    if pad {
        k = format!(" {k} ");
    }
    let r = t.get_option(&k);
    let got = end(&r);
    match lookup(&t.keys, key) {
        Err(e) => check(got == e, "P27.lookup"),
        Ok(i) if !t.has[i] => check(got == End::Closed, "P27.closed"),
        Ok(i) => {
            if i == 0 && t.n.as_u64().is_none() {
                check(got == End::Conversion, "P27.conversion");
                return;
            }
            let ok = match (i, r) {
                (0, Ok(SamplerOptionValue::UInt(v))) => Some(v) == t.n.as_u64(),
                (1, Ok(SamplerOptionValue::Float(v))) => bits64(v) == bits64(t.f.as_f64()),
                (2, Ok(SamplerOptionValue::Bool(v))) => v == t.b,
                (3, Ok(SamplerOptionValue::String(v))) => *v == *t.s,
                _ => false,
            };
            check(ok, "P27.get");
            reach("got");
        }
    }
}
/// a string of settings: each goes through the same lookup, the hooks and the conversion
fn conf<UI: Num, F: Num>(mut t: T<UI, F>, key: &[u8]) {
    let before = t.vals();
    let want = lookup(&t.keys, key);
    let mut s = String::from_utf8(key.to_vec()).unwrap_or_default();
    s.push_str("=1");
    let twice = boolean("twice");
    let m = 1 + twice as u32;
    if twice {
        let c = s.clone();
        s.push(':');
        s.push_str(&c);
    }
    let r = t.configure(&s);
    let after = t.vals();
    let fine = want.ok().filter(|i| t.has[*i]);
    let Some(i) = fine else {
        check(r.is_err(), "P27.configure");
        check((t.pre == 0) & (t.post == 0), "P27.hooks");
        return check(equal4(&before, &after), "P27.changed");
    };
    let v = |rep: bool| match i {
        0 => UI::of_u64(if rep { 7 } else { 1 }).map(|x| x.raw()).unwrap_or(0),
        1 => F::of_f64(if rep { 7.5 } else { 1.0 }).map(|x| x.raw()).unwrap_or(0),
        2 => !rep as u64,
        _ => hash(if rep { "yy" } else { "1" }),
    };
    let mut exp = before;
    match t.mode {
        Before::Pass | Before::Replace => {
            check(r.is_ok(), "P27.configure");
            exp[i] = v(t.mode == Before::Replace);
            check((t.pre == m) & (t.post == m), "P27.hooks");
        }
        Before::Refuse => {
            check(r.is_err() & (t.pre == 1) & (t.post == 0), "P27.hooks");
        }
        Before::RefuseAfter => {
            exp[i] = v(false);
            check(r.is_err() & (t.pre == 1) & (t.post == 1), "P27.hooks");
        }
    }
    check(equal4(&after, &exp), "P27.configure");
}
/// what a sampler's own version of setting an option gets to see when it is configured by a string
#[derive(Debug, Clone)]
struct Own {
    v: f32,
    asked: Vec<(&'static str, u64)>,
}
impl HasSamplerMetadata<usize, f32> for Own {
    fn sampler_metadata(&self) -> SamplerMetadata {
        let o = |key, option_type| SamplerOptionMetadata { key, description: None, option_type };
        SamplerMetadata { name: "own", description: None, options: vec![o("alpha", SamplerOptionType::UInt), o("beta", SamplerOptionType::Float)] }
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, usize, f32>> {
        let md = self.sampler_metadata().options;
        // the first option is set by no reference: only the own version can
        unsafe { SamplerOptions::build_options(md, [None, Some(SamplerOptionValueMut::Float(&mut self.v))]) }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, usize, f32>> {
        unsafe { SamplerOptions::build_options(self.sampler_metadata().options, [None, Some(SamplerOptionValue::Float(self.v))]) }
    }
}
impl ConfigurableSampler<usize, f32> for Own {
    fn set_option(&mut self, key: &str, val: SamplerOptionValue) -> anyhow::Result<()> {
        let k = if key == "alpha" { "alpha" } else if key == "beta" { "beta" } else { "?" };
        let v = match val {
            SamplerOptionValue::UInt(u) => u,
            SamplerOptionValue::Float(f) => bits64(f),
            _ => 99,
        };
        self.asked.push((k, v));
        if self.asked.len() == 3 {
            anyhow::bail!("enough")
        }
        Ok(())
    }
}
/// a string configures a sampler through its own way of setting options, with full keys, in order, up to the first failure
fn own() {
    let mut o = Own { v: 0.5, asked: vec![] };
    let d = u("d", 0, 9);
    let mut s = String::new();
    let len = pin(u("len", 0, 4));
    let digit = (b'0' + d as u8) as char;
    for _ in 0..len {
        s.push_str("be=");
        s.push(digit);
        s.push_str(" :");
    }
    let r = o.configure(&s);
    check(r.is_ok() == (len < 3), "P27.own-setter");
    let mut ok = o.asked.len() == len.min(3) as usize;
    for a in o.asked.iter() {
        ok &= (a.0 == "beta") & (a.1 == bits64(d as f64));
    }
    check(ok, "P27.own-setter");
    check(o.v.to_bits() == 0.5f32.to_bits(), "P27.own-setter");
    reach("own");
}
/// a thing without options: everything about it is refused
#[derive(Debug)]
struct Nothing;
impl HasSamplerMetadata<usize, f32> for Nothing {}
impl ConfigurableSampler<usize, f32> for Nothing {}
fn nothing() {
    let n = pin(u("len", 0, 2)) as usize;
    let key: String = (0..n).map(|i| u(["k0", "k1"][i], 0x21, 0x7e) as u8 as char).collect();
    check(end(&Nothing.get_option(&key)) == End::Unknown, "P27.no-options");
    check(end(&Nothing.set_option(&key, value().0)) == End::Unknown, "P27.no-options");
    check(Nothing.configure("").is_ok() && Nothing.configure(" : : ").is_ok(), "P27.no-options");
    check(Nothing.configure("x").is_err(), "P27.no-options");
    let m = HasSamplerMetadata::<usize, f32>::sampler_metadata(&Nothing);
    check(m.options.is_empty(), "P27.no-options");
}
fn word(n: &[&str; 4], lo: u64, hi: u64, name: &str) -> Vec<u8> {
    let len = pin(u(name, lo, hi)) as usize;
    (0..len).map(|i| u(n[i], b'a' as u64, b'b' as u64) as u8).collect()
}
fn keep(w: Vec<u8>) -> &'static str {
    Box::leak(unsafe { String::from_utf8_unchecked(w) }.into_boxed_str())
}
/// a table of four keys: two with free letters, two set
fn table(hi: u64) -> [&'static str; N] {
    let p = keep(word(&["p0", "p1", "p2", "p3"], 1, hi, "plen"));
    let q = keep(word(&["q0", "q1", "q2", "q3"], 1, hi, "qlen"));
    match pin(u("place", 0, 2)) {
        0 => [p, q, "bb", "c"],
        1 => ["ab", p, "c", q],
        _ => ["c", "d", q, p],
    }
}
fn query(hi: u64) -> Vec<u8> {
    word(&["k0", "k1", "k2", "k3"], 0, hi, "klen")
}
fn open() -> [bool; N] {
    [boolean("h0"), boolean("h1"), boolean("h2"), boolean("h3")].map(|x| pin(x as u64) != 0)
}
const PLAIN: [&str; N] = ["abc", "ab", "b", "abd"];
fn named() -> &'static [u8] {
    [&b"abc"[..], b"ab", b"b", b"abd", b"a", b"abcd", b""][pin(u("key", 0, 6)) as usize]
}
fn typed<UI: Num, F: Num>() {
    let t = T::<UI, F>::new(PLAIN, [true; N]);
    match pin(u("op", 0, 2)) {
        0 => set(t, named(), boolean("pad")),
        1 => get(t, named(), boolean("pad")),
        _ => conf(t, named()),
    }
}
/// many options
#[derive(Debug, Clone)]
struct Many {
    keys: Vec<&'static str>,
    v: Vec<usize>,
}
impl HasSamplerMetadata<usize, f32> for Many {
    fn sampler_metadata(&self) -> SamplerMetadata {
        SamplerMetadata { name: "many", description: None, options: self.keys.iter().map(|k| SamplerOptionMetadata { key: *k, description: None, option_type: SamplerOptionType::UInt }).collect() }
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, usize, f32>> {
        let md = self.sampler_metadata().options;
        unsafe { SamplerOptions::build_options(md, self.v.iter_mut().map(|v| Some(SamplerOptionValueMut::UInt(v)))) }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, usize, f32>> {
        unsafe { SamplerOptions::build_options(self.sampler_metadata().options, self.v.iter().map(|v| Some(SamplerOptionValue::UInt(*v)))) }
    }
}
impl ConfigurableSampler<usize, f32> for Many {}
/// every option of a long table is reached by its key
fn many(n: usize) {
    let mut m = Many { keys: (0..n).map(|i| keep(format!("o{i}").into_bytes())).collect(), v: (0..n).collect() };
    let i = among("i", &[0, 1, 9, 10, 11, n / 2, n - 2, n - 1]);
    let v = bits("uint", 64);
    let k = m.keys[i];
    check(matches!(m.get_option(k), Ok(SamplerOptionValue::UInt(x)) if x == i as u64), "P27.get");
    check(m.set_option(k, SamplerOptionValue::UInt(v)).is_ok(), "P27.set");
    let mut ok = true;
    for j in 0..n {
        ok &= m.v[j] as u64 == if i == j { v } else { j as u64 };
    }
    check(ok, "P27.set");
    check(matches!(m.get_option(k), Ok(SamplerOptionValue::UInt(x)) if x == v), "P27.get");
    check(m.configure(&format!("{k}=5:{k}=6")).is_ok() && m.v[i] == 6, "P27.configure");
    check(end(&m.set_option("o", SamplerOptionValue::UInt(v))) == End::Ambiguous, "P27.lookup");
    check(end(&m.set_option("o9x", SamplerOptionValue::UInt(v))) == End::Unknown, "P27.lookup");
    reach("many");
}
/// a table of options of one type: set one and read it back
fn alike(keys: [&'static str; N], key: &[u8]) {
    let n0: [usize; N] = [bits("n0", 64) as usize, bits("n1", 64) as usize, 2, 3];
    let mut m = Many { keys: keys.to_vec(), v: n0.to_vec() };
    let v = bits("uint", 64);
    let k = String::from_utf8(key.to_vec()).unwrap_or_default();
    let want = lookup(&keys, key);
    let by_string = pin(u("op", 0, 1)) == 1;
    let got = if by_string { end(&m.configure(&format!("{k}=9"))) } else { end(&m.set_option(&k, SamplerOptionValue::UInt(v))) };
    let i = match want {
        Ok(i) => i,
        Err(e) => {
            check(got == e, "P27.lookup");
            for j in 0..N {
                check(m.v[j] == n0[j], "P27.changed");
            }
            return check(end(&m.get_option(&k)) == e, "P27.lookup");
        }
    };
    check(got == End::Good, "P27.set");
    let v = if by_string { 9 } else { v };
    for j in 0..N {
        check(m.v[j] as u64 == if i == j { v } else { n0[j] as u64 }, "P27.set");
    }
    check(matches!(m.get_option(&k), Ok(SamplerOptionValue::UInt(x)) if x == v), "P27.get");
    reach("alike");
}
entries! {
    q_alike { require("alike"); alike(table(2), &query(2)) }
    q_alike_named { require("alike"); alike([["abc", "ab", "b", "abd"], ["b", "abd", "abc", "ab"], ["abcd", "abc", "ab", "a"]][pin(u("order", 0, 2)) as usize], named()) }
    t_alike { alike(table(3), &query(3)) }
    q_set { require("set"); require("refused"); set(T::<usize, f32>::new(table(2), [true; N]), &query(2), false) }
    q_set_closed { set(T::<usize, f32>::new(PLAIN, open()), named(), boolean("pad")) }
    q_get { require("got"); get(T::<usize, f32>::new(table(2), [true; N]), &query(2), boolean("pad")) }
    q_get_closed { get(T::<usize, f32>::new(PLAIN, open()), named(), boolean("pad")) }
    q_conf { conf(T::<usize, f32>::new(table(2), [true; N]), &query(2)) }
    q_conf_closed { conf(T::<usize, f32>::new(PLAIN, open()), named()) }
    q_types { match pin(u("types", 0, 3)) { 0 => typed::<u8, f64>(), 1 => typed::<i16, f32>(), 2 => typed::<u32, f64>(), _ => typed::<u64, f32>() } }
    q_own { require("own"); own() }
    q_nothing { nothing() }
    q_many { require("many"); many(120) }
    q_set3 { set(T::<u8, f64>::new(table(3), [true; N]), &query(3), false) }
    q_get3 { get(T::<i16, f64>::new(table(3), [true; N]), &query(3), false) }
    q_conf3 { conf(T::<u32, f32>::new(table(3), [true; N]), &query(3)) }
    t_set { set(T::<usize, f64>::new(table(4), [true; N]), &query(4), boolean("pad")) }
    t_get { get(T::<i16, f32>::new(table(4), [true; N]), &query(4), boolean("pad")) }
    t_conf { conf(T::<u8, f32>::new(table(4), [true; N]), &query(4)) }
    t_closed { set(T::<u8, f32>::new(table(3), open()), &query(3), false) }
    t_many { many(1000) }
}
