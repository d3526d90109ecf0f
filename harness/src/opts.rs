//! Option snapshots and the reference for looking up option keys.
use crate::rt::*;
use std::borrow::Cow;
/// an option value reduced to kind and bits (all NaNs alike)
#[derive(Clone, Copy)]
pub struct Val {
    pub kind: u8,
    pub bits: u64,
}
pub fn eqv(a: &Val, b: &Val) -> bool {
    (a.kind == b.kind) & (a.bits == b.bits)
}
pub fn fbits(f: f32) -> u64 {
    if nan(f) { 0x7fc0_0000 } else { f.to_bits() as u64 }
}
/// every option with its key, as the sampler itself reports it
pub fn snap<S: HasSamplerMetadata<usize, f32>>(s: &S) -> Vec<(&'static str, Val)> {
    s.sampler_options()
        .iter()
        .map(|(md, v)| {
            let val = match v {
                Some(SamplerOptionValue::UInt(u)) => Val { kind: 0, bits: *u as u64 },
                Some(SamplerOptionValue::Float(f)) => Val { kind: 1, bits: fbits(*f) },
                Some(SamplerOptionValue::Bool(b)) => Val { kind: 2, bits: *b as u64 },
                Some(SamplerOptionValue::String(s)) => Val { kind: 3, bits: hash(s) },
                None => Val { kind: 9, bits: 0 },
            };
            (md.key, val)
        })
        .collect()
}
/// injective on strings of up to 7 bytes
pub fn hash(s: &str) -> u64 {
    let mut h = s.len() as u64;
    for b in s.bytes() {
        h = h << 8 | b as u64;
    }
    h
}
pub fn same_snap(a: &[(&'static str, Val)], b: &[(&'static str, Val)]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= (a[i].0 == b[i].0) & eqv(&a[i].1, &b[i].1);
    }
    r
}
fn starts(k: &[u8], key: &[u8]) -> bool {
    if key.len() > k.len() {
        return false;
    }
    let mut r = true;
    for i in 0..key.len() {
        r &= k[i] == key[i];
    }
    r
}
/// index of the option meant by `key`: an exact match, or the only one it is a prefix of
pub fn resolve(keys: &[&str], key: &[u8]) -> Option<usize> {
    let n = keys.len();
    let (mut exact, mut count, mut idx) = (n, 0usize, n);
    for i in (0..n).rev() {
        let k = keys[i].as_bytes();
        let p = starts(k, key);
        let e = p & (k.len() == key.len());
        count += p as usize;
        idx = if p { i } else { idx };
        exact = if e { i } else { exact };
    }
    let r = if exact < n { exact } else if count == 1 { idx } else { n };
    let r = pin(r as u64) as usize;
    (r < n).then_some(r)
}
/// the value one gets back for option `v`, asked for by the user
pub fn seen(v: SamplerOptionValue) -> Val {
    match v {
        SamplerOptionValue::UInt(u) => Val { kind: 0, bits: u },
        SamplerOptionValue::Float(f) => Val { kind: 1, bits: fbits(f as f32) },
        SamplerOptionValue::Bool(b) => Val { kind: 2, bits: b as u64 },
        SamplerOptionValue::String(s) => Val { kind: 3, bits: hash(&s) },
    }
}
/// a configurable thing with options of all types, one of them out of reach
#[derive(Debug, Clone)]
pub struct All {
    pub n: usize,
    pub f: f32,
    pub b: bool,
    pub s: Cow<'static, str>,
}
pub fn all() -> All {
    All { n: bits("n", 64) as usize, f: f_num("f"), b: boolean("b"), s: Cow::from("x") }
}
impl ConfigurableSampler<usize, f32> for All {}
impl HasSamplerMetadata<usize, f32> for All {
    fn sampler_metadata(&self) -> SamplerMetadata {
        let o = |key, option_type| SamplerOptionMetadata { key, description: None, option_type };
        SamplerMetadata {
            name: "all",
            description: None,
            options: vec![
                o("abc", SamplerOptionType::UInt),
                o("ab", SamplerOptionType::Float),
                o("b", SamplerOptionType::Bool),
                o("abd", SamplerOptionType::String),
                o("ax", SamplerOptionType::UInt),
            ],
        }
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, usize, f32>> {
        unsafe {
            SamplerOptions::build_options(
                self.sampler_metadata().options,
                [
                    Some(SamplerOptionValueMut::UInt(&mut self.n)),
                    Some(SamplerOptionValueMut::Float(&mut self.f)),
                    Some(SamplerOptionValueMut::Bool(&mut self.b)),
                    Some(SamplerOptionValueMut::String(&mut self.s)),
                    None,
                ],
            )
        }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, usize, f32>> {
        unsafe {
            SamplerOptions::build_options(
                self.sampler_metadata().options,
                [
                    Some(SamplerOptionValue::UInt(self.n)),
                    Some(SamplerOptionValue::Float(self.f)),
                    Some(SamplerOptionValue::Bool(self.b)),
                    Some(SamplerOptionValue::String(self.s.clone())),
                    None,
                ],
            )
        }
    }
}
