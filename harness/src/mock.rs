//! Stand-in samplers whose runs leave a trace in the logits list and in the token history.
use crate::rt::*;
use std::sync::{Arc, Mutex};
/// prints alike whatever it is set to
impl std::fmt::Debug for Mock {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Mock")
    }
}
#[derive(Clone, Default)]
pub struct Mock {
    pub tag: u32,
    pub fail: bool,
    /// kind of failure
    pub kind: u8,
    pub tok: Option<u32>,
    pub last: Option<u32>,
    /// options
    pub a: usize,
    pub b: f32,
}
pub fn mock(tag: u32, fail: bool, tok: Option<u32>) -> Mock {
    Mock { tag, fail, tok, ..Default::default() }
}
impl Sampler for Mock {
    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        let _ = res.with_last_tokens_mut(&mut |t| t.push(self.tag));
    }
    fn sample<'a>(&mut self, _res: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.last = None;
        if self.fail {
            return Err(error(self.kind, self.tag));
        }
        l.push(Logit { token_id: self.tag, logit: self.b, prob: self.a as f32 });
        self.last = self.tok;
        Ok(l)
    }
    fn sampled_token_id(&self) -> Option<u32> {
        self.last
    }
}
impl ConfigurableSampler<usize, f32> for Mock {}
impl HasSamplerMetadata<usize, f32> for Mock {
    fn sampler_metadata(&self) -> SamplerMetadata {
        SamplerMetadata {
            name: "mock",
            description: None,
            options: vec![
                SamplerOptionMetadata { key: "a", description: None, option_type: SamplerOptionType::UInt },
                SamplerOptionMetadata { key: "b", description: None, option_type: SamplerOptionType::Float },
            ],
        }
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, usize, f32>> {
        unsafe { SamplerOptions::build_options(self.sampler_metadata().options, [Some(SamplerOptionValueMut::UInt(&mut self.a)), Some(SamplerOptionValueMut::Float(&mut self.b))]) }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, usize, f32>> {
        unsafe { SamplerOptions::build_options(self.sampler_metadata().options, [Some(SamplerOptionValue::UInt(self.a)), Some(SamplerOptionValue::Float(self.b))]) }
    }
}
pub const KINDS: u64 = 7;
/// a failure of the given kind that carries `tag` where it can
fn error(kind: u8, tag: u32) -> SamplerError {
    match pin(kind as u64) {
        0 => SamplerError::LogitsError(LogitsError::InvalidLogit(tag as usize)),
        1 => SamplerError::MissingResource("x".repeat(tag as usize)),
        2 => SamplerError::InternalError("y".repeat(tag as usize)),
        3 => SamplerError::Interrupted(Interruption::NewTokensGvien(vec![tag, 1])),
        4 => SamplerError::LogitsError(LogitsError::InternalError("z".repeat(tag as usize))),
        5 => SamplerError::RandWeightedError(rand::distributions::WeightedError::AllWeightsZero),
        _ => SamplerError::MissingResource(String::new()),
    }
}
/// kind and payload of a mock's failure
pub fn failure(e: SamplerError) -> (u8, u32) {
    match e {
        SamplerError::LogitsError(LogitsError::InvalidLogit(t)) => (0, t as u32),
        SamplerError::MissingResource(s) if s.is_empty() => (6, 0),
        SamplerError::MissingResource(s) if s.bytes().all(|b| b == b'x') => (1, s.len() as u32),
        SamplerError::InternalError(s) if s.bytes().all(|b| b == b'y') => (2, s.len() as u32),
        SamplerError::Interrupted(Interruption::NewTokensGvien(v)) if v.len() == 2 && v[1] == 1 => (3, v[0]),
        SamplerError::LogitsError(LogitsError::InternalError(s)) if s.bytes().all(|b| b == b'z') => (4, s.len() as u32),
        SamplerError::RandWeightedError(rand::distributions::WeightedError::AllWeightsZero) => (5, 0),
        _ => (99, 0),
    }
}
/// what `failure` gives for the error of kind `kind` and mock `tag`
pub fn expected(kind: u8, tag: u32) -> (u8, u32) {
    (kind, if kind < 5 { tag } else { 0 })
}
pub const WRAPPERS: u64 = 4;
/// push `s` on the chain behind wrapper number `w`
pub fn push_wrapped(c: &mut SamplerChain, w: u64, s: impl Sampler + ConfigurableSampler<usize, f32> + Send + Sync + 'static) {
    match w {
        0 => {
            c.push_sampler(s);
        }
        1 => *c += Box::new(s) as Box<dyn Sampler>,
        2 => *c += Arc::new(Mutex::new(s)) as Arc<Mutex<dyn Sampler>>,
        3 => *c += Box::new(s) as Box<dyn BuildableSampler<usize, f32>>,
        _ => {
            let mut d = SamplerChain::new();
            d += s;
            *c += d;
        }
    }
}
