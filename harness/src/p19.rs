//! P19: a token picked by an earlier call is never reported after a later call that picked nothing.
use crate::lib_::*;
use crate::mock::*;
use crate::rt::*;
use std::sync::{Arc, Mutex};
/// a first call that picks something
/// (`n` 0: a fixed list)
fn first(s: &mut dyn Sampler, n: usize) -> bool {
    if n == 0 {
        let mut r = res(Some(bits("rng", 32) as u32), None);
        let t = s.sample_token(&mut r, &mut mk(&[0.5, 1.5, -2.0])).ok().flatten();
        check(t.is_some() & (t == s.sampled_token_id()), "P19.first-picks");
        return t.is_some();
    }
    let mut l = state_from(n, |i| f_in(XN[i], -1000.0, 1000.0));
    for i in 0..n {
        // what a softmax of at most n tokens gives
        assume(l[i].prob >= 1e-30);
    }
    assume(l[0].prob >= 0.5 / n as f32);
    let mut r = res(Some(bits("rng", 32) as u32), None);
    let t = s.sample_token(&mut r, &mut l).ok().flatten();
    check(t.is_some() & (t == s.sampled_token_id()), "P19.first-picks");
    t.is_some()
}
/// the second call: 0 empty list, 1 no random source, 2 weights that allow no choice
fn second(s: &mut dyn Sampler, how: u64) {
    let mut l = if how == 0 { Logits::default() } else { mk(&[1.0, 0.5]) };
    if how == 3 {
        for x in l.iter_mut() {
            x.logit = f32::NAN;
        }
    }
    if how == 2 {
        l.set_sorted(true);
        l.set_softmax(true);
    }
    let mut r = res(if how == 1 { None } else { Some(0) }, None);
    match s.sample_token(&mut r, &mut l) {
        Ok(t) => {
            check(t.is_none(), "P19.returned");
            check((how == 0) | (how == 3), "P19.error-expected");
            reach("nothing");
        }
        Err(_) => {
            check(how != 0, "P19.empty-is-no-error");
            reach("failed");
        }
    }
    check(s.sampled_token_id().is_none(), "P19.leak");
}
/// the sampler itself or behind a wrapper
fn wrap(s: impl Sampler + ConfigurableSampler<usize, f32> + 'static) -> Box<dyn Sampler> {
    match pin(u("wrap", 0, 4)) {
        0 => Box::new(s),
        1 => Box::new(Box::new(s) as Box<dyn Sampler>),
        2 => Box::new(Arc::new(Mutex::new(s)) as Arc<Mutex<dyn Sampler>>),
        3 => Box::new(Box::new(s) as Box<dyn BuildableSampler<usize, f32>>),
        _ => Box::new(SamplerChain::new() + s),
    }
}
fn two(s: impl Sampler + ConfigurableSampler<usize, f32> + 'static, hows: &[u64], n: usize) {
    let mut s = wrap(s);
    check(s.sampled_token_id().is_none(), "P19.fresh");
    if first(&mut *s, n) {
        let k = pin(u("how", 0, hows.len() as u64 - 1)) as usize;
        second(&mut *s, hows[k]);
        // and a third call picks again
        let _ = first(&mut *s, 0);
    }
}
fn tau() -> f32 {
    f_in("tau", 0.0, 10.0)
}
/// mirostat 1 that is made unusable between the calls
fn miro1_off() {
    let mut s = SampleMirostat1::new(100, 5.0, 0.1);
    if first(&mut s, 2) {
        let no_vocab = boolean("no_vocab");
        let mut s = if no_vocab { s.n_vocab(0) } else { s.m(0) };
        let mut l = mk(&[1.0, 0.5]);
        let x = s.sample(&mut res(Some(0), None), &mut l).is_err();
        check(x == no_vocab, "P19.error-expected");
        check(s.sampled_token_id().is_none(), "P19.leak");
    }
}
const FN: [&str; 6] = ["fail0", "fail1", "fail2", "fail3", "fail4", "fail5"];
const HN: [&str; 6] = ["has0", "has1", "has2", "has3", "has4", "has5"];
/// a chain of shared mocks whose behaviour differs between two runs
#[derive(Debug, Clone)]
struct Turn(Mock, Mock, u8);
impl Sampler for Turn {
    fn sample<'a>(&mut self, r: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.2 += 1;
        if self.2 > 1 { self.1.sample(r, l) } else { self.0.sample(r, l) }
    }
    fn sampled_token_id(&self) -> Option<u32> {
        match self.2 {
            0 => None,
            1 => self.0.last,
            _ => self.1.last,
        }
    }
}
fn chain(n: usize) {
    let mut c = SamplerChain::new();
    let mut ms: Vec<(Mock, Mock)> = vec![];
    for i in 0..n {
        // tokens 10.. belong to the first run, 20.. to the second
        let a = mock(i as u32, boolean(FN[i]), boolean(HN[i]).then_some(10 + i as u32));
        let b = mock(i as u32, boolean(FN[i + 3]), boolean(HN[i + 3]).then_some(20 + i as u32));
        c += Turn(a.clone(), b.clone(), 0);
        ms.push((a, b));
    }
    let mut l = Logits::default();
    let ok1 = c.sample(&mut (), &mut l).is_ok();
    check(ok1 == ms.iter().all(|m| !m.0.fail), "P19.error-expected");
    let t1 = c.sampled_token_id();
    check(t1.unwrap_or(10) < 20, "P19.chain-first");
    if !ok1 {
        return;
    }
    if boolean("extend") {
        c.push_sampler(mock(9, false, None));
        check(c.sampled_token_id().is_none(), "P19.extended");
        return;
    }
    let mut l = Logits::default();
    let x = c.sample_token(&mut (), &mut l);
    // the samplers of the second run that ran, in order
    let mut ran = vec![];
    for m in &ms {
        if m.1.fail {
            break;
        }
        ran.push(m.1.clone());
    }
    let t2 = c.sampled_token_id();
    if ran.len() == n {
        check(x.ok() == Some(t2), "P19.chain-return");
    } else {
        check(x.is_err(), "P19.error-expected");
        reach("chain-failed");
    }
    // whatever is reported was picked in this very run
    check(t2.is_none() | ran.iter().any(|m| m.tok == t2), "P19.chain-leak");
    reach("chain");
}
/// a chain whose last sampler picks nothing reports nothing, although an earlier one picked in the same or an earlier run
fn real_chain(n: usize) {
    let mut c = SamplerChain::new() + SampleTopK::new(bits("k", 64) as usize, 1) + SampleGreedy::new();
    if first(&mut c, n) {
        let mut l = Logits::default();
        let t = c.sample_token(&mut (), &mut l);
        check(matches!(t, Ok(None)), "P19.returned");
        check(c.sampled_token_id().is_none(), "P19.leak");
        if first(&mut c, n) {
            c += SampleTopK::new(1, 1);
            check(c.sampled_token_id().is_none(), "P19.extended");
            let mut l = mk(&[1.0]);
            let t = c.sample_token(&mut (), &mut l);
            check(matches!(t, Ok(None)), "P19.returned");
        }
    }
}
/// a part that picked on its own before it became part of a chain
fn used_part() {
    let mut s: Box<dyn Sampler> = match pin(u("which", 0, 4)) {
        0 => wrap(SampleGreedy::new()),
        1 => wrap(SampleRandDistrib::new()),
        2 => wrap(SampleMirostat2::new(5.0, 0.1)),
        3 => wrap(SampleMirostat1::new(100, 5.0, 0.1)),
        _ => Box::new(SamplerChain::new() + SampleTopK::new(2, 1) + SampleGreedy::new()),
    };
    if boolean("used") {
        let t = s.sample_token(&mut res(Some(0), None), &mut mk(&[0.5, 1.5, -2.0])).ok().flatten();
        check(t.is_some(), "P19.first-picks");
    }
    let mut c = SamplerChain::new();
    if boolean("lead") {
        c += SampleTemperature::new(0.5);
    }
    let end = pin(u("end", 0, 2));
    if end == 1 {
        let n = SamplerChain::new() + s;
        check(n.sampled_token_id().is_none(), "P19.extended");
        c += n;
    } else {
        c += s;
    }
    check(c.sampled_token_id().is_none(), "P19.extended");
    if end == 2 {
        c += mock(7, true, None);
    }
    let t = c.sample_token(&mut res(Some(0), None), &mut Logits::default());
    check(if end == 2 { t.is_err() } else { matches!(t, Ok(None)) }, "P19.returned");
    check(c.sampled_token_id().is_none(), "P19.leak");
}
/// many successful calls before the one that picks nothing
fn vast_calls(n: usize) {
    let calls = among("calls", &[1, 2, 16, n]);
    let mut s: Box<dyn Sampler> = match pin(u("which", 0, 3)) {
        0 => wrap(SampleGreedy::new()),
        1 => wrap(SampleRandDistrib::new()),
        2 => wrap(SampleMirostat2::new(5.0, 0.1)),
        _ => wrap(SampleMirostat1::new(100, 5.0, 0.1)),
    };
    let rng = u("rng", 0, 3) as u32;
    for _ in 0..calls {
        let t = s.sample_token(&mut res(Some(rng << 30), None), &mut mk(&[0.5, 1.5, -2.0])).ok().flatten();
        check(t.is_some() & (t == s.sampled_token_id()), "P19.first-picks");
    }
    for _ in 0..2 {
        let t = s.sample_token(&mut res(Some(0), None), &mut Logits::default());
        check(matches!(t, Ok(None)), "P19.returned");
        check(s.sampled_token_id().is_none(), "P19.leak");
    }
}
entries! {
    q_used_part { used_part() }
    q_vast_calls { vast_calls(300) }
    q_greedy { require("nothing"); two(SampleGreedy::new(), &[0, 3], 2) }
    q_rand { require("nothing"); require("failed"); two(SampleRandDistrib::new(), &[0, 1, 2], 2) }
    q_mirostat2 { require("nothing"); require("failed"); two(SampleMirostat2::new(tau(), 0.1), &[0, 1], 0) }
    q_mirostat1 { require("nothing"); require("failed"); two(SampleMirostat1::new(100, 5.0, 0.1), &[0, 1], 0) }
    q_mirostat1_off { miro1_off() }
    q_chain_1 { require("chain"); require("chain-failed"); chain(1) }
    q_chain_2 { require("chain"); require("chain-failed"); chain(2) }
    q_chain_3 { require("chain"); require("chain-failed"); chain(3) }
    q_real_chain { real_chain(2) }
    t_mirostat2_2 { two(SampleMirostat2::new(tau(), 0.1), &[0, 1], 2) }
    t_mirostat1_2 { two(SampleMirostat1::new(100, 5.0, 0.1), &[0, 1], 2) }
    t_mirostat2_3 { two(SampleMirostat2::new(tau(), 0.1), &[0, 1], 3) }
    t_rand_3 { two(SampleRandDistrib::new(), &[0, 1, 2], 3) }
}
