//! P23: a missing random source or token history is reported; samplers that need neither work without.
use crate::lib_::*;
use crate::rt::*;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;
fn is_missing(e: &SamplerError, what: &str) -> bool {
    match e {
        SamplerError::MissingResource(s) => s == what,
        _ => false,
    }
}
/// a fixed fresh list or one with symbolic, already computed probabilities
fn light(n: usize) -> Logits {
    let mut l = if boolean("fresh") {
        mk(&[0.5, 1.5, -2.0, 0.0][..n])
    } else {
        let l = state_from(n, |i| f_in(XN[i], -1000.0, 1000.0));
        if n > 0 {
            assume((l[0].prob >= 0.5 / n as f32) & (l[n - 1].prob >= 1e-30));
        }
        distinct(&l);
        return l;
    };
    for i in 0..n {
        l[i].token_id = i as u32 + 5;
    }
    l
}
fn list(n: usize) -> Logits {
    let mut l = any_state_d(n, |i| f_in(XN[i], -1000.0, 1000.0));
    if l.get_softmax() && n > 0 {
        assume(l[0].prob >= 0.5 / n as f32);
        for i in 0..n {
            assume(l[i].prob >= 1e-30);
        }
    }
    if !l.get_sorted() {
        for i in 0..n {
            l[i].token_id = i as u32 + 5;
        }
    }
    l
}
/// run `s` with resources lacking the named one, in one of the possible ways
fn lack(s: &mut dyn Sampler, l: &mut Logits, what: &str) -> Result<(), SamplerError> {
    let tokens = what == "last_tokens";
    match pin(u("lack", 0, 3)) {
        0 => s.sample(&mut (), l).map(|_| ()),
        1 => s.sample(&mut NilSamplerResources::new(), l).map(|_| ()),
        2 => s.sample(&mut SimpleSamplerResources::new(None, None), l).map(|_| ()),
        _ => {
            let mut r = if tokens { res(Some(bits("rng", 32) as u32), None) } else { res(None, Some(vec![5, 6])) };
            s.sample(&mut r, l).map(|_| ())
        }
    }
}
fn missing(s: &mut dyn Sampler, what: &str, n: usize) {
    let l0 = if what == "rng" { light(n) } else { list(n) };
    let mut l = l0.clone();
    match lack(s, &mut l, what) {
        Ok(()) => {
            check(n == 0, "P23.papered-over");
            reach("empty");
        }
        Err(e) => {
            check(is_missing(&e, what), "P23.kind");
            check(n > 0, "P23.needless");
            reach("reported");
        }
    }
    check(s.sampled_token_id().is_none(), "P23.picked");
    check(subset(&l, &l0), "P23.logits-changed");
    check(!l.is_empty() | (n == 0), "P23.emptied");
    if what == "last_tokens" {
        check(same_logits(&l, &l0), "P23.list-changed");
    }
}
/// a disabled sampler needs nothing, whatever is there
fn disabled(s: &mut dyn Sampler, what: &str, n: usize) {
    let l0 = list(n);
    let mut l = l0.clone();
    check(lack(s, &mut l, what).is_ok(), "P23.disabled");
    check(same_logits(&l, &l0), "P23.disabled");
}
#[derive(Debug)]
struct CountRng(Arc<AtomicU32>);
impl rand::RngCore for CountRng {
    fn next_u32(&mut self) -> u32 {
        self.0.fetch_add(1, Ordering::Relaxed);
        0
    }
    fn next_u64(&mut self) -> u64 {
        self.next_u32() as u64
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.next_u32();
        for b in d.iter_mut() {
            *b = 0;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// works without resources, with the same result as with them, and leaves them alone
fn neither<S: Sampler + Clone>(s: S, n: usize) {
    neither_on(s, list(n))
}
fn neither_on<S: Sampler + Clone>(s: S, l0: Logits) {
    let (mut s1, mut s2) = (s.clone(), s);
    let (mut a, mut b) = (l0.clone(), l0);
    let x = match pin(u("none", 0, 2)) {
        0 => s1.sample_token(&mut (), &mut a).ok(),
        1 => s1.sample_token(&mut NilSamplerResources, &mut a).ok(),
        _ => s1.sample_token(&mut SimpleSamplerResources::new(None, None), &mut a).ok(),
    };
    let cnt = Arc::new(AtomicU32::new(0));
    let toks = vec![bits("t0", 32) as u32, bits("t1", 32) as u32];
    let mut r = SimpleSamplerResources::new(Some(Box::new(CountRng(cnt.clone()))), Some(toks.clone()));
    let y = s2.sample_token(&mut r, &mut b).ok();
    check(x.is_some(), "P23.works-without");
    check(x == y, "P23.same-result");
    check(same_logits(&a, &b), "P23.same-result");
    check(cnt.load(Ordering::Relaxed) == 0, "P23.rng-touched");
    check(toks_of(&r) == Some(toks), "P23.history-touched");
    reach("neither");
}
/// the penalties read the history but change nothing in the resources; random choice leaves the history alone
fn leaves<S: Sampler>(mut s: S, n: usize, rng: bool) {
    let mut l = if rng { light(n) } else { list(n) };
    let cnt = Arc::new(AtomicU32::new(0));
    let toks = vec![bits("t0", 32) as u32, bits("t1", 32) as u32];
    let mut r = SimpleSamplerResources::new(Some(Box::new(CountRng(cnt.clone()))), Some(toks.clone()));
    check(s.sample(&mut r, &mut l).is_ok(), "P23.works");
    check((cnt.load(Ordering::Relaxed) == 0) != rng, "P23.rng-touched");
    check(toks_of(&r) == Some(toks), "P23.history-touched");
}
/// access to the resources themselves
fn access() {
    let (hr, ht) = (boolean("has_rng"), boolean("has_tokens"));
    let v = bits("rng", 32) as u32;
    let t = vec![bits("t0", 32) as u32, bits("t1", 32) as u32];
    let extra = bits("t2", 32) as u32;
    let mut r = res(hr.then_some(v), ht.then(|| t.clone()));
    let mut calls = 0;
    let mut got = None;
    let x = r.with_rng_mut(&mut |g| {
        calls += 1;
        got = Some(g.next_u32())
    });
    check(x.is_ok() == hr, "P23.access-rng");
    check(got == hr.then_some(v), "P23.access-rng");
    if let Err(e) = x {
        check(is_missing(&e, "rng"), "P23.kind");
    }
    let mut seen = None;
    let x = r.with_last_tokens(&mut |l| {
        calls += 1;
        seen = Some(l.clone())
    });
    check(x.is_ok() == ht, "P23.access-tokens");
    check(seen == ht.then(|| t.clone()), "P23.access-tokens");
    if let Err(e) = x {
        check(is_missing(&e, "last_tokens"), "P23.kind");
    }
    let x = r.with_last_tokens_mut(&mut |l| {
        calls += 1;
        l.push(extra)
    });
    check(x.is_ok() == ht, "P23.access-tokens-mut");
    if let Err(e) = x {
        check(is_missing(&e, "last_tokens"), "P23.kind");
    }
    check(calls == hr as u32 + 2 * ht as u32, "P23.calls");
    let mut want = t;
    want.push(extra);
    check(toks_of(&r) == ht.then_some(want), "P23.access-tokens-mut");
    reach("access");
}
/// any two changes of the history in a row are kept as made; draws come from the given source one after the other
fn edits() {
    let n = pin(u("len", 0, 3)) as usize;
    let mut want: Vec<u32> = (0..n).map(|i| bits(["t0", "t1", "t2"][i], 32) as u32).collect();
    let (a, b) = (bits("rng", 32) as u32, bits("rng2", 32) as u32);
    let mut r = res2(Some((a, b)), Some(want.clone()));
    for e in ["edit0", "edit1"] {
        let k = pin(u(e, 0, 5));
        let x = bits(if e == "edit0" { "x" } else { "y" }, 32) as u32;
        let ed = |t: &mut Vec<u32>| match k {
            0 => t.clear(),
            1 => t.push(x),
            2 => {
                t.pop();
            }
            3 => {
                if !t.is_empty() {
                    t.remove(0);
                }
            }
            4 => t.extend([x, 7, x]),
            _ => {
                if let Some(f) = t.first_mut() {
                    *f = x
                }
            }
        };
        let mut calls = 0;
        let ok = r
            .with_last_tokens_mut(&mut |t| {
                calls += 1;
                ed(t)
            })
            .is_ok();
        check(ok & (calls == 1), "P23.edit");
        ed(&mut want);
        check(toks_of(&r).as_ref() == Some(&want), "P23.edit");
        let mut g = vec![];
        let ok = r.with_rng_mut(&mut |z| g.push(z.next_u32())).is_ok();
        check(ok & (g.len() == 1) & (g.first() == Some(if e == "edit0" { &a } else { &b })), "P23.draws");
    }
    reach("edited");
}
fn nil(r: &mut dyn HasSamplerResources) {
    let mut calls = 0;
    let a = r.with_rng_mut(&mut |_| calls += 1);
    check(matches!(a, Err(e) if is_missing(&e, "rng")), "P23.nil");
    let mut c2 = 0;
    let a = r.with_last_tokens(&mut |_| c2 += 1);
    check(matches!(a, Err(e) if is_missing(&e, "last_tokens")), "P23.nil");
    let mut c3 = 0;
    let a = r.with_last_tokens_mut(&mut |_| c3 += 1);
    check(matches!(a, Err(e) if is_missing(&e, "last_tokens")), "P23.nil");
    check(calls + c2 + c3 == 0, "P23.nil");
}
fn pen() -> f32 {
    let p = f_num("pen");
    assume(p > 1.0);
    p
}
fn on() -> (f32, f32) {
    let (a, b) = (f_num("a"), f_num("b"));
    assume((a != 0.0) | (b != 0.0));
    (a, b)
}
fn pos(n: &str) -> usize {
    let v = bits(n, 64);
    assume(v > 0);
    v as usize
}
/// very long list: a missing resource is still reported, samplers that need none still work
fn vast_missing(n: usize) {
    let l0 = vast_shaped(n, pin(u("shape", 0, 2)));
    let mut l = l0.clone();
    let r: Result<(), SamplerError> = match pin(u("which", 0, 3)) {
        0 => lack(&mut SampleRandDistrib::new(), &mut l, "rng"),
        1 => lack(&mut SampleMirostat2::default().mu(5.0), &mut l, "rng"),
        2 => lack(&mut SampleRepetition::new(pen(), pos("n")), &mut l, "last_tokens"),
        _ => lack(&mut SampleFreqPresence::new(1.0, f_num("b"), pos("n")), &mut l, "last_tokens"),
    };
    check(r.is_err(), "P23.papered-over");
    check(kept(&l, &l0).is_some() && !l.is_empty(), "P23.logits-changed");
}
/// a very long history is handed out, and changed, whole
fn long_history(n: usize) {
    let x = bits("x", 32) as u32;
    let at = [0, 1, n / 2, n - 1][pin(u("at", 0, 3)) as usize];
    let mut want: Vec<u32> = (0..n).map(|i| if i == at { x } else { i as u32 }).collect();
    let mut r = res(None, Some(want.clone()));
    check(toks_of(&r).as_ref() == Some(&want), "P23.access-tokens");
    let ok = r.with_last_tokens_mut(&mut |t| t.push(x)).is_ok();
    want.push(x);
    check(ok && toks_of(&r).as_ref() == Some(&want), "P23.edit");
    let mut n2 = 0;
    let ok = r.with_last_tokens_mut(&mut |t| n2 = t.len()).is_ok();
    check(ok && n2 == n + 1, "P23.edit");
}
entries! {
    q_vast { vast_missing(BIG) }
    q_long_history { let n = among("n", &[9, 300, 5000, BIG]); long_history(n) }
    q_access { require("access"); access() }
    q_edits { require("edited"); edits() }
    q_nil { nil(&mut ()); nil(&mut NilSamplerResources::new()); nil(&mut NilSamplerResources::default()) }
    q_rand { require("reported"); missing(&mut SampleRandDistrib::new(), "rng", 2) }
    q_rand_0 { require("empty"); missing(&mut SampleRandDistrib::new(), "rng", 0) }
    q_mirostat1 { require("reported"); missing(&mut SampleMirostat1::new(100, 5.0, 0.1), "rng", 2) }
    q_mirostat2 { require("reported"); missing(&mut SampleMirostat2::new(f_in("tau", -100.0, 100.0), f_num("eta")), "rng", 2) }
    q_mirostat2_0 { missing(&mut SampleMirostat2::new(f_num("tau"), f_num("eta")), "rng", 0) }
    q_mirostat1_0 { missing(&mut SampleMirostat1::new(bits("vocab", 64) as usize, f_num("tau"), f_num("eta")), "rng", 0) }
    q_repetition { require("reported"); let mut s = SampleRepetition::new(pen(), pos("n")); missing(&mut s, "last_tokens", 2) }
    q_repetition_off { let off = boolean("which"); let mut s = SampleRepetition::new(if off { f_in("pen", -1e30, 1.0) } else { pen() }, if off { pos("n") } else { 0 }); disabled(&mut s, "last_tokens", 2) }
    q_freq { require("reported"); let (a, b) = on(); let mut s = SampleFreqPresence::new(a, b, pos("n")); missing(&mut s, "last_tokens", 2) }
    q_freq_off { let off = boolean("which"); let (a, b) = if off { (0.0, 0.0) } else { on() }; let mut s = SampleFreqPresence::new(a, b, if off { pos("n") } else { 0 }); disabled(&mut s, "last_tokens", 2) }
    q_seq { require("reported"); let (a, b) = on(); let (m, n) = (bits("m", 64), bits("last", 64)); assume((m >= 2) & (n >= m)); let mut s = SampleSeqRepetition::new(a, b, m as usize, bits("tol", 64) as usize, bits("merge", 64) as usize, n as usize); missing(&mut s, "last_tokens", 2) }
    q_seq_off { let mut s = SampleSeqRepetition::new(f_num("a"), f_num("b"), u("m", 0, 1) as usize, 0, 1, bits("last", 64) as usize); disabled(&mut s, "last_tokens", 2) }
    q_temperature { require("neither"); neither(SampleTemperature::new(f_num("t")), 2) }
    q_greedy { require("neither"); neither(SampleGreedy::new(), 2) }
    q_flat_bias { require("neither"); neither(SampleFlatBias::new([(bits("b", 32) as u32, f_num("v"))]), 2) }
    q_top_k { require("neither"); neither(SampleTopK::new(bits("k", 64) as usize, bits("mk", 64) as usize), 2) }
    q_top_p { require("neither"); neither(SampleTopP::new(f_num("p"), bits("mk", 64) as usize), 2) }
    q_min_p { require("neither"); neither(SampleMinP::new(f_num("p"), u("mk", 0, 3) as usize), 2) }
    q_top_a { require("neither"); neither(SampleTopA::new(f_num("p"), f_num("q"), u("mk", 0, 3) as usize), 2) }
    q_tail_free { require("neither"); neither(SampleTailFree::new(f_num("z"), u("mk", 0, 3) as usize), 2) }
    q_typical { require("neither"); neither_on(SampleLocallyTypical::new(0.5, u("mk", 0, 2) as usize), light(2)) }
    t_typical { neither(SampleLocallyTypical::new(f_in("p", 0.0, 1.0), u("mk", 0, 2) as usize), 2) }
    q_leaves_rep { let mut s = SampleRepetition::default(); s = s.clone(); leaves(s, 2, false) }
    q_leaves_freq { leaves(SampleFreqPresence::new(f_in("a", 0.0, 10.0), f_in("b", 0.0, 10.0), 64), 2, false) }
    q_leaves_rand { leaves(SampleRandDistrib::new(), 2, true) }
    q_leaves_mirostat2 { leaves(SampleMirostat2::new(5.0, 0.1), 2, true) }
    t_tail_free_3 { neither(SampleTailFree::new(f_num("z"), u("mk", 0, 4) as usize), 3) }
    t_rand_3 { missing(&mut SampleRandDistrib::new(), "rng", 3) }
    t_mirostat2_3 { missing(&mut SampleMirostat2::new(f_in("tau", -100.0, 100.0), f_num("eta")), "rng", 3) }
}
