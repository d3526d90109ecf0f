//! P04: probabilities flagged valid are the softmax of the current logits; nothing stale survives a change.
use crate::lib_::*;
use crate::rt::*;
fn run(s: &mut impl Sampler, r: &mut dyn HasSamplerResources, l0: Logits) {
    let mut l = l0.clone();
    if s.sample(r, &mut l).is_ok() {
        check(softmax_honest(&l0, &l), "P04.stale");
        if l.get_softmax() {
            reach("valid");
        } else {
            reach("invalid");
        }
        obs_logits(&l);
    }
}
fn ensure(n: usize, f: impl Fn(usize) -> f32) {
    let l0 = any_state(n, f);
    if l0.get_softmax() {
        return;
    }
    let mut l = l0.clone();
    check(l.ensure_softmax().is_ok(), "P04.error");
    check(l.get_softmax() & l.get_sorted() & (l.len() == n), "P04.flags");
    let f = fresh_softmax(&l);
    let mut ok = true;
    let mut rng = true;
    for i in 0..n {
        ok &= close(l[i].prob, f[i], 1e-5);
        rng &= (l[i].prob >= 0.0) & (l[i].prob <= 1.0);
        if i > 0 {
            check(l[i - 1].prob >= l[i].prob, "P04.order");
        }
    }
    check(ok, "P04.softmax");
    check(rng, "P04.range");
    obs_logits(&l);
}
/// stale probabilities left from an earlier state do not matter
fn repeat(n: usize) {
    let mut l = raw_in(n, 100.0);
    for i in 0..n {
        l[i].prob = f_any(PN[i]);
    }
    let mut m = mk(&l.iter().map(|x| x.logit).collect::<Vec<_>>());
    let _ = l.ensure_softmax();
    let _ = m.ensure_softmax();
    check(same_logits(&l, &m), "P04.leftover");
    obs_logits(&l);
}
fn tok(n: &str) -> u32 {
    u(n, 0, 3) as u32
}
fn kb(i: usize) -> f32 {
    f_in(XN[i], -1000.0, 1000.0)
}
fn long_l(n: usize) -> Logits {
    let mut l = long(n, pin(u("at", 0, 2)) as usize * (n / 3), f_in("x0", -50.0, 50.0));
    if boolean("softmax") {
        let _ = l.ensure_softmax();
    }
    l
}
/// longer list: probabilities are the softmax of the logits
fn ensure_long(n: usize) {
    let mut l = long(n, n / 2, f_in("x0", -50.0, 50.0));
    check(l.ensure_softmax().is_ok(), "P04.error");
    check(l.get_softmax() & l.get_sorted() & (l.len() == n), "P04.flags");
    check(softmax_honest(&l, &l), "P04.softmax");
    let f = fresh_softmax(&l);
    for i in 0..n {
        check(close(l[i].prob, f[i], 1e-5), "P04.softmax");
    }
    obs_logits(&l);
}
/// very long list: values, order, total
fn vast_ensure(n: usize, x: f32) {
    let spread = among("spread", &[1, 7, 100]);
    let v: Vec<f32> = (0..n).map(|i| if i + 3 == n { x } else { (i * 7919 % n % spread) as f32 * 0.125 }).collect();
    let mut l = mk(&v);
    for i in 0..n {
        l[i].prob = 0.75;
    }
    check(l.ensure_softmax().is_ok(), "P04.error");
    check(l.get_softmax() & l.get_sorted() & (l.len() == n), "P04.flags");
    let mut total = 0f64;
    for i in 0..n {
        total += ((l[i].logit - l[0].logit) as f64).exp();
    }
    let mut sum = 0f64;
    for i in 0..n - 1 {
        let want = ((l[i].logit - l[0].logit) as f64).exp() / total;
        let p = l[i].prob as f64;
        check((p - want <= 1e-3 * want + 1e-7) & (want - p <= 1e-3 * want + 1e-7), "P04.softmax");
        check((i == 0) | (p <= if i > 0 { l[i - 1].prob as f64 } else { 1.0 }), "P04.order");
        sum += p;
    }
    check((sum < 1.01) & (sum > 0.99), "P04.range");
    obs_ends(&l);
}
entries! {
    q_vast_ensure { vast_ensure(301, f_in("x0", -60.0, -50.0)) }
    q_vaster_ensure { let n = among("n", &[2003, BIG]); vast_ensure(n, -55.0) }
    q_long_ensure { ensure_long(24) }
    q_long_top_k { run(&mut SampleTopK::new(bits("k", 64) as usize, bits("mk", 64) as usize), &mut (), long_l(12)) }
    q_long_bias { run(&mut SampleFlatBias::new([(tok("t") * 3, f_in("b", -10.0, 10.0))]), &mut (), long_l(12)) }
    q_long_repetition { let mut r = res(None, Some((0..12).map(|i| if i == 7 { tok("t") * 3 } else { 40 + i }).collect())); run(&mut SampleRepetition::new(f_in("penalty", -2.0, 8.0), bits("n", 64) as usize), &mut r, long_l(12)) }
    q_long_filter { let l = shaped(12); let w = pin(u("which", 0, 3)); let m = bits("mk", 64) as usize; let f = f_num("f");
        match w { 0 => run(&mut SampleTopP::new(f, m), &mut (), l), 1 => run(&mut SampleMinP::new(f, m), &mut (), l), 2 => run(&mut SampleTopA::new(f, 1.0, m), &mut (), l), _ => run(&mut SampleTailFree::new(f, m), &mut (), l) } }
    q_long_typical { let l = shaped(10); run(&mut SampleLocallyTypical::new(f_num("f"), bits("mk", 64) as usize), &mut (), l) }
    q_ensure_1 { ensure(1, fin) }
    q_ensure_2 { ensure(2, fin) }
    q_ensure_3 { ensure(3, fin) }
    q_ensure_empty { let mut l = Logits::default(); check(l.ensure_softmax().is_ok() & l.get_softmax() & l.is_empty(), "P04.error") }
    q_ensure_again { let l0 = state(3); let mut l = l0.clone(); check(l.ensure_softmax().is_ok(), "P04.error"); check(same_logits(&l, &l0), "P04.idempotent") }
    q_repeat { repeat(2) }
    q_flat_bias { require("invalid"); require("valid"); run(&mut SampleFlatBias::new([(tok("t"), f_in("b", -1000.0, 1000.0))]), &mut (), any_state(3, kb)) }
    q_repetition { require("invalid"); require("valid"); let mut r = res(None, Some(vec![tok("t")])); run(&mut SampleRepetition::new(f_in("penalty", -2.0, 8.0), 64), &mut r, any_state(3, kb)) }
    q_freq_presence { require("invalid"); require("valid"); let mut r = res(None, Some(vec![tok("t"), tok("t2")])); run(&mut SampleFreqPresence::new(f_in("freq", -8.0, 8.0), f_in("pres", -8.0, 8.0), 64), &mut r, any_state(2, kb)) }
    q_seq_repetition { require("invalid"); let mut r = res(None, Some(vec![0, 1, tok("t"), 0, 1])); run(&mut SampleSeqRepetition::new(f_in("flat", -8.0, 8.0), f_in("stack", -8.0, 8.0), 2, 0, 1, 64), &mut r, any_state(3, kb)) }
    q_temperature { require("invalid"); require("valid"); let t = f_in("temp", -100.0, 100.0); run(&mut SampleTemperature::new(t), &mut (), any_state(2, kb)) }
    q_top_k { require("invalid"); require("valid"); run(&mut SampleTopK::new(bits("k", 64) as usize, bits("mk", 64) as usize), &mut (), any_state(3, kb)) }
    q_top_p { require("invalid"); require("valid"); run(&mut SampleTopP::new(f_num("p"), u("mk", 0, 4) as usize), &mut (), any_state(3, kb)) }
    q_min_p { require("invalid"); require("valid"); run(&mut SampleMinP::new(f_num("p"), u("mk", 0, 4) as usize), &mut (), any_state(3, kb)) }
    q_top_a { require("invalid"); require("valid"); run(&mut SampleTopA::new(f_num("a1"), f_num("a2"), u("mk", 0, 4) as usize), &mut (), any_state(3, kb)) }
    q_tail_free { require("invalid"); require("valid"); run(&mut SampleTailFree::new(f_num("z"), u("mk", 0, 4) as usize), &mut (), any_state(3, kb)) }
    q_typical { require("invalid"); run(&mut SampleLocallyTypical::new(f_num("p"), u("mk", 0, 3) as usize), &mut (), any_pos(2, kb)) }
    q_greedy { run(&mut SampleGreedy::new(), &mut (), any_state(3, kb)) }
    q_rand { require("valid"); let mut r = res(Some(bits("rng", 32) as u32), None); run(&mut SampleRandDistrib::new(), &mut r, state_rand(2, kb)) }
    q_mirostat2 { require("valid"); let mut r = res(Some(bits("rng", 32) as u32), None); run(&mut SampleMirostat2::new(f_num("tau"), 0.1), &mut r, state_rand(2, kb)) }
    q_mirostat1 { require("valid"); let mut r = res(Some(bits("rng", 32) as u32), None); run(&mut SampleMirostat1::new(100, f_in("tau", 0.0, 10.0), 0.1), &mut r, state_rand(2, kb)) }
}
