//! P17: mirostat cuts by its target surprise and moves its bound by the observed surprise.
use crate::lib_::*;
use crate::rt::*;
fn opt(s: &impl ConfigurableSampler<usize, f32>, k: &str) -> f32 {
    match s.get_option(k) {
        Ok(SamplerOptionValue::Float(f)) => f as f32,
        _ => {
            check(false, "P17.option");
            f32::NAN
        }
    }
}
fn st(n: usize) -> Logits {
    let l = state_from(n, |i| f_in(XN[i], -1000.0, 1000.0));
    distinct(&l);
    if n > 0 {
        assume(l[0].prob >= 0.5 / n as f32);
        assume(l[n - 1].prob >= 1e-30);
    }
    l
}
fn rng() -> u32 {
    bits("rng", 32) as u32
}
/// one draw decides
fn draw(r: u32) -> SimpleSamplerResources {
    res2(Some((r, bits("rng2", 32) as u32)), None)
}
/// after the cut of `l0` to `l`: the pick is the random choice among `l`, the bound moved by the picked token's surprise
fn finish(l0: &Logits, l: &Logits, tok: Option<u32>, r: u32, tau: f32, eta: f32, mu: f32, mu2: f32) {
    check(prefix(l, l0), "P17.prefix");
    let Some(t) = tok else {
        return check(l.is_empty(), "P17.no-token");
    };
    let k = pin(idx_of(l, t) as u64) as usize;
    if k >= l.len() {
        return check(false, "P17.token-from-rest");
    }
    // the list with freshly computed probabilities
    let mut f = l.clone();
    if l.len() < l0.len() {
        f.set_softmax(false);
    }
    if f.ensure_softmax().is_err() {
        return check(false, "P17.error");
    }
    let mut p = SampleRandDistrib::new();
    let mut g = f.clone();
    let _ = p.sample(&mut draw(r), &mut g);
    check(p.sampled_token_id() == tok, "P17.choice");
    let s = -f[k].prob.log2();
    let want = mu - eta * (s - tau);
    let tol = 1e-4 * (mu.abs() + eta.abs() * (s.abs() + tau.abs()));
    check(close(mu2, want, tol), "P17.feedback");
    reach("picked");
    obs_f(mu2);
}
fn two(l0: Logits) {
    let n = l0.len();
    let (tau, eta, mu) = (f_in("tau", -100.0, 100.0), f_in("eta", -10.0, 10.0), f_in("mu", -1000.0, 1000.0));
    let r = rng();
    let mut s = SampleMirostat2::default().tau(tau).eta(eta).mu(mu);
    let mut l = l0.clone();
    if !go(&mut s, &mut draw(r), &mut l, "P17.error") {
        return;
    }
    let mut probs = l0.clone();
    if probs.ensure_softmax().is_err() {
        return check(false, "P17.error");
    }
    // length of the longest prefix without a token above the bound
    let mut keep = 0;
    let mut open = true;
    for i in 0..n {
        open &= !(-probs[i].prob.log2() > mu);
        keep += open as usize;
    }
    let keep = if keep < 1 && n > 0 { 1 } else { keep };
    check(l.len() == keep, "P17.cut");
    if l.len() < n {
        reach("cut");
    } else {
        reach("all");
    }
    finish(&probs, &l, s.sampled_token_id(), r, tau, eta, mu, opt(&s, "mu"));
    check(same(opt(&s, "tau"), tau) & same(opt(&s, "eta"), eta), "P17.parameters");
}
/// a second call cuts by the bound the first one left
fn second(n: usize) {
    let l0 = st(n);
    let (tau, eta, mu) = (f_in("tau", -100.0, 100.0), f_in("eta", -10.0, 10.0), f_in("mu", -1000.0, 1000.0));
    let r = rng();
    let mut s = SampleMirostat2::default().tau(tau).eta(eta).mu(mu);
    let (mut a, mut b, mut c) = (l0.clone(), l0.clone(), l0);
    if go(&mut s, &mut res(Some(r), None), &mut a, "P17.error") {
        let mut z = SampleMirostat2::default().tau(tau).eta(eta).mu(opt(&s, "mu"));
        if go(&mut s, &mut res(Some(r), None), &mut b, "P17.error") && go(&mut z, &mut res(Some(r), None), &mut c, "P17.error") {
            check(same_logits(&b, &c) & (s.sampled_token_id() == z.sampled_token_id()) & same(opt(&s, "mu"), opt(&z, "mu")), "P17.second-call");
        }
    }
}
fn one(l0: Logits, m: usize, nv: usize) {
    one_at(l0, m, nv, f_in("mu", -100.0, 100.0))
}
/// any size of the vocabulary, down to fewer than listed, and set bounds
fn vocab(n: usize) {
    let mut l = shaped(n);
    for i in 0..n {
        l[i].prob = [0.3, 0.25, 0.15, 0.1, 0.08, 0.05, 0.04, 0.03][i];
    }
    let nv = among("vocab", &[2, 3, n - 1, n, n + 1, 100, usize::MAX]);
    let m = among("m", &[2, 5, n, 100]);
    let mu = among("mu", &[0, 1, 2, 3, 4, 6, 9]) as f32 * 0.4 - 0.3;
    one_at(l, m, nv, mu)
}
fn one_at(l0: Logits, m: usize, nv: usize, mu: f32) {
    let n = l0.len();
    let (tau, eta) = (f_in("tau", -100.0, 100.0), f_in("eta", -10.0, 10.0));
    let r = rng();
    let mut s = SampleMirostat1::default().n_vocab(nv).tau(tau).eta(eta).mu(mu).m(m);
    let mut l = l0.clone();
    if !go(&mut s, &mut draw(r), &mut l, "P17.error") {
        return;
    }
    if m == 0 || n == 0 {
        return check(same_logits(&l, &l0) & s.sampled_token_id().is_none() & same(opt(&s, "mu"), mu), "P17.m-0");
    }
    let (mut a, mut b) = (0f32, 0f32);
    for i in 0..(n - 1).min(m - 1) {
        let t = ((i as f32 + 2.0) / (i as f32 + 1.0)).ln();
        a += t * (l0[i].prob / l0[i + 1].prob);
        b += t * t;
    }
    let sh = a / b;
    let eh = sh - 1.0;
    let k = (eh * mu.exp2() / (1.0 - (nv as f32).powf(-eh))).powf(1.0 / sh);
    let at = |f: f32| {
        let v = (k * f) as u64;
        let v = if v < 1 { 1 } else { v };
        (if v > n as u64 { n as u64 } else { v }) as usize
    };
    // rounding of the estimate may only matter next to an integer
    check((l.len() == at(1.0)) | (l.len() == at(1.0 - 1e-4)) | (l.len() == at(1.0 + 1e-4)), "P17.cut");
    if l.len() < n {
        reach("cut");
    } else {
        reach("all");
    }
    finish(&l0, &l, s.sampled_token_id(), r, tau, eta, mu, opt(&s, "mu"));
}
/// very long list: cut of mirostat 2 around the limits of small integers, uniform or linear probabilities
fn vast_two(n: usize) {
    let l0 = vast_shaped(n, 1);
    let at = among("at", &[255, 256, 65535, 65536]);
    let mu = -l0[at.min(n - 1)].prob.log2() + f_in("d", -1e-5, 1e-5);
    let r = u("rng", 0, 0xff) as u32;
    let mut s = SampleMirostat2::default().tau(5.0).eta(0.1).mu(mu);
    let mut l = l0.clone();
    if !go(&mut s, &mut draw(r), &mut l, "P17.error") {
        return;
    }
    let m = l.len();
    check(prefix(&l, &l0), "P17.prefix");
    check((m == 1) | !(-l0[m - 1].prob.log2() > mu), "P17.cut");
    check((m == n) || -l0[m].prob.log2() > mu, "P17.cut");
    let Some(t) = s.sampled_token_id() else {
        return check(false, "P17.no-token");
    };
    let k = pin(idx_of(&l, t) as u64) as usize;
    if k >= m {
        return check(false, "P17.token-from-rest");
    }
    // the probabilities are those of the tokens left
    let mut sum = 0f64;
    for x in l.iter() {
        sum += x.prob as f64;
    }
    check((sum > 0.99) & (sum < 1.01), "P17.probabilities");
    let want = mu - 0.1 * (-l[k].prob.log2() - 5.0);
    check(close(opt(&s, "mu"), want, 1e-3), "P17.feedback");
    obs(m as u64);
}
entries! {
    q_v2_vast { vast_two(BIG) }
    q_v2_long { let l = shaped(10); if l[9].prob > 0.0 { two(l) } }
    q_v1_long { let l = shaped(10); if l[9].prob > 0.0 { one(l, 4, 1000) } }
    q_v1_long_m { let l = shaped(10); if l[9].prob > 0.0 { one(l, 100, 50000) } }
    q_v2_0 { two(Logits::default()) }
    q_v2_1 { require("picked"); require("all"); two(st(1)) }
    q_v2_2 { require("picked"); require("cut"); require("all"); two(st(2)) }
    q_v2_3 { require("cut"); two(st(3)) }
    q_v2_second { second(2) }
    q_v1_vocab { require("cut"); vocab(8) }
    q_v1_0 { one(Logits::default(), 100, 100) }
    q_v1_2 { require("picked"); require("cut"); require("all"); one(st(2), 100, 100) }
    q_v1_3 { require("cut"); one(st(3), 100, 1000) }
    q_v1_m2 { one(st(3), 2, 1000) }
    q_v1_m0 { one(st(2), 0, 100) }
    t_v2_raw_2 { two(raw_in(2, 50.0)) }
    t_v2_4 { two(st(4)) }
    t_v1_4 { one(st(4), 3, 1000) }
    t_v1_vocab { one(st(2), 100, u("vocab", 2, 100000) as usize) }
}
