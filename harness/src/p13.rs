//! P13: flat bias changes exactly its tokens; a token biased to minus infinity is never picked.
use crate::lib_::*;
use crate::rt::*;
fn bias(n: usize, nb: usize) {
    let mut l0 = any_state(n, num);
    for i in 0..n {
        l0[i].token_id = bits(IN[i], 32) as u32;
    }
    let bs: Vec<(u32, f32)> = (0..nb).map(|i| (bits(["b0", "b1", "b2"][i], 32) as u32, f_any(["v0", "v1", "v2"][i]))).collect();
    for i in 0..nb {
        for j in 0..i {
            assume(bs[i].0 != bs[j].0);
        }
    }
    let mut l = l0.clone();
    if !go(&mut SampleFlatBias::new(bs.clone()), &mut (), &mut l, "P13.error") {
        return;
    }
    if l.len() != n {
        return check(false, "P13.length");
    }
    let mut any = false;
    for i in 0..n {
        let x = l0[i].logit;
        let mut hit = false;
        let mut ok = true;
        for &(t, v) in bs.iter() {
            let h = t == l0[i].token_id;
            hit |= h;
            ok &= !h | same(l[i].logit, x + v) | (nan(l[i].logit) & nan(x + v));
        }
        any |= hit;
        check(l[i].token_id == l0[i].token_id, "P13.token");
        check(ok, "P13.bias");
        check(hit | same(l[i].logit, x), "P13.untouched");
    }
    if any {
        reach("hit");
        check(!l.get_softmax(), "P13.softmax-flag");
    } else {
        reach("miss");
        check(same_logits(&l, &l0), "P13.no-hit");
    }
    obs_logits(&l);
}
/// forbid one of n tokens, run `mid`, pick: the forbidden token is not picked
fn forbid(n: usize, mid: &mut [&mut dyn FnMut(&mut SimpleSamplerResources, &mut Logits) -> bool], pick: &mut dyn Sampler, rng: u32) {
    let mut l = raw_in(n, 50.0);
    let t = u("t", 0, n as u64 - 1) as u32;
    let mut r = res(Some(rng), Some(vec![0, 1]));
    let mut b = SampleFlatBias::new([(t, f32::NEG_INFINITY)]);
    if !go(&mut b, &mut r, &mut l, "P13.error") {
        return;
    }
    for m in mid.iter_mut() {
        if !m(&mut r, &mut l) {
            return check(false, "P13.error");
        }
    }
    let mut out = true;
    for x in l.iter() {
        out &= (x.token_id != t) | (x.logit == f32::NEG_INFINITY);
    }
    check(out, "P13.no-longer-forbidden");
    if pick.sample(&mut r, &mut l).is_err() {
        return check(false, "P13.error");
    }
    match pick.sampled_token_id() {
        Some(x) => {
            check(x != t, "P13.forbidden-picked");
            check((x as usize) < n, "P13.foreign-picked");
            reach("picked");
            obs(x as u64);
        }
        None => check(false, "P13.nothing-picked"),
    }
}
fn rng() -> u32 {
    bits("rng", 32) as u32
}
macro_rules! mid {
    ($($s:expr),*) => { &mut [$({ let mut s = $s; &mut (move |r: &mut SimpleSamplerResources, l: &mut Logits| s.sample(r, l).is_ok()) as &mut dyn FnMut(&mut SimpleSamplerResources, &mut Logits) -> bool }),*] };
}
/// of ordinary size or extreme
fn temp() -> f32 {
    match pin(u("band", 0, 2)) {
        0 => f_in("temp", 0.01, 100.0),
        1 => f_in("temp", 1e-30, 0.01),
        _ => f_in("temp", 100.0, 1e30),
    }
}
/// many biases on a long list
fn vast_bias(n: usize, nb: usize) {
    let l0 = vast(n, f_num("x0"));
    let t = n as u32 - 3;
    let v = f_any("v0");
    // the free one comes last, the others are spread over the list
    let mut bs: Vec<(u32, f32)> = (0..nb as u32 - 1).map(|i| (i * 3, if i % 5 == 0 { f32::NEG_INFINITY } else { i as f32 * 0.5 - 20.0 })).collect();
    bs.push((t, v));
    let mut l = l0.clone();
    if !go(&mut SampleFlatBias::new(bs.clone()), &mut (), &mut l, "P13.error") {
        return;
    }
    check(l.len() == n, "P13.length");
    let mut want: Vec<f32> = l0.iter().map(|x| x.logit).collect();
    for (t, v) in bs {
        want[t as usize] += v;
    }
    for i in 0..n {
        check((l[i].token_id == i as u32) & (same(l[i].logit, want[i]) | (nan(l[i].logit) & nan(want[i]))), "P13.bias");
    }
    obs_ends(&l);
}
/// biases in any order, on a list in any order
fn mixed_bias(n: usize, nb: usize, at: usize) {
    let mut l0 = mk(&(0..n).map(|i| i as f32 * 0.25 - 3.0).collect::<Vec<_>>());
    let x = f_num("x0");
    for i in 0..n {
        l0[i].token_id = (i * 7 % n) as u32 * 10 + 3;
    }
    l0[at].logit = x;
    let v = f_any("v0");
    // scattered over the token ids, every fourth one of no token in the list
    let mut bs: Vec<(u32, f32)> = (0..nb).map(|i| ((i * 11 % n) as u32 * 10 + if i % 4 == 2 { 5 } else { 3 }, if i % 5 == 1 { f32::NEG_INFINITY } else { i as f32 * 0.5 - 2.0 })).collect();
    let k = pin(u("where", 0, nb as u64 - 1)) as usize;
    bs[k].1 = v;
    let mut l = l0.clone();
    if !go(&mut SampleFlatBias::new(bs.clone()), &mut (), &mut l, "P13.error") {
        return;
    }
    check(l.len() == n, "P13.length");
    for i in 0..n {
        let want = match bs.iter().find(|b| b.0 == l0[i].token_id) {
            Some(b) => l0[i].logit + b.1,
            None => l0[i].logit,
        };
        check((l[i].token_id == l0[i].token_id) & (same(l[i].logit, want) | (nan(l[i].logit) & nan(want))), "P13.bias");
    }
    obs_logits(&l);
}
/// the bias list is changed in between
fn edited(n: usize) {
    let l0 = raw_in(n, 50.0);
    let (v, w) = (f_any("v0"), f_any("v1"));
    let t = pin(u("t", 0, n as u64 - 1)) as u32;
    let o = (t + 1) % n as u32;
    let mut s = SampleFlatBias::new([(t, v)]);
    let how = pin(u("how", 0, 3));
    let mut want: Vec<f32> = l0.iter().map(|x| x.logit).collect();
    for round in 0..2 {
        let mut l = l0.clone();
        if s.sample(&mut (), &mut l).is_err() {
            return check(false, "P13.error");
        }
        if round == 0 {
            want[t as usize] += v;
        }
        check(l.len() == n, "P13.length");
        for i in 0..n {
            check((l[i].token_id == i as u32) & (same(l[i].logit, want[i]) | (nan(l[i].logit) & nan(want[i]))), "P13.bias");
        }
        if round == 1 {
            obs_logits(&l);
            return;
        }
        match how {
            0 => s.push((o, w)),
            1 => s[0] = (o, w),
            2 => s[0].1 = w,
            _ => s.clear(),
        }
        want = l0.iter().map(|x| x.logit).collect();
        match how {
            0 => {
                want[t as usize] += v;
                want[o as usize] += w;
            }
            1 => want[o as usize] += w,
            2 => want[t as usize] += w,
            _ => {}
        }
    }
}
entries! {
    q_mixed_12 { mixed_bias(13, 12, 4) }
    q_mixed_40 { mixed_bias(41, 40, 11) }
    q_mixed_7 { mixed_bias(9, 7, 0) }
    q_edited { edited(3) }
    q_used { used(); bias(2, 2) }
    q_vast_bias { vast_bias(1501, 300) }
    q_bias_3x2 { require("hit"); require("miss"); bias(3, 2) }
    q_bias_2x3 { require("hit"); bias(2, 3) }
    q_bias_0 { bias(2, 0) }
    q_greedy { require("picked"); forbid(3, &mut [], &mut SampleGreedy::new(), 0) }
    q_greedy_temp { require("picked"); forbid(3, mid![SampleTemperature::new(temp())], &mut SampleGreedy::new(), 0) }
    q_greedy_rep { require("picked"); forbid(3, mid![SampleRepetition::new(f_in("pen", 1.0, 100.0), 64)], &mut SampleGreedy::new(), 0) }
    q_greedy_freq { require("picked"); forbid(3, mid![SampleFreqPresence::new(f_in("freq", -100.0, 100.0), f_in("pres", -100.0, 100.0), 64)], &mut SampleGreedy::new(), 0) }
    q_greedy_topk { require("picked"); forbid(3, mid![SampleTopK::new(bits("k", 64) as usize, 1)], &mut SampleGreedy::new(), 0) }
    q_greedy_typical { require("picked"); forbid(2, mid![SampleLocallyTypical::new(f_in("p", 0.0, 1.0), u("mk", 1, 2) as usize)], &mut SampleGreedy::new(), 0) }
    q_rand { require("picked"); forbid(2, &mut [], &mut SampleRandDistrib::new(), rng()) }
    t_rand_3 { require("picked"); forbid(3, &mut [], &mut SampleRandDistrib::new(), rng()) }
    q_rand_temp { require("picked"); forbid(2, mid![SampleTemperature::new(temp())], &mut SampleRandDistrib::new(), rng()) }
    q_rand_topk { require("picked"); forbid(2, mid![SampleTopK::new(bits("k", 64) as usize, 1)], &mut SampleRandDistrib::new(), rng()) }
    q_rand_topp { require("picked"); forbid(2, mid![SampleTopP::new(f_num("p"), 1)], &mut SampleRandDistrib::new(), rng()) }
    q_rand_minp { require("picked"); forbid(2, mid![SampleMinP::new(f_num("p"), 2)], &mut SampleRandDistrib::new(), rng()) }
    q_rand_topa { require("picked"); forbid(2, mid![SampleTopA::new(f_in("a1", 0.0, 1.0), f_in("a2", 0.0, 4.0), 2)], &mut SampleRandDistrib::new(), rng()) }
    q_rand_typical { require("picked"); forbid(2, mid![SampleLocallyTypical::new(f_in("p", 0.0, 0.9), 1)], &mut SampleRandDistrib::new(), rng()) }
    q_mirostat2 { require("picked"); forbid(2, &mut [], &mut SampleMirostat2::new(f_in("tau", 0.0, 10.0), 0.1), rng()) }

    t_mirostat1 { forbid(2, &mut [], &mut SampleMirostat1::new(100, f_in("tau", 0.0, 10.0), 0.1), rng()) }
    t_rand_tail_free { forbid(3, mid![SampleTailFree::new(f_in("z", 0.0, 1.0), 1)], &mut SampleRandDistrib::new(), rng()) }
    t_rand_temp_topp { forbid(3, mid![SampleTemperature::new(temp()), SampleTopP::new(f_in("p", 0.0, 1.0), 1)], &mut SampleRandDistrib::new(), rng()) }
}
