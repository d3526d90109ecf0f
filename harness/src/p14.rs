//! P14: temperature divides every logit; 0 disables it; positive temperatures keep the ranking.
use crate::lib_::*;
use crate::rt::*;
fn run(n: usize, f: impl Fn(usize) -> f32) {
    divide(any_state(n, f))
}
fn divide(l0: Logits) {
    let n = l0.len();
    let t = f_num("t");
    let mut l = l0.clone();
    if !go(&mut SampleTemperature::new(t), &mut (), &mut l, "P14.error") {
        return;
    }
    if t == 0.0 {
        reach("off");
        return check(same_logits(&l, &l0), "P14.disabled");
    }
    if l.len() != n {
        return check(false, "P14.length");
    }
    for i in 0..n {
        check(l[i].token_id == l0[i].token_id, "P14.token");
        check(same(l[i].logit, l0[i].logit / t) | (nan(l[i].logit) & nan(l0[i].logit / t)), "P14.divided");
    }
    if n > 0 {
        reach("on");
    }
    obs_logits(&l);
}
fn rank(n: usize) {
    let l0 = raw_fin(n);
    let t = f_num("t");
    assume((t > 0.0) & (t < f32::INFINITY));
    let mut l = l0.clone();
    if !go(&mut SampleTemperature::new(t), &mut (), &mut l, "P14.error") {
        return;
    }
    for i in 1..n {
        check(!(l0[i - 1].logit > l0[i].logit) | (l[i - 1].logit >= l[i].logit), "P14.rank");
    }
    obs_logits(&l);
}
/// the unit temperature and the default change no value
fn unit(n: usize) {
    let l0 = raw(n);
    let mut l = l0.clone();
    if go(&mut SampleTemperature::default(), &mut (), &mut l, "P14.error") {
        check(same_items(&l, &l0), "P14.unit");
    }
}
fn vast_divide(n: usize) {
    let l0 = vast(n, f_num("x0"));
    let t = f_num("t");
    assume(t != 0.0);
    let mut l = l0.clone();
    if !go(&mut SampleTemperature::new(t), &mut (), &mut l, "P14.error") {
        return;
    }
    check(l.len() == n, "P14.length");
    for i in 0..n {
        check((l[i].token_id == i as u32) & (same(l[i].logit, l0[i].logit / t) | (nan(l[i].logit) & nan(l0[i].logit / t))), "P14.divided");
    }
    obs_ends(&l);
}
entries! {
    q_used { used(); run(2, num) }
    q_vast { vast_divide(BIG) }
    q_long { divide(long(40, 17, f_num("x0"))) }
    q_long_sorted { divide(shaped(12)) }
    q_0 { run(0, num) }
    q_1 { require("off"); require("on"); run(1, num) }
    q_3 { require("off"); require("on"); run(3, num) }
    q_rank { rank(2) }
    q_unit { unit(2) }
    t_5 { run(5, num) }
    t_rank { rank(4) }
}
