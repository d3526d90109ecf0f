//! P09: tail-free cuts where the cumulative normalised curvature passes z; locally typical keeps the most typical tokens.
use crate::lib_::*;
use crate::rt::*;
fn tail_free(l0: Logits) {
    tail_free_at(l0, f_num("z"), bits("mk", 64) as usize)
}
/// very long sorted list with probabilities falling quadratically
fn bent(n: usize) -> Logits {
    let mut l = vast_shaped(n, 0);
    let total = (n as f64) * (n as f64 + 1.0) * (2.0 * n as f64 + 1.0) / 6.0;
    for i in 0..n {
        l[i].prob = (((n - i) as f64) * ((n - i) as f64) / total) as f32;
    }
    l
}
fn tail_free_at(l0: Logits, z: f32, mk: usize) {
    let n = l0.len();
    let mut l = l0.clone();
    if !go(&mut SampleTailFree::new(z, mk), &mut (), &mut l, "P09.tail-free-error") {
        return;
    }
    if z >= 1.0 || n <= 2 {
        return check(same_logits(&l, &l0), "P09.tail-free-disabled");
    }
    check(prefix(&l, &l0), "P09.tail-free-prefix");
    let m = l.len();
    let d: Vec<f32> = (0..n - 1).map(|i| l0[i].prob - l0[i + 1].prob).collect();
    let mut s: Vec<f32> = (0..n - 2).map(|i| (d[i] - d[i + 1]).abs()).collect();
    let mut sum = 0f32;
    for x in s.iter() {
        sum += *x;
    }
    for x in s.iter_mut() {
        *x /= sum;
    }
    let mut cum = 0f32;
    // first position at which to cut, n when none
    for i in 0..n {
        let cut = if i < n - 2 {
            cum += s[i];
            (cum > z) & (i >= mk)
        } else {
            false
        };
        if i < m {
            check(!cut, "P09.tail-free-too-long");
        } else if i == m {
            check(cut, "P09.tail-free-too-short");
        }
    }
    if m < n {
        reach("cut");
        check(!l.get_softmax(), "P09.softmax-flag");
    }
    if n > 100 {
        obs_ends(&l)
    } else {
        obs_logits(&l)
    }
}
fn typical(l0: Logits, p: f32, mk: usize) {
    let n = l0.len();
    let mut l = l0.clone();
    if !go(&mut SampleLocallyTypical::new(p, mk), &mut (), &mut l, "P09.typical-error") {
        return;
    }
    let m = l.len();
    check(subset(&l, &l0), "P09.typical-subset");
    check((m >= 1) | (n == 0), "P09.typical-empty");
    check((m >= mk) | (m == n), "P09.typical-min-keep");
    check(!l.get_softmax() & !l.get_sorted(), "P09.typical-flags");
    let mut ent = 0f32;
    for x in l0.iter() {
        if x.prob > 0.0 {
            ent += -x.prob * x.prob.ln();
        }
    }
    let score = |x: &Logit| (-x.prob.ln() - ent).abs();
    // kept tokens are at least as typical as removed ones, listed most typical first
    for i in 1..m {
        check(!(score(&l[i]) < score(&l[i - 1])), "P09.typical-order");
    }
    let mut best = true;
    for j in 0..n {
        let mut kept = false;
        for i in 0..m {
            kept |= l[i].token_id == l0[j].token_id;
        }
        if m > 0 {
            best &= kept | !(score(&l0[j]) < score(&l[m - 1]));
        }
    }
    check(best, "P09.typical-kept-best");
    // cut as soon as the kept mass exceeds p and the minimum is reached
    let mut cum = 0f32;
    for i in 0..m {
        cum += l[i].prob;
        let full = (cum > p) & (i + 1 >= mk);
        if i + 1 < m {
            check(!full, "P09.typical-too-long");
        } else {
            check(full | (m == n), "P09.typical-too-short");
        }
    }
    if m < n {
        reach("cut");
    }
    obs_logits(&l);
}
/// the same on a very long list with ids below its length, in time linear in its length
fn typical_far(l0: Logits, p: f32, mk: usize) {
    let n = l0.len();
    let mut l = l0.clone();
    if !go(&mut SampleLocallyTypical::new(p, mk), &mut (), &mut l, "P09.typical-error") {
        return;
    }
    let m = l.len();
    check((m >= 1) & (m <= n) & (m >= mk.min(n)), "P09.typical-min-keep");
    check(!l.get_softmax() & !l.get_sorted(), "P09.typical-flags");
    let mut ent = 0f32;
    for x in l0.iter() {
        if x.prob > 0.0 {
            ent += -x.prob * x.prob.ln();
        }
    }
    let score = |x: &Logit| (-x.prob.ln() - ent).abs();
    let mut kept = vec![false; n];
    let mut at = vec![0; n];
    for (i, x) in l0.iter().enumerate() {
        at[x.token_id as usize] = i;
    }
    let (mut once, mut order, mut best) = (true, true, true);
    let mut cum = 0f32;
    let mut last = 0f32;
    for i in 0..m {
        let t = l[i].token_id as usize;
        once &= t < n && !kept[at[t]] && same(l[i].logit, l0[at[t]].logit);
        if !once {
            break;
        }
        kept[at[t]] = true;
        let s = score(&l[i]);
        order &= s >= last;
        last = s;
        cum += l[i].prob;
        let full = (cum > p) & (i + 1 >= mk);
        if i + 1 < m {
            check(!full, "P09.typical-too-long");
        } else {
            check(full | (m == n), "P09.typical-too-short");
        }
    }
    check(once, "P09.typical-subset");
    check(order, "P09.typical-order");
    for j in 0..n {
        best &= kept[j] || score(&l0[j]) >= last;
    }
    check(best, "P09.typical-kept-best");
    if m < n {
        reach("cut");
    }
    obs_ends(&l);
}
/// probabilities bounded away from 0
fn pstate(n: usize, lo: f32) -> Logits {
    let l = state(n);
    for i in 0..n {
        assume(l[i].prob >= lo);
    }
    distinct(&l);
    l
}
entries! {
    q_vast_tail_free { require("cut"); let b = among("band", &[0, 1, 2]); let z = f_in("z", [0.003, 0.5, 0.995][b], [0.00305, 0.50002, 0.99502][b]); tail_free_at(bent(BIG), z, among("mk", &[0, 257, 65537])) }
    q_vast_typical { require("cut"); let b = among("band", &[0, 1, 2]); let p = f_in("p", [0.003, 0.5, 0.995][b], [0.00305, 0.50002, 0.99502][b]); typical_far(bent(BIG), p, among("mk", &[0, 257, 65537])) }
    q_used_tail_free { used(); tail_free(state(3)) }
    q_used_typical { used(); typical(shaped(4), f_in("p", 0.0, 0.999), among("mk", &[1, 2])) }
    q_long_tail_free { require("cut"); tail_free(shaped(20)) }
    q_long_typical { require("cut"); typical(shaped(16), f_num("p"), bits("mk", 64) as usize) }
    q_tail_free_2 { tail_free(state(2)) }
    q_tail_free_3 { require("cut"); tail_free(state(3)) }
    q_tail_free_4 { require("cut"); tail_free(state(4)) }
    q_tail_free_0 { tail_free(state(0)) }
    q_tail_free_1 { tail_free(state(1)) }
    q_typical_0 { typical(Logits::default(), f_any("p"), bits("mk", 64) as usize) }
    q_typical_1 { typical(state(1), f_num("p"), bits("mk", 64) as usize) }
    q_typical_2 { require("cut"); let l = state(2); distinct(&l); typical(l, f_num("p"), bits("mk", 64) as usize) }
    q_typical_zero { let mut l = state(2); distinct(&l); l[1].prob = 0.0; typical(l, f_num("p"), bits("mk", 64) as usize) }
    q_typical_3 { require("cut"); typical(pstate(3, 1e-6), f_num("p"), bits("mk", 64) as usize) }
    t_tail_free_5 { tail_free(state(5)) }
    t_typical_3 { let l = state(3); distinct(&l); typical(l, f_num("p"), bits("mk", 64) as usize) }
}
