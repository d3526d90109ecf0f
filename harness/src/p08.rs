//! P08: Min-P and Top-A remove exactly the tokens below a threshold that scales with the top probability.
use crate::lib_::*;
use crate::rt::*;
/// `m` items kept out of `l0` with removal threshold `thr` and at least `keep` items protected
fn exact(l0: &Logits, l: &Logits, thr: f32, keep: usize) {
    let n = l0.len();
    let m = l.len();
    check(prefix(l, l0), "P08.prefix");
    let keep = if keep < 1 { 1 } else { keep };
    for i in 0..n {
        let below = (l0[i].prob < thr) & (i >= keep);
        if i < m {
            check(!below, "P08.kept-below");
        } else {
            check(below, "P08.removed-above");
        }
    }
    if m < n {
        reach("cut");
        check(!l.get_softmax(), "P08.softmax-flag");
    }
    obs_logits(l);
}
fn min_p(l0: Logits) {
    let n = l0.len();
    let (p, mk) = (f_num("p"), bits("mk", 64) as usize);
    let mut l = l0.clone();
    if go(&mut SampleMinP::new(p, mk), &mut (), &mut l, "P08.error") {
        if p == 0.0 || n == 0 {
            return check(same_logits(&l, &l0), "P08.disabled");
        }
        exact(&l0, &l, p * l0[0].prob, mk);
    }
}
fn top_a(l0: Logits) {
    let n = l0.len();
    let (a1, a2, mk) = (f_num("a1"), f_num("a2"), bits("mk", 64) as usize);
    let mut l = l0.clone();
    if go(&mut SampleTopA::new(a1, a2, mk), &mut (), &mut l, "P08.error") {
        if a1 == 0.0 || a2 == 0.0 || n == 0 {
            return check(same_logits(&l, &l0), "P08.disabled");
        }
        exact(&l0, &l, l0[0].prob.powf(a2) * a1, mk);
    }
}
/// unsorted input behaves like the sorted, softmaxed one
fn raw_same(n: usize, s: &mut impl Sampler) {
    let mut a = raw_fin(n);
    let mut b = a.clone();
    let _ = b.ensure_softmax();
    if go(s, &mut (), &mut a, "P08.error") & go(s, &mut (), &mut b, "P08.error") {
        check(same_items(&a, &b), "P08.raw");
        obs_logits(&a);
    }
}
fn pos(n: &str, hi: f32) -> f32 {
    let f = f_in(n, 0.0, hi);
    assume(f > 0.0);
    f
}
/// very long list, threshold in a narrow band
fn vast_thr(n: usize, mk: usize) {
    let l0 = vast_shaped(n, 1);
    let b = among("band", &[0, 1, 2]);
    let p = f_in("p", [0.00001, 0.5, 0.99][b], [0.00003, 0.50003, 1.0001][b]);
    let mut l = l0.clone();
    let w = boolean("which");
    let ok = if w { go(&mut SampleMinP::new(p, mk), &mut (), &mut l, "P08.error") } else { go(&mut SampleTopA::new(p, 1.0, mk), &mut (), &mut l, "P08.error") };
    if ok {
        let (m, thr) = (l.len(), if w { p * l0[0].prob } else { l0[0].prob.powf(1.0) * p });
        check(prefix(&l, &l0), "P08.prefix");
        let keep = mk.max(1);
        check(m >= keep.min(n), "P08.removed-above");
        // descending: the ends of both parts decide
        check((m <= keep) | !(l0[m - 1].prob < thr), "P08.kept-below");
        check((m == n) | (m < keep) || l0[m].prob < thr, "P08.removed-above");
        obs_ends(&l);
    }
}
entries! {
    q_used_min_p { used(); min_p(state(2)) }
    q_used_top_a { used_far(); top_a(shaped(2)) }
    q_vast { let mk = among("mk", &EDGES); vast_thr(3000, mk) }
    q_vast_big { let mk = among("mk", &EDGES); let l0 = vast_shaped(BIG, 0); let mut l = l0.clone(); let p = f_in("p", 0.9, 1.1); let ok = if boolean("which") { go(&mut SampleMinP::new(p, mk), &mut (), &mut l, "P08.error") } else { go(&mut SampleTopA::new(p, 1.0, mk), &mut (), &mut l, "P08.error") }; if ok { check(prefix(&l, &l0) & ((l.len() == BIG) | (l.len() == mk.min(BIG))), "P08.prefix"); obs_ends(&l) } }
    q_long_min_p { min_p(shaped(20)) }
    q_long_top_a { top_a(shaped(8)) }
    q_min_p_3 { require("cut"); min_p(state(3)) }
    q_min_p_4 { min_p(state(4)) }
    q_min_p_0 { min_p(state(0)) }
    q_min_p_1 { min_p(state(1)) }
    q_top_a_3 { require("cut"); top_a(state(3)) }
    q_top_a_4 { top_a(state(4)) }
    q_top_a_0 { top_a(state(0)) }
    q_top_a_1 { top_a(state(1)) }
    q_min_p_raw { let p = pos("p", 1.0); let m = pin(u("mk", 0, 2)) as usize; raw_same(3, &mut SampleMinP::new(p, m)) }
    q_top_a_raw { let p = pos("a1", 1.0); let q = pos("a2", 4.0); let m = pin(u("mk", 0, 1)) as usize; raw_same(2, &mut SampleTopA::new(p, q, m)) }
    t_min_p_6 { min_p(state(6)) }
    t_top_a_6 { top_a(state(6)) }
}
