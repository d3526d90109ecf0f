//! P06: Top-K keeps exactly the max(k, min_keep) highest logits.
use crate::lib_::*;
use crate::rt::*;
fn topk(l0: Logits, k: usize, mk: usize) {
    let n = l0.len();
    let mut l = l0.clone();
    if !go(&mut SampleTopK::new(k, mk), &mut (), &mut l, "P06.error") {
        return;
    }
    let want = if k > mk { k } else { mk };
    let want = if want > n { n } else { want };
    check(l.len() == want, "P06.count");
    let m = l.len();
    check(descending(&l), "P06.order");
    check(subset(&l, &l0), "P06.subset");
    if m < n {
        reach("cut");
    } else {
        reach("all");
        // nothing removed: whatever was valid stays so
        check(!l0.get_softmax() | same_logits(&l, &l0), "P06.kept-valid");
    }
    for j in 0..n {
        let mut used = false;
        let mut ok = true;
        for i in 0..m {
            used |= l[i].token_id == l0[j].token_id;
            ok &= l0[j].logit <= l[i].logit;
        }
        check(used | ok, "P06.kept-highest");
    }
    obs_logits(&l);
}
fn any_k() -> (usize, usize) {
    (bits("k", 64) as usize, bits("min_keep", 64) as usize)
}
fn short(n: usize) {
    let (k, m) = any_k();
    topk(any_state_d(n, num), k, m)
}
/// the short cuts through the list and the second use of the same sampler agree
fn twice(n: usize) {
    let l0 = any_state_d(n, num);
    let (k, m) = any_k();
    let mut s = SampleTopK::new(k, m);
    let (mut a, mut b) = (l0.clone(), l0);
    if go(&mut s, &mut (), &mut a, "P06.error") && go(&mut s, &mut (), &mut b, "P06.error") {
        check(same_logits(&a, &b), "P06.memory");
        if go(&mut s, &mut (), &mut b, "P06.error") {
            check(same_logits(&a, &b), "P06.idempotent");
        }
    }
}
/// very long list, every option around the limits of small integers
fn vast_k(l0: Logits) {
    let n = l0.len();
    let (k, m) = (among("k", &EDGES), among("min_keep", &[0, 1, 256, 65536, usize::MAX]));
    let mut l = l0.clone();
    if !go(&mut SampleTopK::new(k, m), &mut (), &mut l, "P06.error") {
        return;
    }
    check(l.len() == k.max(m).min(n), "P06.count");
    check(descending(&l), "P06.order");
    let Some(u) = kept(&l, &l0) else {
        return check(false, "P06.subset");
    };
    if let Some(e) = l.last() {
        let mut ok = true;
        for i in 0..n {
            ok &= u[i] | (l0[i].logit <= e.logit);
        }
        check(ok, "P06.kept-highest");
    }
    check((l.len() < n) | same_logits(&l, &l0) | !l0.get_softmax(), "P06.kept-valid");
    obs_ends(&l);
}
entries! {
    q_used { used(); short(2) }
    q_vast_sorted { vast_k(vast_shaped(BIG, 1)) }
    q_vast { let l = vast(3000, f_in("x0", 1271.2, 1272.3)); vast_k(l) }
    q_topk_3 { require("cut"); require("all"); short(3) }
    q_topk_4 { short(4) }
    q_topk_0 { short(0) }
    q_topk_1 { short(1) }
    q_raw { let (k, m) = any_k(); topk(raw(3), k, m) }
    q_twice { twice(2) }
    q_long { require("cut"); let (k, m) = any_k(); topk(long(18, 7, f_num("x0")), k, m) }
    q_long_sorted { let (k, m) = any_k(); topk(shaped(24), k, m) }
    t_topk_5 { short(5) }
    t_long { let (k, m) = any_k(); topk(long(33, 12, f_num("x0")), k, m) }
}
