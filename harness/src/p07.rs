//! P07: Top-P keeps the shortest prefix (by probability) reaching p, and at least min_keep tokens.
use crate::lib_::*;
use crate::rt::*;
fn from_state(l0: Logits) {
    let n = l0.len();
    let p = f_num("p");
    let mk = bits("min_keep", 64) as usize;
    let mut l = l0.clone();
    if !go(&mut SampleTopP::new(p, mk), &mut (), &mut l, "P07.error") {
        return;
    }
    let m = l.len();
    check(prefix(&l, &l0), "P07.prefix");
    // oracle: first position where both limits are met
    let mut cum = 0f32;
    for i in 0..n {
        cum += l0[i].prob;
        let stop = (cum >= p) & (i + 1 >= mk);
        if i + 1 < m {
            check(!stop, "P07.too-long");
        }
        if i + 1 == m {
            check(stop | (m == n), "P07.too-short");
        }
    }
    check((m >= 1) | (n == 0), "P07.empty");
    if m < n {
        reach("cut");
        check(!l.get_softmax(), "P07.softmax-flag");
    }
    obs_logits(&l);
}
/// raw input is sorted and softmaxed first
fn from_raw(n: usize) {
    let l0 = raw_fin(n);
    let p = f_in("p", 0.0, 1.0);
    let mk = pin(u("min_keep", 0, n as u64)) as usize;
    let mut a = l0.clone();
    let mut b = l0;
    if b.ensure_softmax().is_err() {
        return check(false, "P07.softmax");
    }
    let ok = go(&mut SampleTopP::new(p, mk), &mut (), &mut a, "P07.error") & go(&mut SampleTopP::new(p, mk), &mut (), &mut b, "P07.error");
    if ok {
        check(same_items(&a, &b), "P07.raw");
        obs_logits(&a);
    }
}
/// very long list, p in a narrow band
fn vast_p(n: usize) {
    let l0 = vast_shaped(n, pin(u("shape", 0, 2)));
    let b = among("band", &[0, 1, 2, 3]);
    let p = f_in("p", [0.0, 0.5, 0.9, 1.0][b], [0.00003, 0.50003, 0.90003, 1.1][b]);
    let mk = among("min_keep", &EDGES);
    let mut l = l0.clone();
    if !go(&mut SampleTopP::new(p, mk), &mut (), &mut l, "P07.error") {
        return;
    }
    let m = l.len();
    check(prefix(&l, &l0), "P07.prefix");
    let mut cum = 0f32;
    for i in 0..n {
        cum += l0[i].prob;
        if i + 1 <= m && i + 1 >= mk {
            let stop = cum >= p;
            if i + 1 < m {
                check(!stop, "P07.too-long");
            } else {
                check(stop | (m == n), "P07.too-short");
            }
        }
    }
    check((m >= mk.min(n)) & (m >= 1), "P07.too-short");
    obs_ends(&l);
}
entries! {
    q_used { used(); from_state(state(2)) }
    q_vast { vast_p(BIG) }
    q_vast_big { let l0 = vast_shaped(BIG, 0); let mk = among("min_keep", &EDGES); let mut l = l0.clone(); if go(&mut SampleTopP::new(f_in("p", 0.0, 0.001), mk), &mut (), &mut l, "P07.error") { check(prefix(&l, &l0) & (l.len() >= mk.min(BIG)) & ((l.len() <= 68) | (l.len() <= mk)), "P07.too-long"); obs_ends(&l) } }
    q_long { require("cut"); from_state(shaped(24)) }
    t_long { from_state(shaped(60)) }
    q_state_3 { require("cut"); from_state(state(3)) }
    q_state_4 { from_state(state(4)) }
    q_state_0 { from_state(state(0)) }
    q_raw_2 { from_raw(2) }
    q_raw_3 { from_raw(3) }
    t_state_6 { from_state(state(6)) }
}
