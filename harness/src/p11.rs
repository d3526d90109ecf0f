//! P11: frequency and presence penalties follow the token counts of the last N history entries.
use crate::lib_::*;
use crate::rt::*;
const TN: [&str; 6] = ["t0", "t1", "t2", "t3", "t4", "t5"];
fn run(l0: Logits, h: usize, n: usize, fp: f32, pp: f32) {
    with(l0, (0..h).map(|i| bits(TN[i], 32) as u32).collect(), n, fp, pp)
}
fn with(l0: Logits, t: Vec<u32>, n: usize, fp: f32, pp: f32) {
    let h = t.len();
    let mut r = res(None, Some(t.clone()));
    let mut l = l0.clone();
    if !go(&mut SampleFreqPresence::new(fp, pp, n), &mut r, &mut l, "P11.error") {
        return;
    }
    check(toks_of(&r) == Some(t.clone()), "P11.history");
    if (fp == 0.0 && pp == 0.0) || n == 0 || h == 0 {
        reach("off");
        return check(same_logits(&l, &l0), "P11.disabled");
    }
    if l.len() != l0.len() {
        return check(false, "P11.length");
    }
    let mut any = false;
    for i in 0..l.len() {
        let x = l0[i].logit;
        let mut c = 0u32;
        for j in 0..h {
            c += ((h - j <= n) & (t[j] == l0[i].token_id)) as u32;
        }
        let c = pin(c as u64);
        check(l[i].token_id == l0[i].token_id, "P11.token");
        if c == 0 {
            check(same(l[i].logit, x), "P11.untouched");
        } else {
            any = true;
            let cf = c as f32 * fp;
            let want = x - (cf + pp);
            let tol = 1e-5 * (x.abs() + cf.abs() + pp.abs());
            check(close(l[i].logit, want, tol), "P11.amount");
            if c > 1 {
                reach("twice");
            }
        }
    }
    if any {
        reach("hit");
        check(!l.get_softmax(), "P11.softmax-flag");
    } else {
        reach("miss");
        check(same_logits(&l, &l0), "P11.no-hit");
    }
    obs_logits(&l);
}
fn sid(n: usize) -> Logits {
    let mut l = any_state(n, |i| f_in(XN[i], -1e30, 1e30));
    for i in 0..n {
        l[i].token_id = bits(IN[i], 32) as u32;
    }
    l
}
fn pens() -> (usize, f32, f32) {
    (bits("n", 64) as usize, f_in("freq", -1e30, 1e30), f_in("pres", -1e30, 1e30))
}
/// longer history with any two tokens among fixed ones
fn long_hist(h: usize) -> Vec<u32> {
    (0..h).map(|i| if i == h / 3 { bits("t0", 32) as u32 } else if i == h - 2 { bits("t1", 32) as u32 } else { (i * 5 % 4) as u32 + 3 }).collect()
}
/// very long history: counts around the limits of small integers
fn vast_history(h: usize) {
    let n = among("n", &EDGES);
    let every = among("every", &[1, 2, 3]);
    let t: Vec<u32> = (0..h).map(|i| if i % every == 0 { 9 } else { 5 + (i % 3) as u32 }).collect();
    let mut c = 0u32;
    for i in h.saturating_sub(n)..h {
        c += (t[i] == 9) as u32;
    }
    let mut l0 = raw_in(2, 1e30);
    l0[0].token_id = 9;
    l0[1].token_id = 65536 + 9;
    let (fp, pp) = (f_in("freq", -1e30, 1e30), f_in("pres", -1e30, 1e30));
    let mut l = l0.clone();
    if go(&mut SampleFreqPresence::new(fp, pp, n), &mut res(None, Some(t)), &mut l, "P11.error") {
        let x = l0[0].logit;
        let cf = c as f32 * fp;
        let want = x - (cf + pp);
        let tol = 1e-5 * (x.abs() + cf.abs() + pp.abs());
        check(if c == 0 { same(l[0].logit, x) } else { close(l[0].logit, want, tol) | ((fp == 0.0) & (pp == 0.0)) }, "P11.amount");
        check(same(l[1].logit, l0[1].logit), "P11.untouched");
        obs_logits(&l);
    }
}
/// many tokens, many of them several times in a long history
fn crowd(k: usize, h: usize) {
    let n = among("n", &[h / 3, h - 1, h, usize::MAX]);
    let mut l0 = vast(k, 3.0);
    for i in 0..k {
        l0[i].token_id = (i as u32) * 3 + 70000;
    }
    let t: Vec<u32> = (0..h).map(|i| 70000 + if i % 5 == 4 { 9 } else { (i * 7919 % (4 * k)) as u32 }).collect();
    let mut count = vec![0u32; 4 * k];
    for i in h - n.min(h)..h {
        count[t[i] as usize - 70000] += 1;
    }
    let (fp, pp) = (f_in("freq", 0.25, 4.0), f_in("pres", -4.0, 4.0));
    let mut l = l0.clone();
    if !go(&mut SampleFreqPresence::new(fp, pp, n), &mut res(None, Some(t)), &mut l, "P11.error") {
        return;
    }
    check(l.len() == k, "P11.length");
    for i in 0..k {
        let (x, c) = (l0[i].logit, count[i * 3] as f32);
        check(l[i].token_id == l0[i].token_id, "P11.token");
        if c == 0.0 {
            check(same(l[i].logit, x), "P11.untouched");
        } else {
            let want = x - (c * fp + pp);
            check(close(l[i].logit, want, 1e-5 * (x.abs() + 4.0 * c + 4.0)), "P11.crowd");
        }
    }
    obs_ends(&l);
}
entries! {
    q_crowd { crowd(151, 300) }
    t_crowd { crowd(701, 1500) }
    q_used { used(); let (n, a, b) = pens(); run(sid(1), 2, n, a, b) }
    q_vast { vast_history(BIG) }
    q_vast_300 { vast_history(300) }
    q_long_history { require("hit"); let (n, a, b) = pens(); let mut l = raw_in(1, 1e30); l[0].token_id = u("id0", 0, 8) as u32; with(l, long_hist(14), n, a, b) }
    q_long_both { let n = bits("n", 64) as usize; with(long(16, 5, f_in("x0", -100.0, 100.0)), (0..12).map(|i| if i == 4 { u("t0", 0, 20) as u32 } else { i * 5 % 4 }).collect(), n, f_in("freq", -10.0, 10.0), 0.5) }
    t_long_history { let (n, a, b) = pens(); let mut l = raw_in(1, 1e30); l[0].token_id = u("id0", 0, 8) as u32; with(l, long_hist(40), n, a, b) }
    q_1x3 { require("hit"); require("miss"); require("off"); require("twice"); let (n, a, b) = pens(); run(sid(1), 3, n, a, b) }
    q_2x2 { require("hit"); let (n, a, b) = pens(); run(sid(2), 2, n, a, b) }
    q_3x1 { let (n, a, b) = pens(); run(sid(3), 1, n, a, b) }
    q_2x3 { let (n, a, b) = pens(); run(raw_in(2, 1e30), 3, n, a, b) }
    q_empty_history { let (n, a, b) = pens(); run(sid(2), 0, n, a, b) }
    q_empty_list { let (n, a, b) = pens(); run(Logits::default(), 2, n, a, b) }
    t_1x4 { let (n, a, b) = pens(); run(sid(1), 4, n, a, b) }
    t_2x4 { let (n, a, b) = pens(); run(raw_in(2, 1e30), 4, n, a, b) }
}
