//! P10: the repetition penalty changes exactly the tokens of the last N history entries.
use crate::lib_::*;
use crate::rt::*;
const TN: [&str; 6] = ["t0", "t1", "t2", "t3", "t4", "t5"];
fn hist(h: usize) -> Vec<u32> {
    (0..h).map(|i| bits(TN[i], 32) as u32).collect()
}
/// history position j of h is within the last n
fn inside(j: usize, h: usize, n: usize) -> bool {
    h - j <= n
}
fn run(l0: Logits, h: usize, n: usize, p: f32) {
    with(l0, hist(h), n, p)
}
fn with(l0: Logits, t: Vec<u32>, n: usize, p: f32) {
    let h = t.len();
    let mut r = res(None, Some(t.clone()));
    let mut l = l0.clone();
    if !go(&mut SampleRepetition::new(p, n), &mut r, &mut l, "P10.error") {
        return;
    }
    check(toks_of(&r) == Some(t.clone()), "P10.history");
    if p <= 1.0 || n == 0 || h == 0 {
        reach("off");
        return check(same_logits(&l, &l0), "P10.disabled");
    }
    if l.len() != l0.len() {
        return check(false, "P10.length");
    }
    let mut any = false;
    for i in 0..l.len() {
        let x = l0[i].logit;
        let mut hit = false;
        for j in 0..h {
            hit |= inside(j, h, n) & (t[j] == l0[i].token_id);
        }
        any |= hit;
        let (a, b) = (x * p, x / p);
        let want_hit = ((x <= 0.0) & same(l[i].logit, a)) | (!(x <= 0.0) & same(l[i].logit, b));
        check(l[i].token_id == l0[i].token_id, "P10.token");
        check(!hit | want_hit, "P10.penalty");
        check(hit | same(l[i].logit, x), "P10.untouched");
    }
    if any {
        reach("hit");
        check(!l.get_softmax(), "P10.softmax-flag");
    } else {
        reach("miss");
        check(same_logits(&l, &l0), "P10.no-hit");
    }
    obs_logits(&l);
}
fn sid(n: usize) -> Logits {
    let mut l = any_state(n, num);
    for i in 0..n {
        l[i].token_id = bits(IN[i], 32) as u32;
    }
    l
}
fn pn() -> (usize, f32) {
    (bits("n", 64) as usize, f_any("penalty"))
}
/// longer history with any two tokens among fixed ones
fn long_hist(h: usize) -> Vec<u32> {
    (0..h).map(|i| if i == h / 3 { bits("t0", 32) as u32 } else if i == h - 2 { bits("t1", 32) as u32 } else { (i * 5 % 11) as u32 + 3 }).collect()
}
/// very long history: one token at the edge of the window
fn vast_history(h: usize) {
    let n = among("n", &EDGES);
    let back = n.saturating_add(pin(u("back", 0, 2)) as usize).min(h + 1);
    // position of the token, counted from the end: within, at, or just beyond the window
    let at = (h + 1).saturating_sub(back.max(1)).min(h - 1);
    let t: Vec<u32> = (0..h).map(|i| if i == at { 9 } else { 5 + (i % 3) as u32 }).collect();
    let mut l0 = raw(2);
    l0[0].token_id = 9;
    l0[1].token_id = 65536 + 9;
    let p = f_num("penalty");
    assume(p > 1.0);
    let mut l = l0.clone();
    if go(&mut SampleRepetition::new(p, n), &mut res(None, Some(t)), &mut l, "P10.error") {
        let x = l0[0].logit;
        let hit = h - at <= n;
        check(hit | same(l[0].logit, x), "P10.untouched");
        check(!hit | if x <= 0.0 { same(l[0].logit, x * p) } else { same(l[0].logit, x / p) }, "P10.penalty");
        check(same(l[1].logit, l0[1].logit), "P10.untouched");
        obs_logits(&l);
    }
}
/// many tokens, many of them in a long history
fn crowd(k: usize, h: usize) {
    let n = among("n", &[h / 3, h - 1, h, usize::MAX]);
    let mut l0 = vast(k, f_num("x0"));
    for i in 0..k {
        l0[i].token_id = (i as u32) * 3 + 70000;
    }
    let t: Vec<u32> = (0..h).map(|i| 70000 + (i * 7919 % (4 * k)) as u32).collect();
    let mut hit = vec![false; 4 * k];
    for i in h - n.min(h)..h {
        hit[t[i] as usize - 70000] = true;
    }
    let p = f_num("penalty");
    assume(p > 1.0);
    let mut l = l0.clone();
    if !go(&mut SampleRepetition::new(p, n), &mut res(None, Some(t)), &mut l, "P10.error") {
        return;
    }
    check(l.len() == k, "P10.length");
    for i in 0..k {
        let x = l0[i].logit;
        let w = if !hit[i * 3] { x } else if x <= 0.0 { x * p } else { x / p };
        check((l[i].token_id == l0[i].token_id) & same(l[i].logit, w), "P10.crowd");
    }
    obs_ends(&l);
}
entries! {
    q_crowd { crowd(301, 700) }
    q_crowd_ids { crowd(40, 2000) }
    t_crowd { crowd(1500, 3000) }
    q_used { used(); let (n, p) = pn(); run(sid(1), 2, n, p) }
    q_vast { vast_history(BIG) }
    q_vast_300 { vast_history(300) }
    q_long_history { require("hit"); let (n, p) = pn(); let mut l = raw(1); l[0].token_id = bits("id0", 32) as u32; with(l, long_hist(20), n, p) }
    q_long_both { let p = f_in("penalty", 1.0, 100.0); let n = bits("n", 64) as usize; with(long(16, 5, f_num("x0")), (0..12).map(|i| if i == 4 { u("t0", 0, 20) as u32 } else { i * 5 % 11 }).collect(), n, p) }
    t_long_history { let (n, p) = pn(); with(sid(1), long_hist(40), n, p) }
    q_1x3 { require("hit"); require("miss"); require("off"); let (n, p) = pn(); run(sid(1), 3, n, p) }
    q_2x2 { require("hit"); let (n, p) = pn(); run(sid(2), 2, n, p) }
    q_3x1 { require("hit"); let (n, p) = pn(); run(sid(3), 1, n, p) }
    q_2x3 { let (n, p) = pn(); assume(p > 1.0); run(raw(2), 3, n, p) }
    q_1x5 { let (n, p) = pn(); assume(p > 1.0); run(raw(1), 5, n, p) }
    q_empty_history { let (n, p) = pn(); run(sid(2), 0, n, p) }
    q_empty_list { let (n, p) = pn(); run(Logits::default(), 2, n, p) }
    t_2x4 { let (n, p) = pn(); assume(p > 1.0); run(raw(2), 4, n, p) }
    t_3x3 { let (n, p) = pn(); assume(p > 1.0); run(raw(3), 3, n, p) }
    t_1x6 { let (n, p) = pn(); run(sid(1), 6, n, p) }
}
