//! P12: sequence repetition penalises exactly the tokens that would extend a repeat.
use crate::lib_::*;
use crate::rt::*;
const TN: [&str; 10] = ["t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "t9"];
fn hist(h: usize) -> Vec<u32> {
    (0..h).map(|i| bits(TN[i], 32) as u32).collect()
}
/// length of the longest repeat that `tok` would complete at the end of `w` (0: none), at most `tol` positions differing
fn longest(w: &[u32], m: usize, tol: usize, tok: u32) -> u64 {
    let s = w.len();
    let mut r = 0u64;
    if s < 2 * m {
        return 0;
    }
    for l in m..=s - m {
        let tail = &w[s - l..];
        for o in 0..s {
            // the last token itself is no continuation: an occurrence overlapping the tail by all but one token does not count
            if o + l + 1 >= s {
                break;
            }
            let mut diff = 0usize;
            for i in 0..l {
                diff += (w[o + i] != tail[i]) as usize;
            }
            let ok = (w[o] == tail[0]) & (w[o + l - 1] == tail[l - 1]) & (diff <= tol) & (w[o + l] == tok);
            let v = (l + 1) as u64;
            r = if ok & (v > r) { v } else { r };
        }
    }
    r
}
/// end of the match of `needle` against `hay`: every mismatch uses up one tolerance and lets the next needle token be looked for among `merge` tokens
fn fuzzy(hay: &[u32], needle: &[u32], mut tol: usize, merge: usize) -> Option<usize> {
    let (mut at, mut span) = (0, 1);
    let mut last = None;
    for n in needle {
        last = None;
        for _ in 0..span {
            if at >= hay.len() {
                return None;
            }
            at += 1;
            if hay[at - 1] == *n {
                last = Some(at);
                break;
            }
        }
        span = 1;
        if last.is_none() {
            if tol == 0 {
                return None;
            }
            tol -= 1;
            span = merge.max(1);
        }
    }
    last
}
fn longest_merged(w: &[u32], m: usize, tol: usize, merge: usize, tok: u32) -> u64 {
    let s = w.len();
    let mut r = 0u64;
    if s < 2 * m {
        return 0;
    }
    for l in m..=s - m {
        for o in 0..s - l {
            if w[o] != w[s - l] {
                continue;
            }
            if let Some(e) = fuzzy(&w[o..], &w[s - l..], tol, merge) {
                if o + e + 1 < s {
                    let v = (e + 1) as u64;
                    r = if (w[o + e] == tok) & (v > r) { v } else { r };
                }
            }
        }
    }
    r
}
struct Opt {
    flat: f32,
    stack: f32,
    m: usize,
    tol: usize,
    merge: usize,
    last: usize,
}
fn pens() -> (f32, f32) {
    (f_in("flat", -1e30, 1e30), f_in("stack", -1e30, 1e30))
}
fn sampler(o: &Opt) -> SampleSeqRepetition {
    SampleSeqRepetition::new(o.flat, o.stack, o.m, o.tol, o.merge, o.last)
}
fn one(n: usize) -> Logits {
    let mut l = any_state(n, |i| f_in(XN[i], -1e30, 1e30));
    for i in 0..n {
        l[i].token_id = bits(IN[i], 32) as u32;
    }
    distinct(&l);
    l
}
fn run(l0: Logits, t: Vec<u32>, o: Opt) {
    let h = t.len();
    let mut r = res(None, Some(t.clone()));
    let mut l = l0.clone();
    if !go(&mut sampler(&o), &mut r, &mut l, "P12.error") {
        return;
    }
    check(toks_of(&r) == Some(t.clone()), "P12.history");
    let w = &t[h - o.last.min(h)..];
    if (o.flat == 0.0 && o.stack == 0.0) || o.m < 2 || w.len() / 2 < o.m {
        reach("off");
        return check(same_logits(&l, &l0), "P12.disabled");
    }
    if l.len() != l0.len() {
        return check(false, "P12.length");
    }
    let mut any = false;
    for i in 0..l.len() {
        let tok = l0[i].token_id;
        let x = l0[i].logit;
        let n = pin(if o.merge < 2 || o.tol == 0 { longest(w, o.m, o.tol, tok) } else { longest_merged(w, o.m, o.tol, o.merge, tok) });
        check(l[i].token_id == tok, "P12.token");
        if n == 0 {
            check(same(l[i].logit, x), "P12.untouched");
        } else {
            any = true;
            let s = n as f32 * o.stack;
            let want = x - (s + o.flat);
            let tol = 1e-5 * (x.abs() + s.abs() + o.flat.abs());
            check(close(l[i].logit, want, tol), "P12.amount");
            if n as usize > o.m + 1 {
                reach("longer");
            }
        }
    }
    if any {
        reach("hit");
        check(!l.get_softmax(), "P12.softmax-flag");
    } else {
        reach("miss");
        check(same_logits(&l, &l0), "P12.no-hit");
    }
    obs_logits(&l);
}
fn exact(n: usize, h: usize, m: usize) {
    let (flat, stack) = pens();
    run(one(n), hist(h), Opt { flat, stack, m, tol: 0, merge: u("merge", 0, 3) as usize, last: 64 })
}
fn tolerant(h: usize, m: usize, tol: usize, merge: usize) {
    let (flat, stack) = pens();
    run(one(1), hist(h), Opt { flat, stack, m, tol, merge, last: 64 })
}
fn window(h: usize, m: usize) {
    let (flat, stack) = pens();
    run(one(1), hist(h), Opt { flat, stack, m, tol: 0, merge: 1, last: bits("last", 64) as usize })
}
fn options(h: usize) {
    let (flat, stack) = pens();
    run(one(1), hist(h), Opt { flat, stack, m: bits("m", 64) as usize, tol: 0, merge: 1, last: bits("last", 64) as usize })
}
/// a higher tolerance penalises at least what a lower one does
fn monotone(h: usize, m: usize, lo: usize, hi: usize, merge: usize) {
    let t = hist(h);
    let mut l0 = mk(&[0.0]);
    l0[0].token_id = bits("id0", 32) as u32;
    let mut r = res(None, Some(t));
    let (mut a, mut b) = (l0.clone(), l0);
    let mut x = SampleSeqRepetition::default().flat_penalty(1.0).min_length(m).max_merge(merge).tolerance(lo);
    let mut y = x.clone().tolerance(hi);
    if go(&mut x, &mut r, &mut a, "P12.error") && go(&mut y, &mut r, &mut b, "P12.error") {
        check((a[0].logit == 0.0) | (b[0].logit == -1.0), "P12.monotone");
        if b[0].logit != a[0].logit {
            reach("more");
        }
        obs_f(b[0].logit);
    }
}
fn merge() -> usize {
    pin(u("merge", 0, 3)) as usize
}
/// longer history: a fixed repeating pattern with any tokens at the given positions
fn patt(h: usize, at: &[usize]) -> Vec<u32> {
    let mut t: Vec<u32> = (0..h).map(|i| (i % (h / 3)) as u32 + 1).collect();
    for (j, &i) in at.iter().enumerate() {
        t[i] = u(TN[j], 0, 40) as u32;
    }
    t
}
fn long_hist(t: Vec<u32>, m: usize, tol: usize, merge: usize, last: usize) {
    let (flat, stack) = pens();
    let mut l = mk(&[f_in("x0", -1e30, 1e30)]);
    l[0].token_id = u("id0", 0, 40) as u32;
    run(l, t, Opt { flat, stack, m, tol, merge, last })
}
/// very long repeat: an earlier copy of the last b tokens (one of them free), followed by the judged token
fn vast_repeat(b: usize, m: usize) {
    let (flat, stack) = pens();
    let j = b - 1 - pin(u("at", 0, 2)) as usize * (b / 4);
    let x = u("x", 999 + j as u64, 1001 + j as u64) as u32;
    // prefix, copy, follower, the last b tokens
    let mut t: Vec<u32> = (0..b).map(|i| 5000 + i as u32).collect();
    t.extend((0..b).map(|i| if i == j { x } else { 1000 + i as u32 }));
    t.push(9);
    t.extend((0..b).map(|i| 1000 + i as u32));
    let mut l0 = mk(&[f_in("x0", -1e30, 1e30), 0.0]);
    l0[0].token_id = 9;
    l0[1].token_id = 1000 + b as u32 / 2;
    let mut l = l0.clone();
    if go(&mut SampleSeqRepetition::new(flat, stack, m, 0, 1, 4 * b), &mut res(None, Some(t)), &mut l, "P12.error") {
        let same_x = pin((x == 1000 + j as u32) as u64) == 1;
        // length of the common end
        let len = if same_x { b } else { b - 1 - j };
        let y = l0[0].logit;
        if len < m || (flat == 0.0 && stack == 0.0) {
            check(same(l[0].logit, y), "P12.untouched");
        } else {
            let s = (len + 1) as f32 * stack;
            check(close(l[0].logit, y - (s + flat), 1e-5 * (y.abs() + s.abs() + flat.abs())), "P12.amount");
        }
        if j != b / 2 + 1 {
            check(same(l[1].logit, 0.0), "P12.untouched");
        }
        obs_logits(&l);
    }
}
/// a short repeat with many different followers, the last of them several times
fn followers(n: usize) {
    let (flat, stack) = (f_in("flat", -1e6, 1e6), f_in("stack", -1e6, 1e6));
    assume((flat != 0.0) | (stack != 0.0));
    let m = pin(u("m", 2, 3)) as usize;
    let mut t = vec![];
    for i in 0..n {
        t.extend([1, 2, 3, 100 + i as u32]);
    }
    // x: a longer repeat of the last follower's
    let last = 100 + n as u32 - 1;
    t.extend([last - 1, 1, 2, 3, last, 1, 2, 3]);
    let mut l0 = mk(&vec![0.5; n + 4]);
    for i in 0..n {
        l0[i].token_id = 100 + i as u32;
    }
    for i in 0..4 {
        l0[n + i].token_id = i as u32;
    }
    let mut l = l0.clone();
    let w = t.clone();
    if !go(&mut SampleSeqRepetition::new(flat, stack, m, 0, 1, usize::MAX), &mut res(None, Some(t)), &mut l, "P12.error") {
        return;
    }
    check(l.len() == n + 4, "P12.length");
    for i in 0..l.len() {
        let k = longest(&w, m, 0, l0[i].token_id);
        if k == 0 {
            check(same(l[i].logit, 0.5), "P12.untouched");
        } else {
            let s = k as f32 * stack;
            check(close(l[i].logit, 0.5 - (s + flat), 1e-5 * (0.5 + s.abs() + flat.abs())), "P12.followers");
        }
    }
    obs_ends(&l);
}
/// an earlier repeat with a wide gap in it
fn gap(g: usize, at: usize, merge: usize) {
    let mut t = vec![1, 2, 90];
    t.extend((0..g).map(|i| 60 + i as u32));
    t.extend([4, 5, 9, 50, 51, 1, 2, 3, 4, 5]);
    t[3 + at] = u("t0", 0, 100) as u32;
    let (flat, stack) = pens();
    let mut l = mk(&[f_in("x0", -1e30, 1e30), 0.0]);
    l[0].token_id = 9;
    l[1].token_id = u("id1", 10, 100) as u32;
    run(l, t, Opt { flat, stack, m: 5, tol: 1, merge, last: 64 })
}
entries! {
    q_gap { require("hit"); require("miss"); gap(7, 6, among("merge", &[2, 7, 8, 9, 16, usize::MAX])) }
    t_gap { let at = pin(u("at", 0, 31)) as usize; gap(32, at, among("merge", &[2, 31, 32, 33, 34, 64, usize::MAX])) }
    q_followers { followers(12) }
    t_followers { followers(40) }
    q_used { used(); exact(1, 5, 2) }
    q_used_tol { used(); long_hist(patt(12, &[4]), 3, 1, 2, 64) }
    q_vast { vast_repeat(300, 20) }
    q_long_12 { require("longer"); long_hist(patt(12, &[4, 9]), 3, 0, 1, 64) }
    q_long_16 { long_hist(patt(16, &[5, 14]), 4, 0, 1, 64) }
    q_long_window { require("off"); long_hist(patt(15, &[7]), 3, 0, 1, bits("last", 64) as usize) }
    q_long_tol { require("hit"); long_hist(patt(12, &[4, 9]), 4, 1, 1, 64) }
    q_long_merge { long_hist(patt(12, &[6]), 4, 1, 3, 64) }
    t_long_24 { long_hist(patt(24, &[7, 20]), 5, 2, 2, bits("last", 64) as usize) }
    q_exact_5 { require("hit"); require("miss"); exact(1, 5, 2) }
    q_exact_6 { require("longer"); exact(1, 6, 2) }
    q_exact_6m3 { require("hit"); exact(1, 6, 3) }
    q_exact_7m3 { require("hit"); exact(1, 7, 3) }
    q_exact_2x5 { require("hit"); exact(2, 5, 2) }
    q_tol_5 { require("hit"); tolerant(5, 2, 1, u("merge", 0, 1) as usize) }
    q_tol_6 { tolerant(6, 2, 1, 1) }
    q_tol_6m3 { require("hit"); tolerant(6, 3, 1, 1) }
    q_tol_6m3t2 { tolerant(6, 3, 2, 0) }
    q_merge_6m3 { require("hit"); tolerant(6, 3, 1, 2) }
    q_merge_7m3 { require("hit"); tolerant(7, 3, 1, 2) }
    q_window_6 { require("hit"); require("off"); require("miss"); window(6, 2) }
    q_options_5 { require("hit"); require("off"); require("miss"); options(5) }
    q_empty_list { let (flat, stack) = pens(); run(Logits::default(), hist(5), Opt { flat, stack, m: 2, tol: 0, merge: 1, last: 64 }) }
    q_empty_history { let (flat, stack) = pens(); run(one(2), hist(0), Opt { flat, stack, m: bits("m", 64) as usize, tol: 1, merge: 1, last: bits("last", 64) as usize }) }
    q_mono_6 { require("more"); let g = merge(); monotone(6, 3, 0, 1, g) }
    q_mono_6b { let g = merge(); monotone(6, 2, 1, 2, g) }
    t_exact_8 { exact(1, 8, 2) }
    t_exact_9m3 { exact(1, 9, 3) }
    t_tol_7 { tolerant(7, 2, 2, 1) }
    t_tol_8m3 { tolerant(8, 3, 1, 1) }
    t_merge_8m3 { tolerant(8, 3, 2, 3) }
    t_merge_7m2 { tolerant(7, 2, 2, 2) }
    t_window_8 { window(8, 2) }
    t_mono_8 { let g = merge(); monotone(8, 3, 1, 3, g) }
}
