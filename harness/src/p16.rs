//! P16: the token drawn for a uniform fraction u is the one whose cumulative probability interval contains u.
use crate::lib_::*;
use crate::rt::*;
/// item of `l` chosen for the draw, checked against the cumulative probabilities
fn judge(l: &Logits, t: Option<u32>, rng: u32) {
    let n = l.len();
    let Some(t) = t else {
        return check(n == 0, "P16.no-token");
    };
    let k = pin(idx_of(l, t) as u64) as usize;
    if k >= n {
        return check(false, "P16.token-from-list");
    }
    let mut total = 0f32;
    for x in l.iter() {
        total += x.prob;
    }
    let u = f32::from_bits(0x3f80_0000 | (rng >> 9)) - 1.0;
    let c = u * total;
    let mut below = 0f32;
    for i in 0..k {
        below += l[i].prob;
    }
    let upto = below + l[k].prob;
    let tol = total * 1e-5;
    if k > 0 {
        check((below <= c) | (below - c <= tol), "P16.interval-low");
    }
    if k + 1 < n {
        check((c < upto) | (c - upto <= tol), "P16.interval-high");
    }
    check(l[k].prob > 0.0, "P16.impossible-token");
    if k == 0 {
        reach("first");
    } else {
        reach("later");
    }
    obs(k as u64);
}
fn run(l0: Logits) {
    let rng = bits("rng", 32) as u32;
    // one draw decides
    let mut r = res2(Some((rng, bits("rng2", 32) as u32)), None);
    let mut l = l0.clone();
    let mut s = SampleRandDistrib::new();
    if !go(&mut s, &mut r, &mut l, "P16.error") {
        return;
    }
    if l0.get_softmax() {
        check(same_logits(&l, &l0), "P16.unchanged");
    } else {
        check(l.len() == l0.len(), "P16.unchanged");
    }
    judge(&l, s.sampled_token_id(), rng);
}
fn st(n: usize) -> Logits {
    let l = state(n);
    if n > 0 {
        assume(l[0].prob >= 0.5 / n as f32);
    }
    distinct(&l);
    l
}
/// a list whose probabilities were not computed yet is treated as if they had been
fn raw_same(n: usize, m: f32) {
    let mut l = raw_in(n, m);
    let mut b = l.clone();
    let rng = bits("rng", 32) as u32;
    let mut r = res(Some(rng), None);
    let mut s = SampleRandDistrib::new();
    if b.ensure_softmax().is_err() || !go(&mut s, &mut r, &mut l, "P16.error") {
        return;
    }
    let t = s.sampled_token_id();
    check(l.len() == n, "P16.unchanged");
    let mut s = SampleRandDistrib::new();
    if go(&mut s, &mut r, &mut b, "P16.error") {
        check(t.is_some() & (t == s.sampled_token_id()), "P16.raw");
    }
    reach("later");
}
/// two equal draws give the same token; the sampler keeps no memory of the earlier one
fn again(n: usize) {
    let l = st(n);
    let rng = bits("rng", 32) as u32;
    let mut s = SampleRandDistrib::new();
    let (mut a, mut b) = (l.clone(), l);
    let mut r = res(Some(rng), None);
    let x = s.sample_token(&mut r, &mut a).ok();
    let y = s.sample_token(&mut r, &mut b).ok();
    check((x == y) & x.is_some(), "P16.memory");
}
/// one sampler on two lists that share most of their probabilities, the second judged on its own
fn alike(n: usize) {
    let mut a = shaped(n);
    for i in 0..n {
        a[i].prob = 1.0 / n as f32;
    }
    let mut b = a.clone();
    // where they differ: the last or the first tokens, or only the ids, or the logits
    match pin(u("change", 0, 4)) {
        0 => {
            a[n - 1].prob = 0.0;
            a[n - 2].prob = 2.0 / n as f32;
        }
        1 => {
            b[n - 1].prob = 0.0;
            b[n - 2].prob = 2.0 / n as f32;
        }
        2 => {
            b[0].prob = 1.5 / n as f32;
            b[1].prob = 0.5 / n as f32;
        }
        3 => {
            for i in 0..n {
                b[i].token_id += 1000;
            }
        }
        _ => {
            b.truncate(n - 1);
        }
    }
    let rng = bits("rng", 32) as u32;
    let mut s = SampleRandDistrib::new();
    if !go(&mut s, &mut res(Some(0xa000_0000), None), &mut a, "P16.error") {
        return;
    }
    let mut l = b.clone();
    if !go(&mut s, &mut res2(Some((rng, 0x4000_0000)), None), &mut l, "P16.error") {
        return;
    }
    check(same_logits(&l, &b), "P16.unchanged");
    judge(&l, s.sampled_token_id(), rng);
}
/// very long list, draws in narrow bands
fn vast_draw(n: usize) {
    let l = vast_shaped(n, pin(u("shape", 0, 2)));
    let b = among("band", &[0, 0x7fff_0000, 0xffff_0000]) as u64;
    let rng = u("rng", b, b + 0xffff) as u32;
    let mut r = res(Some(rng), None);
    let mut s = SampleRandDistrib::new();
    let mut l2 = l.clone();
    if go(&mut s, &mut r, &mut l2, "P16.error") {
        check(same_logits(&l2, &l), "P16.unchanged");
        // linear sums of many terms in single precision
        let Some(t) = s.sampled_token_id() else {
            return check(false, "P16.no-token");
        };
        let k = pin(idx_of(&l, t) as u64) as usize;
        if k >= n {
            return check(false, "P16.token-from-list");
        }
        judge(&l, Some(t), rng);
    }
}
entries! {
    q_used { used(); run(shaped(3)) }
    q_vast { vast_draw(BIG) }
    q_long { require("later"); run(shaped(17)) }
    t_long { run(shaped(64)) }
    q_0 { run(Logits::default()) }
    q_1 { require("first"); run(st(1)) }
    q_2 { require("first"); require("later"); run(st(2)) }
    q_3 { require("later"); run(st(3)) }
    q_raw_2 { require("later"); raw_same(2, 1000.0) }
    q_alike_3 { alike(3) }
    q_alike_12 { alike(12) }
    q_again { again(2) }
    t_4 { run(st(4)) }
    t_5 { run(st(5)) }
    t_raw_2 { run(raw_in(2, 100.0)) }
    t_raw_3 { raw_same(3, 100.0) }
}
