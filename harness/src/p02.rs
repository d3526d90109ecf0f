//! P02: building Logits with a limit keeps exactly the k highest finite values, in order.
use crate::lib_::*;
use crate::rt::*;
fn topk(n: usize, k: usize) {
    limited((0..n).map(|i| f_any(["x0", "x1", "x2", "x3", "x4", "x5"][i])).collect(), k)
}
fn limited(v: Vec<f32>, k: usize) {
    limited_by(v.clone(), k, v.iter().copied())
}
fn limited_by(v: Vec<f32>, k: usize, it: impl Iterator<Item = f32>) {
    let n = v.len();
    let l = match Logits::try_from_iter_top_k(it, k) {
        Ok(l) => l,
        Err(_) => return check(false, "P02.error"),
    };
    let m = l.len();
    check(m <= k, "P02.limit");
    let mut fin = 0;
    for i in 0..n {
        fin += finite(v[i]) as usize;
    }
    check(m == fin.min(k), "P02.count");
    let mut used = vec![false; n];
    for i in 0..m {
        let t = l[i].token_id as usize;
        if t >= n {
            return check(false, "P02.id");
        }
        check(!used[t], "P02.duplicate");
        used[t] = true;
        check(same(l[i].logit, v[t]) & finite(v[t]), "P02.value");
    }
    check(descending(&l), "P02.order");
    check(!l.get_softmax(), "P02.softmax-flag");
    for j in 0..n {
        if !used[j] {
            let mut ok = true;
            for i in 0..m {
                ok &= !finite(v[j]) | (v[j] <= l[i].logit);
            }
            check(ok, "P02.kept-highest");
        }
    }
    if m < n && m == k && k > 0 {
        reach("cut");
    }
    obs_logits(&l);
}
/// longer list with values that do not count, any value in the middle
fn long_list(n: usize) {
    let x = f_any("x0");
    let v = (0..n).map(|i| if i == n / 2 { x } else if i % 7 == 2 { [f32::NAN, f32::INFINITY, f32::NEG_INFINITY][i % 3] } else { (i * 13 % n) as f32 * 0.5 - 3.0 }).collect();
    let k = pin(u("k", 0, n as u64 + 2)) as usize;
    limited(v, k)
}
/// very long input: the free value lies near the best ones
fn vast_k(n: usize) {
    let falling = boolean("falling");
    let top = n as f32 * 0.5 - 100.0;
    let x = f_in("x0", top - 3.0, top + 1.0);
    let k = if falling { among("k", &[65535, 65536, 65537]) } else { among("k", &[1, 2, 255, 256, 257]) };
    let at = n - 5;
    let v: Vec<f32> = (0..n).map(|i| if !falling && i == at { x } else if falling { (n - i) as f32 } else { scrambled(i, n) }).collect();
    let Ok(l) = Logits::try_from_iter_top_k(v.iter().copied(), k) else {
        return check(false, "P02.error");
    };
    check(l.len() == k.min(n), "P02.count");
    let mut used = vec![false; n];
    for i in 0..l.len() {
        let t = l[i].token_id as usize;
        if t >= n {
            return check(false, "P02.id");
        }
        check(!used[t], "P02.duplicate");
        used[t] = true;
        check(same(l[i].logit, v[t]), "P02.value");
    }
    check(descending(&l) & l.get_sorted(), "P02.order");
    if let Some(e) = l.last() {
        let mut ok = true;
        for i in 0..n {
            ok &= used[i] | (v[i] <= e.logit);
        }
        check(ok, "P02.kept-highest");
    }
    obs_ends(&l);
}
/// long falling input with one free value anywhere near the given places, nearly all of it kept
fn late(n: usize) {
    let at = n - 1 - [0, 1, n / 2][pin(u("at", 0, 2)) as usize];
    let n1 = n as f32;
    let x = match pin(u("band", 0, 4)) {
        0 => f_in("x0", n1 + 1.5, 1e30),
        1 => f_in("x0", n1 / 2.0 + 0.25, n1 / 2.0 + 1.75),
        2 => f_in("x0", -1.0, 1.5),
        3 => f32::INFINITY,
        _ => f32::NAN,
    };
    let v: Vec<f32> = (0..n).map(|i| if i == at { x } else { (n - i) as f32 }).collect();
    let k = among("k", &[2, 255, n - 1, n, usize::MAX]);
    let Ok(l) = Logits::try_from_iter_top_k(v.iter().copied(), k) else {
        return check(false, "P02.error");
    };
    check(l.len() == k.min(if x.is_finite() { n } else { n - 1 }), "P02.count");
    check(descending(&l) & l.get_sorted(), "P02.order");
    let mut used = vec![false; n];
    for i in 0..l.len() {
        let t = l[i].token_id as usize;
        if t >= n {
            return check(false, "P02.id");
        }
        check(!used[t], "P02.duplicate");
        used[t] = true;
        check(same(l[i].logit, v[t]), "P02.value");
    }
    obs_ends(&l);
}
/// every kind of iterator, values occurring several times, any limit
fn kinds(n: usize) {
    let x = f_any("x0");
    let v: Vec<f32> = (0..n).map(|i| if i == n / 2 { x } else { [-0.0, 0.5, 0.0, f32::NAN, 0.5, -1e30, 7.0, f32::MIN, 0.5, f32::INFINITY][i * 3 % 10] }).collect();
    let k = among("k", &[0, 1, n / 2, n - 1, n, n + 1, 1 << 20, usize::MAX]);
    limited_by(v.clone(), k, as_iter(v, pin(u("kind", 0, 4))))
}
entries! {
    q_kinds { kinds(12) }
    t_kinds { kinds(75) }
    q_late { late(700) }
    t_late { late(6000) }
    q_vast { vast_k(BIG) }
    q_long { long_list(24) }
    t_long { long_list(60) }
    q_topk_3 { require("cut"); let k = u("k", 0, 4) as usize; topk(3, pin(k as u64) as usize) }
    q_topk_4 { let k = u("k", 1, 3) as usize; topk(4, pin(k as u64) as usize) }
    q_huge_k { topk(2, usize::MAX) }
    q_any_k { let v = f_fin("x0"); let k = bits("k", 64) as usize;
        let l = Logits::try_from_iter_top_k([v, 0.0], k);
        match l { Ok(l) => check(l.len() == k.min(2), "P02.count"), Err(_) => check(false, "P02.error") } }
    t_topk_5 { let k = u("k", 1, 5) as usize; topk(5, pin(k as u64) as usize) }
}
