//! P01: building Logits keeps every value at its position and rejects NaN with the position.
use crate::lib_::*;
use crate::rt::*;
fn construct(n: usize, via_vec: bool) {
    let v: Vec<f32> = (0..n).map(|i| f_any(["x0", "x1", "x2", "x3", "x4", "x5"][i])).collect();
    build(v, via_vec)
}
fn build(v: Vec<f32>, via_vec: bool) {
    let r = if via_vec { Logits::try_from(v.clone()) } else { Logits::try_from_iter(v.iter().copied()) };
    built(v, r)
}
fn built(v: Vec<f32>, r: Result<Logits, LogitsError>) {
    let n = v.len();
    match r {
        Ok(l) => {
            reach("ok");
            check(l.len() == n, "P01.len");
            for i in 0..n {
                check(!nan(v[i]), "P01.nan-accepted");
                check(same(l[i].prob, 0.0), "P01.prob");
                check((l[i].token_id == i as u32) & same(l[i].logit, v[i]), "P01.identity");
            }
            check(!l.get_softmax() & !l.get_sorted(), "P01.flags");
            let mut s = true;
            for i in 1..n {
                s &= v[i - 1] >= v[i];
            }
            check(!l.get_sorted() | s, "P01.sorted-flag");
            if n < 1000 {
                obs_logits(&l);
            }
        }
        Err(LogitsError::InvalidLogit(p)) => {
            reach("nan");
            check(p < n, "P01.nan-position");
            check(nan(v[p]), "P01.nan-position");
            for i in 0..p {
                check(!nan(v[i]), "P01.nan-first");
            }
            obs(p as u64);
        }
        Err(_) => check(false, "P01.error-kind"),
    }
}
/// longer list, any values at two positions
fn long_list(n: usize) {
    let (a, b) = (pin(u("at", 0, n as u64 - 1)) as usize, n - 3);
    let (x, y) = (f_any("x0"), f_any("x1"));
    let v = (0..n).map(|i| if i == a { x } else if i == b { y } else { (i * 13 % n) as f32 - 20.0 }).collect();
    build(v, boolean("vec"))
}
/// more values than 16 bits count, any value at one of the last positions
fn huge(n: usize) {
    let x = f_any("x0");
    let at = n - 1 - pin(u("at", 0, 2)) as usize * 299;
    build((0..n).map(|i| if i == at { x } else { (i % 1000) as f32 - 20.0 }).collect(), boolean("vec"))
}
/// every kind of iterator
fn kinds(n: usize) {
    let x = f_any("x0");
    let at = pin(u("at", 0, n as u64 - 1)) as usize;
    let v: Vec<f32> = (0..n).map(|i| if i == at { x } else { [-0.0, 0.0, f32::INFINITY, 1e-45, f32::NEG_INFINITY, f32::MAX][i % 6] }).collect();
    built(v.clone(), Logits::try_from_iter(as_iter(v, pin(u("kind", 0, 4)))))
}
entries! {
    q_kinds { kinds(14) }
    t_kinds { kinds(130) }
    q_huge { require("ok"); require("nan"); huge(270_011) }
    q_long { long_list(40) }
    t_long { long_list(300) }
    q_iter { require("ok"); require("nan"); for n in 0..6 { if u("n", 0, 5) == n { construct(n as usize, false); return } } }
    q_vec { require("ok"); require("nan"); let n = pin(u("n", 0, 5)); construct(n as usize, true) }
}
