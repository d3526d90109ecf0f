//! P15: greedy selection returns a token with the highest logit.
use crate::lib_::*;
use crate::rt::*;
fn run(n: usize) {
    greedy(any_state_d(n, num))
}
fn greedy(mut l0: Logits) {
    let n = l0.len();
    if !l0.get_sorted() {
        l0.set_softmax(boolean("softmax"));
    }
    let mut l = l0.clone();
    let mut s = SampleGreedy::new();
    if !go(&mut s, &mut (), &mut l, "P15.error") {
        return;
    }
    check(same_logits(&l, &l0), "P15.unchanged");
    check(s.get_token_id() == s.sampled_token_id(), "P15.accessor");
    match s.sampled_token_id() {
        None => check(n == 0, "P15.no-token"),
        Some(t) => {
            check(n > 0, "P15.empty");
            // some item carries the token and is at least as large as all others
            let mut best = false;
            for i in 0..n {
                let mut top = l0[i].token_id == t;
                for j in 0..n {
                    top &= l0[i].logit >= l0[j].logit;
                }
                best |= top;
            }
            check(best, "P15.highest");
            reach("picked");
            obs(t as u64);
        }
    }
}
/// picking through the list's and the sampler's own shortcuts gives the same token
fn shortcut(n: usize) {
    let l0 = any_state_d(n, num);
    let (mut a, mut b, mut c) = (l0.clone(), l0.clone(), l0);
    let ta = a.sample_token(&mut (), &mut SampleGreedy::new()).ok().flatten();
    let tb = SampleGreedy::default().sample_token(&mut (), &mut b).ok().flatten();
    let mut s = SampleGreedy::new();
    let ok = c.sample(&mut (), &mut s).is_ok();
    check(ok & (ta == tb) & (tb == s.sampled_token_id()), "P15.shortcut");
}
fn vast_greedy(n: usize) {
    let top = n as f32 * 0.5 - 100.5;
    let x = f_num("x0");
    let l0 = vast(n, x);
    let mut l = l0.clone();
    let t = SampleGreedy::new().sample_token(&mut (), &mut l).ok().flatten();
    check(t.is_some() & (t.unwrap_or(0) < n as u32), "P15.no-token");
    if let Some(t) = t {
        let y = l0[t as usize].logit;
        check((y >= x) & (y >= top) | (n < 1), "P15.highest");
    }
    check(same_logits(&l, &l0), "P15.unchanged");
}
entries! {
    q_used { used(); run(2) }
    q_vast { vast_greedy(BIG) }
    q_vast_300 { vast_greedy(300) }
    q_long { let at = pin(u("at", 0, 32)) as usize; greedy(long(33, at, f_num("x0"))) }
    q_long_two { let at = pin(u("at", 0, 15)) as usize; let mut l = long(17, at, f_num("x0")); l[16].logit = f_num("x1"); greedy(l) }
    q_long_sorted { greedy(shaped(24)) }
    q_0 { run(0) }
    q_1 { require("picked"); run(1) }
    q_2 { require("picked"); run(2) }
    q_3 { require("picked"); run(3) }
    q_4 { require("picked"); run(4) }
    q_shortcut { shortcut(2) }
    t_5 { run(5) }
    t_6 { run(6) }
}
