//! P26: samplers only read the history, and only a pick by chance draws, once.
use crate::lib_::*;
use crate::rt::*;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
static DRAWS: AtomicU32 = AtomicU32::new(0);
/// counts what it hands out
#[derive(Debug)]
struct Counting(u32);
impl rand::RngCore for Counting {
    fn next_u32(&mut self) -> u32 {
        DRAWS.fetch_add(1, Relaxed);
        self.0
    }
    fn next_u64(&mut self) -> u64 {
        DRAWS.fetch_add(1, Relaxed);
        (self.0 as u64) << 32 | self.0 as u64
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        DRAWS.fetch_add(1, Relaxed);
        let b = self.0.to_le_bytes();
        for i in 0..dest.len() {
            dest[i] = b[i % 4]
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
/// run on the list: history as before, `draws` draws when a token comes out, none when there is nothing to pick from
fn run(s: &mut dyn Sampler, mut l: Logits, h: Vec<u32>, chance: bool) {
    let empty = l.is_empty();
    let mut r = SimpleSamplerResources::new(Some(Box::new(Counting(bits("rng", 32) as u32))), Some(h.clone()));
    let t = s.sample_token(&mut r, &mut l);
    let n = DRAWS.load(Relaxed);
    if !chance || empty {
        check(n == 0, "P26.draws");
    } else {
        match t {
            Ok(_) => {
                check(n == 1, "P26.draws");
                reach("drew");
            }
            Err(_) => check(n <= 1, "P26.draws"),
        }
    }
    let same_history = |r: &SimpleSamplerResources| match toks_of(r) {
        Some(g) => {
            let mut ok = g.len() == h.len();
            for i in 0..h.len().min(g.len()) {
                ok &= g[i] == h[i];
            }
            ok
        }
        None => false,
    };
    check(same_history(&r), "P26.history");
    // the step before a run does neither
    s.sample_prepend(&mut r);
    check(DRAWS.load(Relaxed) == n, "P26.draws");
    check(same_history(&r), "P26.history");
    // a second run draws as much again
    let mut l2 = mk(&[0.5, 2.0, 1.0]);
    let t = s.sample_token(&mut r, &mut l2);
    if t.is_ok() {
        check(DRAWS.load(Relaxed) == n + chance as u32, "P26.draws");
    }
    check(same_history(&r), "P26.history");
    obs(n as u64);
}
fn hist(n: usize) -> Vec<u32> {
    (0..n).map(|i| bits(["h0", "h1", "h2", "h3", "h4", "h5", "h6", "h7"][i], 32) as u32).collect()
}
fn fixed_hist(n: usize) -> Vec<u32> {
    (0..n).map(|i| if i == n / 2 { u("t", 0, 20) as u32 } else { 10 + (i % 3) as u32 }).collect()
}
fn penalties(l: Logits, h: Vec<u32>) {
    let (f, n) = (f_num("f"), bits("n", 64) as usize);
    match pin(u("which", 0, 2)) {
        0 => run(&mut SampleRepetition::new(f, n), l, h, false),
        1 => run(&mut SampleFreqPresence::new(f, 0.5, n), l, h, false),
        _ => run(&mut SampleSeqRepetition::new(f, 0.5, u("min", 0, 3) as usize, u("tol", 0, 1) as usize, u("merge", 0, 2) as usize, n), l, h, false),
    }
}
fn filters(l: Logits) {
    let (f, m) = (f_num("f"), bits("mk", 64) as usize);
    let h = hist(2);
    match pin(u("which", 0, 7)) {
        0 => run(&mut SampleTemperature::new(f), l, h, false),
        1 => run(&mut SampleTopK::new(bits("k", 64) as usize, m), l, h, false),
        2 => run(&mut SampleTopP::new(f, m), l, h, false),
        3 => run(&mut SampleMinP::new(f, m), l, h, false),
        4 => run(&mut SampleTopA::new(f, 1.0, m), l, h, false),
        5 => run(&mut SampleTailFree::new(f, m), l, h, false),
        6 => run(&mut SampleLocallyTypical::new(f, m), l, h, false),
        _ => run(&mut SampleFlatBias::new([(1, f), (3, -f)]), l, h, false),
    }
}
fn tau() -> f32 {
    [0.0, 0.5, 3.0, 20.0][pin(u("tau", 0, 3)) as usize]
}
/// mirostat's bound: as it starts, far below or far above
fn bound(tau: f32) -> f32 {
    [2.0 * tau, -5.0, 100.0][pin(u("bound", 0, 2)) as usize]
}
fn pickers(l: Logits) {
    let tau = tau();
    let mu = bound(tau);
    let h = hist(2);
    match pin(u("which", 0, 3)) {
        0 => run(&mut SampleGreedy::new(), l, h, false),
        1 => run(&mut SampleRandDistrib::new(), l, h, true),
        2 => run(&mut SampleMirostat2::new(tau, 0.1).mu(mu), l, h, true),
        _ => run(&mut SampleMirostat1::new(100, tau, 0.1).mu(mu), l, h, true),
    }
}
fn listed() -> Logits {
    match pin(u("list", 0, 2)) {
        0 => Logits::default(),
        1 => mk(&[1.25, 3.0, 0.5, 2.0]),
        _ => shaped(4),
    }
}
/// a whole pipeline draws once and leaves the history alone
fn chain() {
    let f = [0.5, 1.0, 1.75][pin(u("f", 0, 2)) as usize];
    let mut c = SamplerChain::new();
    c += SampleRepetition::new(f, 64);
    c += SampleFreqPresence::new(0.25, 0.5, 64);
    c += SampleTopK::new(3, 1);
    c += SampleTemperature::new(0.5);
    if boolean("mirostat") {
        c += SampleMirostat2::new(3.0, 0.1)
    } else {
        c += SampleRandDistrib::new()
    }
    run(&mut c, mk(&[1.25, 3.0, 0.5, 2.0]), vec![1, 2, 1], true)
}
entries! {
    q_penalties_short { penalties(any_state(1, num), hist(3)) }
    q_penalties_long { penalties(mk(&[1.25, 3.0, 0.5, 2.0]), fixed_hist(9)) }
    q_penalties_empty { penalties(Logits::default(), hist(2)) }
    q_penalties_no_history { penalties(any_state(1, num), vec![]) }
    q_filters { filters(listed()) }
    q_pickers { require("drew"); pickers(listed()) }
    q_pick_any { require("drew"); let mut l = mk(&[1.0, f_in("x0", -30.0, 30.0)]); if boolean("sorted") { assume(l[1].logit < 1.0); l.set_sorted(true); } run(&mut SampleRandDistrib::new(), l, vec![3], true) }
    q_one { pickers(mk(&[f_num("x0")])) }
    q_chain { require("drew"); chain() }
    t_shaped { filters(shaped(24)) }
    t_pick { pickers(shaped(24)) }
    t_long { penalties(mk(&[1.25, 3.0, 0.5, 2.0]), fixed_hist(16)) }
    q_shaped { filters(shaped(12)) }
    q_pick_shaped { pickers(shaped(12)) }
}
