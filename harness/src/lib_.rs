//! Shared harness helpers: symbolic Logits, resources and oracles.
#![allow(dead_code)]
use crate::rt::*;
pub const XN: [&str; 8] = ["x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7"];
pub const PN: [&str; 8] = ["p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7"];
pub const IN: [&str; 8] = ["id0", "id1", "id2", "id3", "id4", "id5", "id6", "id7"];
/// n symbolic logits as freshly constructed (ids are positions, nothing sorted)
pub fn raw(n: usize) -> Logits {
    let v: Vec<f32> = (0..n).map(|i| f_num(XN[i])).collect();
    mk(&v)
}
pub fn raw_fin(n: usize) -> Logits {
    let v: Vec<f32> = (0..n).map(|i| f_fin(XN[i])).collect();
    mk(&v)
}
/// logits in [-m, m]
pub fn raw_in(n: usize, m: f32) -> Logits {
    let v: Vec<f32> = (0..n).map(|i| f_in(XN[i], -m, m)).collect();
    mk(&v)
}
pub fn mk(v: &[f32]) -> Logits {
    match Logits::try_from_iter(v.iter().copied()) {
        Ok(l) => l,
        Err(_) => {
            check(false, "harness.construct");
            loop {}
        }
    }
}
/// a state whose probabilities could come from a softmax: the largest is at least 1/(2n)
pub fn state_rand(n: usize, f: impl Fn(usize) -> f32) -> Logits {
    let l = any_state(n, f);
    if l.get_softmax() && n > 0 {
        assume(l[0].prob >= 0.5 / n as f32);
    }
    l
}
/// Any state flagged sorted and softmaxed: symbolic ids, non-increasing logits, non-increasing probs in [0,1]
pub fn state(n: usize) -> Logits {
    state_from(n, |i| f_num(XN[i]))
}
pub fn state_fin(n: usize) -> Logits {
    state_from(n, |i| f_fin(XN[i]))
}
pub fn state_from(n: usize, f: impl Fn(usize) -> f32) -> Logits {
    let v: Vec<f32> = (0..n).map(|i| f(i)).collect();
    let mut l = mk(&v);
    for i in 0..n {
        l[i].token_id = bits(IN[i], 32) as u32;
        l[i].prob = f_in(PN[i], 0.0, 1.0);
        if i > 0 {
            assume(l[i - 1].logit >= l[i].logit);
            assume(l[i - 1].prob >= l[i].prob);
        }
    }
    l.set_sorted(true);
    l.set_softmax(true);
    l
}
pub fn same_item(a: &Logit, b: &Logit) -> bool {
    (a.token_id == b.token_id) & same(a.logit, b.logit)
}
pub fn same_full(a: &Logit, b: &Logit) -> bool {
    same_item(a, b) & same(a.prob, b.prob)
}
/// identical contents and flags
pub fn same_logits(a: &Logits, b: &Logits) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = (a.get_sorted() == b.get_sorted()) & (a.get_softmax() == b.get_softmax());
    for i in 0..a.len() {
        r &= same_full(&a[i], &b[i]);
    }
    r
}
/// identical tokens and logits
pub fn same_items(a: &Logits, b: &Logits) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= same_item(&a[i], &b[i]);
    }
    r
}
/// logits non-increasing
pub fn descending(l: &Logits) -> bool {
    let mut s = true;
    for i in 1..l.len() {
        s &= !(l[i - 1].logit < l[i].logit);
    }
    s
}
pub fn close(a: f32, b: f32, tol: f32) -> bool {
    let d = a - b;
    same(a, b) | ((d <= tol) & (-d <= tol))
}
/// `out` is `inp` cut to its first `out.len()` items (ids, logits unchanged)
pub fn prefix(out: &Logits, inp: &Logits) -> bool {
    if out.len() > inp.len() {
        return false;
    }
    let mut r = true;
    for i in 0..out.len() {
        r &= same_item(&out[i], &inp[i]);
    }
    r
}
/// RNG whose first draw carries one fraction and all later ones another
#[derive(Clone, Debug)]
pub struct SymRng(pub u32, pub u32);
impl rand::RngCore for SymRng {
    fn next_u32(&mut self) -> u32 {
        let r = self.0;
        self.0 = self.1;
        r
    }
    fn next_u64(&mut self) -> u64 {
        let r = self.next_u32() as u64;
        r << 32 | r
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let b = self.next_u32().to_le_bytes();
        for i in 0..dest.len() {
            dest[i] = b[i % 4]
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
pub fn res(rng: Option<u32>, toks: Option<Vec<u32>>) -> SimpleSamplerResources {
    res2(rng.map(|r| (r, r)), toks)
}
pub fn res2(rng: Option<(u32, u32)>, toks: Option<Vec<u32>>) -> SimpleSamplerResources {
    SimpleSamplerResources::new(rng.map(|(a, b)| Box::new(SymRng(a, b)) as Box<dyn rand::RngCore + Send + Sync>), toks)
}
pub fn toks_of(r: &SimpleSamplerResources) -> Option<Vec<u32>> {
    let mut o = None;
    let _ = r.with_last_tokens(&mut |t| o = Some(t.clone()));
    o
}
static WARM: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// from here on every sampler is used on other lists and histories before it is judged
pub fn used() {
    WARM.store(true, std::sync::atomic::Ordering::Relaxed);
}
static NEAR: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
/// the same, but not on lists like the judged one
pub fn used_far() {
    used();
    NEAR.store(false, std::sync::atomic::Ordering::Relaxed);
}
/// earlier use of a sampler, when asked for: results are ignored
pub fn warm(s: &mut impl Sampler) {
    warm_near(s, None)
}
/// the judged history but for its last token, the judged list but for one value in it
fn near(s: &mut impl Sampler, h: &[u32], l: &Logits) {
    let n = h.len();
    let other = |k: u32| (0..n).map(|i| if i + 1 < n { h[i] ^ k } else { h[i] }).collect();
    let mut l1 = l.clone();
    let _ = s.sample(&mut res(Some(0x9000_0000), Some(other(1))), &mut l1);
    if l.len() > 2 {
        let mut l2 = l.clone();
        l2[1] = Logit { token_id: l2[1].token_id, ..l2[0].clone() };
        let _ = s.sample(&mut res(Some(0x9000_0000), Some(other(0))), &mut l2);
    }
}
/// `like`: what the judged run is given
pub fn warm_near(s: &mut impl Sampler, like: Option<(&[u32], &Logits)>) {
    if !WARM.load(std::sync::atomic::Ordering::Relaxed) {
        return;
    }
    let mut once = |n: usize, h: Vec<u32>| {
        let mut l = mk(&[1.5, -0.5, 3.0, 0.25, 2.0][..n]);
        let _ = s.sample(&mut res(Some(0x9000_0000), Some(h)), &mut l);
    };
    match pin(u("before", 0, if like.is_some() && NEAR.load(std::sync::atomic::Ordering::Relaxed) { 4 } else { 3 })) {
        4 => {
            if let Some((h, l)) = like {
                near(s, h, l)
            }
        }
        0 => once(0, vec![]),
        1 => {
            once(4, vec![2, 1, 3, 2, 1, 3, 2, 1]);
            once(1, vec![1]);
            once(2, vec![]);
        }
        2 => {
            let _ = s.sample(&mut (), &mut mk(&[1.0, 2.0]));
        }
        _ => {
            for _ in 0..300 {
                once(3, vec![1, 1])
            }
        }
    }
}
/// run a sampler that must succeed
pub fn go(s: &mut impl Sampler, r: &mut dyn HasSamplerResources, l: &mut Logits, id: &str) -> bool {
    if WARM.load(std::sync::atomic::Ordering::Relaxed) {
        let mut h = vec![];
        let _ = r.with_last_tokens(&mut |t| h = t.clone());
        warm_near(s, Some((&h, l)));
    }
    let ok = s.sample(r, l).is_ok();
    check(ok, id);
    ok
}
/// Symbolic choice of the bookkeeping state: 0 unsorted with stale probabilities, 1 sorted, 2 sorted and softmaxed (arbitrary probabilities)
pub fn any_state(n: usize, f: impl Fn(usize) -> f32) -> Logits {
    match pin(u("state", 0, 2)) {
        0 => {
            let v: Vec<f32> = (0..n).map(|i| f(i)).collect();
            let mut l = mk(&v);
            for i in 0..n {
                l[i].token_id = bits(IN[i], 32) as u32;
                l[i].prob = f_in(PN[i], 0.0, 1.0);
            }
            l
        }
        1 => {
            let mut l = state_from(n, f);
            l.set_softmax(false);
            l
        }
        _ => state_from(n, f),
    }
}
pub fn as_state(l: &mut Logits, k: u64) {
    for i in 1..l.len() {
        if k > 0 {
            assume(l[i - 1].logit >= l[i].logit);
        }
        if k > 1 {
            assume(l[i - 1].prob >= l[i].prob);
        }
    }
    l.set_sorted(k > 0);
    l.set_softmax(k > 1);
}
/// recompute the softmax of the current logits in their current order
pub fn fresh_softmax(l: &Logits) -> Vec<f32> {
    let mut m = l[0].logit;
    if !l.get_sorted() {
        for x in l.iter() {
            m = if x.logit > m { x.logit } else { m };
        }
    }
    let e: Vec<f32> = l.iter().map(|x| (x.logit - m).exp()).collect();
    let mut s = 0f32;
    for x in e.iter() {
        s += *x;
    }
    e.iter().map(|x| *x / s).collect()
}
/// a set softmax flag means: nothing changed since the (valid) input state, or the probabilities are the softmax of the logits
pub fn softmax_honest(l0: &Logits, l: &Logits) -> bool {
    if !l.get_softmax() || l.is_empty() {
        return true;
    }
    let mut unchanged = false;
    if l0.get_softmax() && l0.len() == l.len() {
        unchanged = true;
        for i in 0..l.len() {
            unchanged &= same_full(&l0[i], &l[i]);
        }
    }
    let f = fresh_softmax(l);
    let mut ok = true;
    for i in 0..l.len() {
        ok &= close(l[i].prob, f[i], 1e-5);
    }
    unchanged | ok
}
pub fn big(i: usize) -> f32 {
    f_in(XN[i], -1e30, 1e30)
}
pub fn fin(i: usize) -> f32 {
    f_fin(XN[i])
}
pub fn num(i: usize) -> f32 {
    f_num(XN[i])
}
/// every item of `out` is an item of `inp` (same token, same logit); no token twice (tokens of `inp` are distinct)
pub fn subset(out: &Logits, inp: &Logits) -> bool {
    let mut r = true;
    for i in 0..out.len() {
        let mut f = false;
        for j in 0..inp.len() {
            f |= same_item(&out[i], &inp[j]);
        }
        r &= f;
        for j in 0..i {
            r &= out[i].token_id != out[j].token_id;
        }
    }
    r
}
/// assume pairwise distinct token ids
pub fn distinct(l: &Logits) {
    for i in 0..l.len() {
        for j in 0..i {
            assume(l[i].token_id != l[j].token_id);
        }
    }
}
/// distinct token ids
pub fn any_state_d(n: usize, f: impl Fn(usize) -> f32) -> Logits {
    let l = any_state(n, f);
    distinct(&l);
    l
}
pub fn idx_of(l: &Logits, tid: u32) -> usize {
    let mut r = l.len();
    for i in (0..l.len()).rev() {
        r = if l[i].token_id == tid { i } else { r };
    }
    r
}
/// n distinct fixed logits in scrambled order, the one at position `at` replaced by `x`
pub fn long(n: usize, at: usize, x: f32) -> Logits {
    let v: Vec<f32> = (0..n).map(|i| if i == at { x } else { ((i * 7 + 3) % n) as f32 * 0.5 - 4.0 }).collect();
    mk(&v)
}
/// longer list marked sorted and softmaxed, with scrambled ids and a choice of probability shapes
pub fn shaped(n: usize) -> Logits {
    let shape = pin(u("shape", 0, 4));
    let mut l = mk(&(0..n).map(|i| (n - i) as f32 * 0.25).collect::<Vec<_>>());
    let mut g = 0.5f32;
    for i in 0..n {
        l[i].token_id = ((i * 19 + 2) % n) as u32 + 10;
        l[i].prob = match shape {
            0 => 1.0 / n as f32,
            1 => g,
            2 => {
                if i < 3 {
                    0.25
                } else if i + 4 > n {
                    0.0
                } else {
                    0.25 / (n - 6) as f32
                }
            }
            3 => (n - i) as f32 / (n * (n + 1) / 2) as f32,
            _ => {
                if i == 0 {
                    1.0
                } else {
                    0.0
                }
            }
        };
        g *= 0.5;
    }
    l.set_sorted(true);
    l.set_softmax(true);
    l
}
/// arbitrary state whose probabilities are not 0
pub fn any_pos(n: usize, f: impl Fn(usize) -> f32) -> Logits {
    let l = any_state(n, f);
    if l.get_softmax() {
        for i in 0..n {
            assume(l[i].prob >= 1e-30);
        }
    }
    l
}
/// one of the given values, chosen freely
pub fn among(n: &str, v: &[usize]) -> usize {
    v[pin(u(n, 0, v.len() as u64 - 1)) as usize]
}
/// sizes around the limits of small integers
pub const EDGES: [usize; 8] = [1, 255, 256, 257, 65535, 65536, 65537, usize::MAX];
pub const BIG: usize = 66037;
/// value i of a long list of distinct values
pub fn scrambled(i: usize, n: usize) -> f32 {
    (i * 7919 % n) as f32 * 0.5 - 100.0
}
/// a very long fresh list of distinct values (ids are positions), the last but two replaced by x
pub fn vast(n: usize, x: f32) -> Logits {
    let v: Vec<f32> = (0..n).map(|i| if i + 3 == n { x } else { scrambled(i, n) }).collect();
    mk(&v)
}
/// a very long list marked sorted and softmaxed, ids scrambled; shape 0 uniform, 1 linear, 2 half the mass on the first
pub fn vast_shaped(n: usize, shape: u64) -> Logits {
    let mut l = mk(&(0..n).map(|i| (n - i) as f32 * 0.25).collect::<Vec<_>>());
    for i in 0..n {
        l[i].token_id = (i * 7919 % n) as u32;
        l[i].prob = match shape {
            0 => 1.0 / n as f32,
            1 => (n - i) as f32 / (n as f32 * (n + 1) as f32 / 2.0),
            _ => {
                if i == 0 {
                    0.5
                } else {
                    0.5 / (n - 1) as f32
                }
            }
        };
    }
    l.set_sorted(true);
    l.set_softmax(true);
    l
}
/// position of every token in `l0` (ids below its length)
pub fn places(l0: &Logits) -> Vec<usize> {
    let mut r = vec![usize::MAX; l0.len()];
    for i in 0..l0.len() {
        r[l0[i].token_id as usize] = i;
    }
    r
}
/// which positions of `l0` are still in `l`; none when `l` holds something foreign or a token twice
pub fn kept(l: &Logits, l0: &Logits) -> Option<Vec<bool>> {
    let p = places(l0);
    let mut r = vec![false; l0.len()];
    for x in l.iter() {
        let t = x.token_id as usize;
        if t >= p.len() || p[t] >= r.len() || r[p[t]] || !same_item(x, &l0[p[t]]) {
            return None;
        }
        r[p[t]] = true;
    }
    Some(r)
}
/// the values through iterators that know their length, know nothing about it, or are pieced together
pub fn as_iter(v: Vec<f32>, kind: u64) -> Box<dyn Iterator<Item = f32>> {
    match kind {
        0 => Box::new(v.into_iter()),
        1 => {
            let mut i = 0;
            Box::new(std::iter::from_fn(move || {
                i += 1;
                v.get(i - 1).copied()
            }))
        }
        2 => {
            let w = v.split_off_half();
            Box::new(w.0.into_iter().filter(|_| true).chain(w.1))
        }
        // its size bound says nothing
        3 => Box::new((0..usize::MAX).map_while(move |i| v.get(i).copied())),
        _ => {
            let mut v = v;
            v.reverse();
            Box::new(v.into_iter().rev().peekable())
        }
    }
}
trait Half: Sized {
    fn split_off_half(self) -> (Self, Self);
}
impl Half for Vec<f32> {
    fn split_off_half(mut self) -> (Self, Self) {
        let t = self.split_off(self.len() / 2);
        (self, t)
    }
}
/// observe length, marks and both ends only
pub fn obs_ends(l: &Logits) {
    obs(l.len() as u64);
    obs(l.get_sorted() as u64 | (l.get_softmax() as u64) << 1);
    if let (Some(a), Some(b)) = (l.first(), l.last()) {
        obs(a.token_id as u64);
        obs(b.token_id as u64);
    }
}
