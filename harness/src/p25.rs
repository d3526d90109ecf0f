//! P25: a run is a function of options, list, history and draws.
use crate::lib_::*;
use crate::opts::*;
use crate::rt::*;
/// two runs with equal results
fn equal(a: &Result<Option<u32>, SamplerError>, b: &Result<Option<u32>, SamplerError>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => match (x, y) {
            (Some(x), Some(y)) => x == y,
            (None, None) => true,
            _ => false,
        },
        (Err(x), Err(y)) => std::mem::discriminant(x) == std::mem::discriminant(y),
        _ => false,
    }
}
#[derive(Clone)]
struct In {
    l: Logits,
    rng: (u32, u32),
    h: Vec<u32>,
}
impl In {
    fn res(&self) -> SimpleSamplerResources {
        res2(Some(self.rng), Some(self.h.clone()))
    }
}
fn plain<S: Sampler>(mut s: S, i: &In) -> (Logits, Result<Option<u32>, SamplerError>) {
    let mut l = i.l.clone();
    let t = s.sample_token(&mut i.res(), &mut l);
    (l, t)
}
/// every way of starting a run gives the same list and token
fn ways<S: Sampler + Clone>(s: S, i: &In) {
    let (l0, t0) = plain(s.clone(), i);
    let mut x = s.clone();
    let mut l = i.l.clone();
    let t = match pin(u("way", 0, 3)) {
        0 => match x.sample(&mut i.res(), &mut l) {
            Ok(m) => {
                check(m.len() == l0.len(), "P25.returned-list");
                Ok(x.sampled_token_id())
            }
            Err(e) => Err(e),
        },
        1 => {
            let r = match l.sample(&mut i.res(), &mut x) {
                Ok(m) => {
                    check(m.len() == l0.len(), "P25.returned-list");
                    Ok(())
                }
                Err(e) => Err(e),
            };
            r.map(|_| x.sampled_token_id())
        }
        2 => l.sample_token(&mut i.res(), &mut x),
        _ => x.sample_token(&mut i.res(), &mut l),
    };
    check(equal(&t, &t0), "P25.entry-point");
    check(same_logits(&l, &l0), "P25.entry-point");
    if t.is_ok() {
        reach("ok");
    }
    check(matches!(&t, Ok(None) | Err(_)) | (x.sampled_token_id().is_some()), "P25.entry-point");
    obs_ends(&l);
}
/// a used sampler behaves like a fresh one
fn again<S: Sampler + Clone>(s: S, fix: impl Fn(S) -> S, i: &In) {
    let mut x = s.clone();
    warm_near(&mut x, Some((&i.h, &i.l)));
    let (l, t) = plain(fix(x), i);
    // something else in between
    let _ = s.clone().sample(&mut res(Some(7), Some(vec![2])), &mut mk(&[0.5, 0.25, 4.0, 4.5, 1.0, 0.125]));
    let (l0, t0) = plain(s, i);
    check(equal(&t, &t0), "P25.used-before");
    check(same_logits(&l, &l0), "P25.used-before");
    obs_ends(&l);
}
/// two runs in a row on the same sampler object give what one gives
fn repeated<S: Sampler + Clone>(s: S, fix: impl Fn(S) -> S, i: &In) {
    let (l0, t0) = plain(s.clone(), i);
    let mut x = s;
    let mut l = i.l.clone();
    let _ = x.sample(&mut i.res(), &mut l);
    let (l, t) = plain(fix(x), i);
    check(equal(&t, &t0), "P25.repeated");
    check(same_logits(&l, &l0), "P25.repeated");
}
/// options survive a run
fn options<S: Sampler + Clone + HasSamplerMetadata<usize, f32>>(mut s: S, fix: impl Fn(S) -> S, i: &In) {
    let a = snap(&s);
    let mut l = i.l.clone();
    let _ = s.sample(&mut i.res(), &mut l);
    warm(&mut s);
    let b = snap(&fix(s));
    check(same_snap(&a, &b), "P25.options-changed");
}
/// the order of the list given does not matter, nor whether it was sorted or its probabilities computed before
fn order<S: Sampler + Clone>(s: S, i: &In) {
    let (mut l0, t0) = plain(s.clone(), i);
    let n = i.l.len();
    let mut j = i.clone();
    let cached = match pin(u("perm", 0, 4)) {
        0 => {
            j.l.swap(0, n - 1);
            false
        }
        1 => {
            j.l.rotate_left(1);
            false
        }
        2 => {
            j.l.reverse();
            false
        }
        3 => j.l.ensure_sorted().is_ok(),
        _ => {
            if boolean("shuffled") {
                j.l.rotate_left(1);
            }
            j.l.ensure_softmax().is_ok()
        }
    };
    let (mut l, t) = plain(s, &j);
    check(equal(&t, &t0), "P25.order");
    let moved = l.get_sorted() != l0.get_sorted();
    if moved || !l.get_sorted() {
        // samplers that leave the order alone: compare by token
        l.sort_by_key(|x| x.token_id);
        l0.sort_by_key(|x| x.token_id);
    }
    if cached {
        check(same_items(&l, &l0), "P25.order");
    } else {
        check(same_logits(&l, &l0), "P25.order");
    }
    reach("permuted");
}
fn id<S>(s: S) -> S {
    s
}
#[derive(Clone, Copy)]
enum What {
    Ways,
    Again,
    Repeated,
    Options,
    Order,
}
fn judge<S: Sampler + Clone + HasSamplerMetadata<usize, f32>>(w: What, s: S, fix: impl Fn(S) -> S, i: &In) {
    match w {
        What::Ways => ways(s, i),
        What::Again => again(s, fix, i),
        What::Repeated => repeated(s, fix, i),
        What::Options => options(s, fix, i),
        What::Order => order(s, i),
    }
}
/// an option at a set value
fn set_value() -> f32 {
    [0.0, 0.25, 0.9, 1.5, 3.0][pin(u("f", 0, 4)) as usize]
}
/// every sampler but the pickers, at set option values
fn modifiers_set(w: What, i: &In) {
    let (f, m) = (set_value(), among("mk", &[0, 1]));
    match pin(u("which", 0, 10)) {
        0 => judge(w, SampleTemperature::new(f), id, i),
        1 => judge(w, SampleTopK::new(pin(u("k", 0, 3)) as usize, m), id, i),
        2 => judge(w, SampleTopP::new(f, m), id, i),
        3 => judge(w, SampleMinP::new(f, m), id, i),
        4 => judge(w, SampleTopA::new(f, 1.0, m), id, i),
        5 => judge(w, SampleTailFree::new(f, m), id, i),
        6 => judge(w, SampleLocallyTypical::new(f, m), id, i),
        7 => judge(w, SampleRepetition::new(f, 64), id, i),
        8 => judge(w, SampleFreqPresence::new(f, 0.5, 64), id, i),
        9 => judge(w, SampleSeqRepetition::new(f, 0.5, pin(u("min", 0, 3)) as usize, 1, m, 64), id, i),
        _ => judge(w, SampleFlatBias::new([(1, f), (3, -f)]), id, i),
    }
}
fn pickers_set(w: What, i: &In) {
    match pin(u("which", 0, 3)) {
        0 => judge(w, SampleGreedy::new(), id, i),
        1 => judge(w, SampleRandDistrib::new(), id, i),
        2 => {
            let m = set_value() * 2.0;
            judge(w, SampleMirostat2::new(3.0, 0.1).mu(m), move |s| s.mu(m), i)
        }
        _ => {
            let m = set_value() * 2.0;
            judge(w, SampleMirostat1::new(100, 3.0, 0.1).mu(m), move |s| s.mu(m), i)
        }
    }
}
/// every sampler but the pickers
fn modifiers(w: What, i: &In) {
    let (f, m) = (f_num("f"), among("mk", &[0, 1, 2, usize::MAX]));
    match pin(u("which", 0, 10)) {
        0 => judge(w, SampleTemperature::new(f), id, i),
        1 => judge(w, SampleTopK::new(bits("k", 64) as usize, m), id, i),
        2 => judge(w, SampleTopP::new(f, m), id, i),
        3 => judge(w, SampleMinP::new(f, m), id, i),
        4 => judge(w, SampleTopA::new(f, 1.0, m), id, i),
        5 => judge(w, SampleTailFree::new(f, m), id, i),
        6 => judge(w, SampleLocallyTypical::new(f, m), id, i),
        7 => judge(w, SampleRepetition::new(f, bits("n", 64) as usize), id, i),
        8 => judge(w, SampleFreqPresence::new(f, 0.5, bits("n", 64) as usize), id, i),
        9 => judge(w, SampleSeqRepetition::new(f, 0.5, u("min", 0, 3) as usize, u("tol", 0, 1) as usize, m, 64), id, i),
        _ => judge(w, SampleFlatBias::new([(1, f), (3, -f)]), id, i),
    }
}
fn pickers(w: What, i: &In) {
    match pin(u("which", 0, 3)) {
        0 => judge(w, SampleGreedy::new(), id, i),
        1 => judge(w, SampleRandDistrib::new(), id, i),
        2 => {
            let (t, e, m) = (f_in("tau", 0.0, 10.0), f_in("eta", -1.0, 1.0), f_num("mu"));
            judge(w, SampleMirostat2::new(t, e).mu(m), move |s| s.mu(m), i)
        }
        _ => {
            let (t, e, m) = (f_in("tau", 0.0, 10.0), f_in("eta", -1.0, 1.0), f_in("mu", -5.0, 20.0));
            judge(w, SampleMirostat1::new(100, t, e).mu(m), move |s| s.mu(m), i)
        }
    }
}
/// a fresh unsorted list of 3 distinct fixed values, a history with repeats
fn fresh() -> In {
    In { l: mk(&[1.25, 3.0, 0.5, 2.0]), rng: (bits("r0", 32) as u32, bits("r1", 32) as u32), h: vec![1, 3, 2, 1, 3, 0, 1, 3] }
}
/// a fixed list of shaped probabilities, with its history
fn ready() -> In {
    let mut h: Vec<u32> = vec![10, 11, 12, 10, 11, 12, 10, 11];
    h[3] = u("t", 9, 14) as u32;
    In { l: shaped(4), rng: (bits("r0", 32) as u32, bits("r1", 32) as u32), h }
}
/// any values
fn any() -> In {
    In { l: any_state_d(2, |i| f_in(XN[i], -1000.0, 1000.0)), rng: (bits("r0", 32) as u32, bits("r1", 32) as u32), h: vec![1, 3, 1] }
}
/// one free value among distinct ones
fn mixed() -> In {
    let x = f_in("x0", -60.0, 60.0);
    assume((x != 1.25) & (x != 3.0));
    In { l: mk(&[1.25, x, 3.0]), rng: (bits("r0", 32) as u32, bits("r1", 32) as u32), h: vec![1, 3, 2, 1, 3, 0, 1, 3] }
}
/// short lists, with and without random numbers and history; a failing run fails from every start
fn short() -> (Logits, (u32, u32), bool, bool) {
    let l = mk(&[1.25, 3.0, 0.5][..among("len", &[0, 1, 2])]);
    (l, (bits("r0", 32) as u32, 7), boolean("no-rng"), boolean("no-history"))
}
fn ways_short<S: Sampler + Clone>(s: S) {
    let (l0, rng, nr, nh) = short();
    let mk = || res2(if nr { None } else { Some(rng) }, if nh { None } else { Some(vec![1, 0, 1]) });
    let (mut x, mut y) = (s.clone(), s);
    let (mut l, mut m) = (l0.clone(), l0);
    let t0 = match x.sample(&mut mk(), &mut l) {
        Ok(_) => Ok(()),
        Err(e) => Err(e),
    }
    .map(|_| x.sampled_token_id());
    let t = if boolean("list") { m.sample_token(&mut mk(), &mut y) } else { y.sample_token(&mut mk(), &mut m) };
    check(equal(&t, &t0), "P25.entry-point");
    check(same_logits(&l, &m), "P25.entry-point");
    if t.is_ok() {
        reach("ok");
    } else {
        reach("failed");
    }
}
fn short_which() {
    let f = set_value();
    match pin(u("which", 0, 14)) {
        0 => ways_short(SampleTemperature::new(f)),
        1 => ways_short(SampleTopK::new(1, 1)),
        2 => ways_short(SampleTopP::new(f, 1)),
        3 => ways_short(SampleMinP::new(f, 1)),
        4 => ways_short(SampleTopA::new(f, 1.0, 1)),
        5 => ways_short(SampleTailFree::new(f, 1)),
        6 => ways_short(SampleLocallyTypical::new(f, 1)),
        7 => ways_short(SampleRepetition::new(f, 64)),
        8 => ways_short(SampleFreqPresence::new(f, 0.5, 64)),
        9 => ways_short(SampleSeqRepetition::new(f, 0.5, 1, 1, 1, 64)),
        10 => ways_short(SampleFlatBias::new([(0, f), (1, -f)])),
        11 => ways_short(SampleGreedy::new()),
        12 => ways_short(SampleRandDistrib::new()),
        13 => ways_short(SampleMirostat2::new(3.0, 0.1).mu(f)),
        _ => ways_short(SampleMirostat1::new(100, 3.0, 0.1).mu(f)),
    }
}
entries! {
    q_ways_short { require("failed"); short_which() }
    q_ways_fresh { require("ok"); modifiers(What::Ways, &fresh()) }
    q_ways_ready { modifiers(What::Ways, &ready()) }
    q_ways_any { let i = any(); let w = What::Ways; match pin(u("which", 0, 2)) { 0 => judge(w, SampleTemperature::new(f_num("f")), id, &i), 1 => judge(w, SampleTopK::new(bits("k", 64) as usize, 0), id, &i), _ => judge(w, SampleFlatBias::new([(0, f_num("f"))]), id, &i) } }
    q_ways_pick { pickers(What::Ways, &fresh()) }
    q_ways_pick_ready { pickers(What::Ways, &ready()) }
    q_again { used(); modifiers_set(What::Again, &fresh()) }
    q_again_ready { used(); modifiers_set(What::Again, &ready()) }
    q_again_pick { used(); pickers_set(What::Again, &fresh()) }
    q_again_pick_ready { used(); pickers_set(What::Again, &ready()) }
    q_repeated { modifiers(What::Repeated, &fresh()) }
    q_repeated_pick { pickers_set(What::Repeated, &ready()) }
    q_options { modifiers(What::Options, &fresh()) }
    q_options_used { used(); modifiers_set(What::Options, &fresh()) }
    q_options_pick { used(); pickers_set(What::Options, &fresh()) }
    q_options_pick_free { pickers(What::Options, &fresh()) }
    q_order { require("permuted"); modifiers(What::Order, &fresh()) }
    q_order_pick { require("permuted"); pickers(What::Order, &fresh()) }
    q_order_mixed { let i = mixed(); let w = What::Order; match pin(u("which", 0, 4)) { 0 => judge(w, SampleGreedy::new(), id, &i), 1 => judge(w, SampleTopK::new(2, 1), id, &i), 2 => judge(w, SampleTemperature::new(f_num("f")), id, &i), 3 => judge(w, SampleRepetition::new(f_num("f"), 64), id, &i), _ => judge(w, SampleFlatBias::new([(1, f_num("f"))]), id, &i) } }
    t_order_mixed { modifiers(What::Order, &mixed()) }
    t_order_pick_mixed { pickers(What::Order, &mixed()) }
    t_again_long { used(); modifiers_set(What::Again, &In { l: shaped(12), rng: (bits("r0", 32) as u32, 7), h: vec![10, 11, 12, 10, 11, 12, 10] }) }
    t_ways_long { modifiers_set(What::Ways, &In { l: shaped(24), rng: (bits("r0", 32) as u32, 7), h: vec![10, 11, 12, 10, 11, 12, 10] }) }
    t_ways_pick_long { pickers_set(What::Ways, &In { l: shaped(24), rng: (bits("r0", 32) as u32, 7), h: vec![] }) }
}
