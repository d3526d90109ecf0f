//! P05: filters only remove tokens, penalties only change logits; nothing is invented, duplicated or relabelled.
use crate::lib_::*;
use crate::rt::*;
fn filter(s: &mut impl Sampler, r: &mut dyn HasSamplerResources, l0: Logits, mk: usize) {
    let mut l = l0.clone();
    warm(s);
    if s.sample(r, &mut l).is_ok() {
        check(l.len() <= l0.len(), "P05.grew");
        check(subset(&l, &l0), "P05.subset");
        check((l.len() >= mk) | (l.len() == l0.len()), "P05.min-keep");
        if l.len() < l0.len() {
            reach("cut");
        }
        obs_logits(&l);
    }
}
fn modify(s: &mut impl Sampler, r: &mut dyn HasSamplerResources, l0: Logits) {
    let mut l = l0.clone();
    warm(s);
    if s.sample(r, &mut l).is_ok() {
        if l.len() != l0.len() {
            return check(false, "P05.penalty-length");
        }
        let mut ok = true;
        for i in 0..l.len() {
            ok &= l[i].token_id == l0[i].token_id;
        }
        check(ok, "P05.penalty-tokens");
        obs_logits(&l);
    }
}
fn pick(s: &mut impl Sampler, r: &mut dyn HasSamplerResources, l0: Logits, keeps_all: bool) {
    let mut l = l0.clone();
    warm(s);
    if s.sample(r, &mut l).is_ok() {
        check(subset(&l, &l0), "P05.subset");
        check(!keeps_all | (l.len() == l0.len()), "P05.picker-removed");
        check(!l.is_empty() | l0.is_empty(), "P05.emptied");
        match s.sampled_token_id() {
            Some(t) => {
                reach("token");
                let mut f = false;
                for j in 0..l.len() {
                    f |= l[j].token_id == t;
                }
                check(f, "P05.token-from-list");
            }
            None => check(l0.is_empty(), "P05.no-token"),
        }
        obs_logits(&l);
    }
}
fn tok(n: &str) -> u32 {
    u(n, 0, 3) as u32
}
fn mkp() -> usize {
    u("mk", 1, 5) as usize
}
/// very long list, options around the limits of small integers
fn vast_filter(n: usize, w: u64) {
    let l0 = vast_shaped(n, pin(u("shape", 0, 2)));
    let mut l = l0.clone();
    let m = among("mk", &EDGES);
    let ok = match w {
        0 => SampleTopP::new(f_in("p", 0.5, 0.50001), m).sample(&mut (), &mut l).is_ok(),
        1 => SampleMinP::new(f_in("p", 0.5, 0.50001), m).sample(&mut (), &mut l).is_ok(),
        2 => SampleTopA::new(f_in("p", 0.5, 0.50001), 1.0, m).sample(&mut (), &mut l).is_ok(),
        3 => SampleTailFree::new(0.25, m).sample(&mut (), &mut l).is_ok(),
        4 => SampleTopK::new(among("k", &[1, 256, 65537]), m).sample(&mut (), &mut l).is_ok(),
        _ => SampleLocallyTypical::new(0.5, m).sample(&mut (), &mut l).is_ok(),
    };
    check(ok, "P05.error");
    check(kept(&l, &l0).is_some(), "P05.subset");
    check(l.len() >= m.min(n), "P05.min-keep");
    if l.len() < n {
        reach("cut");
    }
    obs_ends(&l);
}
/// a token is picked from the very long list for draws in three narrow bands
fn vast_pick(n: usize) {
    let l0 = vast_shaped(n, pin(u("shape", 0, 2)));
    let mut l = l0.clone();
    let b = among("band", &[0, 0x8000_0000, 0xffff_f000]) as u64;
    let mut r = res(Some(u("rng", b, b + 0xfff) as u32), None);
    let t = match pin(u("which", 0, 2)) {
        0 => SampleRandDistrib::new().sample_token(&mut r, &mut l),
        1 => SampleMirostat2::default().tau(3.0).eta(0.1).mu(17.0).sample_token(&mut r, &mut l),
        _ => SampleGreedy::new().sample_token(&mut r, &mut l),
    };
    check(kept(&l, &l0).is_some(), "P05.subset");
    match t {
        Ok(Some(t)) => {
            let mut f = false;
            for x in l.iter() {
                f |= x.token_id == t;
            }
            check(f, "P05.token-from-list");
        }
        _ => check(false, "P05.no-token"),
    }
}
entries! {
    q_used { used(); let l = shaped(4); let w = pin(u("which", 0, 5)); let m = among("mk", &[1, 3]); let f = f_num("f");
        match w { 0 => filter(&mut SampleTopP::new(f, m), &mut (), l, m), 1 => filter(&mut SampleMinP::new(f, m), &mut (), l, m), 2 => filter(&mut SampleTopA::new(f, 1.0, m), &mut (), l, m),
            3 => filter(&mut SampleTailFree::new(f, m), &mut (), l, m), 4 => filter(&mut SampleTopK::new(bits("k", 64) as usize, m), &mut (), l, m), _ => filter(&mut SampleLocallyTypical::new(f, m), &mut (), l, m) } }
    q_used_pick { used(); let l = shaped(4); let mut r = res(Some(bits("rng", 32) as u32), None);
        match pin(u("which", 0, 3)) { 0 => pick(&mut SampleGreedy::new(), &mut (), l, true), 1 => pick(&mut SampleRandDistrib::new(), &mut r, l, true), 2 => pick(&mut SampleMirostat2::new(3.0, 0.1), &mut r, l, false), _ => pick(&mut SampleMirostat1::new(50, 3.0, 0.1), &mut r, l, false) } }
    q_used_modify { used(); let l = any_state(2, num); let mut r = res(None, Some(vec![tok("t"), tok("t2")]));
        match pin(u("which", 0, 3)) { 0 => modify(&mut SampleRepetition::new(2.0, bits("n", 64) as usize), &mut r, l), 1 => modify(&mut SampleFreqPresence::new(0.5, 0.25, bits("n", 64) as usize), &mut r, l),
            2 => modify(&mut SampleTemperature::new(0.5), &mut r, l), _ => modify(&mut SampleFlatBias::new([(tok("t"), f_any("b"))]), &mut r, l) } }
    q_vast_filter { require("cut"); let w = pin(u("which", 0, 4)); vast_filter(BIG, w) }
    q_vast_typical { vast_filter(700, 5) }
    q_vast_pick { vast_pick(BIG) }
    q_long_filter { require("cut"); let l = shaped(14); let w = pin(u("which", 0, 5)); let m = bits("mk", 64) as usize; assume(m > 0); let f = f_num("f");
        match w { 0 => filter(&mut SampleTopP::new(f, m), &mut (), l, m), 1 => filter(&mut SampleMinP::new(f, m), &mut (), l, m), 2 => filter(&mut SampleTopA::new(f, 1.0, m), &mut (), l, m),
            3 => filter(&mut SampleTailFree::new(f, m), &mut (), l, m), 4 => filter(&mut SampleTopK::new(bits("k", 64) as usize, m), &mut (), l, m), _ => filter(&mut SampleLocallyTypical::new(f, m), &mut (), l, m) } }
    q_long_top_k { let m = bits("mk", 64) as usize; assume(m > 0); filter(&mut SampleTopK::new(bits("k", 64) as usize, m), &mut (), long(20, 9, f_num("x0")), m) }
    q_long_pick { let l = shaped(12); let w = pin(u("which", 0, 2)); let mut r = res(Some(bits("rng", 32) as u32), None);
        match w { 0 => pick(&mut SampleGreedy::new(), &mut (), l, true), 1 => pick(&mut SampleRandDistrib::new(), &mut r, l, true), _ => pick(&mut SampleMirostat2::default().tau(3.0).eta(0.1).mu(f_in("mu", -5.0, 20.0)), &mut r, l, false) } }
    q_long_modify { let l = long(16, 5, f_num("x0")); let w = pin(u("which", 0, 3)); let mut r = res(None, Some((0..20).map(|i| if i == 3 { tok("t") } else { i % 9 }).collect()));
        match w { 0 => modify(&mut SampleRepetition::new(2.0, bits("n", 64) as usize), &mut r, l), 1 => modify(&mut SampleFreqPresence::new(0.5, 0.25, bits("n", 64) as usize), &mut r, l),
            2 => modify(&mut SampleTemperature::new(0.5), &mut r, l), _ => modify(&mut SampleFlatBias::new([(tok("t"), f_any("b"))]), &mut r, l) } }
    q_top_k { require("cut"); let m = bits("mk", 64) as usize; assume(m > 0); filter(&mut SampleTopK::new(bits("k", 64) as usize, m), &mut (), any_state_d(4, num), m) }
    q_top_p { require("cut"); let m = mkp(); filter(&mut SampleTopP::new(f_any("p"), m), &mut (), any_state_d(3, fin), m) }
    q_min_p { require("cut"); let m = mkp(); filter(&mut SampleMinP::new(f_any("p"), m), &mut (), any_state_d(3, fin), m) }
    q_top_a { require("cut"); let m = mkp(); filter(&mut SampleTopA::new(f_any("a1"), f_any("a2"), m), &mut (), any_state_d(3, fin), m) }
    q_tail_free { require("cut"); let m = mkp(); filter(&mut SampleTailFree::new(f_any("z"), m), &mut (), any_state_d(3, fin), m) }
    q_tail_free_4 { let m = mkp(); let l = state_fin(4); distinct(&l); filter(&mut SampleTailFree::new(f_any("z"), m), &mut (), l, m) }
    q_typical { require("cut"); let m = mkp(); let l = any_pos(2, |i| f_in(XN[i], -1000.0, 1000.0)); distinct(&l); filter(&mut SampleLocallyTypical::new(f_num("p"), m), &mut (), l, m) }
    q_repetition { let mut r = res(None, Some(vec![tok("t"), tok("t2")])); modify(&mut SampleRepetition::new(f_any("penalty"), bits("n", 64) as usize), &mut r, any_state(3, num)) }
    q_freq_presence { let mut r = res(None, Some(vec![tok("t"), tok("t2")])); modify(&mut SampleFreqPresence::new(f_any("freq"), f_any("pres"), bits("n", 64) as usize), &mut r, any_state(2, num)) }
    q_seq_repetition { let mut r = res(None, Some(vec![0, 1, tok("t"), 0, 1])); modify(&mut SampleSeqRepetition::new(f_any("flat"), f_any("stack"), 2, u("tol", 0, 1) as usize, u("merge", 0, 2) as usize, 64), &mut r, any_state(3, num)) }
    q_flat_bias { modify(&mut SampleFlatBias::new([(tok("t"), f_any("b")), (tok("t2"), f_any("b2"))]), &mut (), any_state(3, num)) }
    q_temperature { modify(&mut SampleTemperature::new(f_any("temp")), &mut (), any_state(3, num)) }
    q_greedy { require("token"); pick(&mut SampleGreedy::new(), &mut (), any_state_d(4, num), true) }
    q_rand { require("token"); let mut r = res(Some(bits("rng", 32) as u32), None); let l = state_rand(2, big); distinct(&l); pick(&mut SampleRandDistrib::new(), &mut r, l, true) }
    q_mirostat2 { require("token"); let mut r = res(Some(bits("rng", 32) as u32), None); let l = state_rand(2, fin); distinct(&l); pick(&mut SampleMirostat2::new(f_num("tau"), f_num("eta")), &mut r, l, false) }
    q_mirostat1 { require("token"); let mut r = res(Some(bits("rng", 32) as u32), None); let l = state_rand(2, fin); distinct(&l); pick(&mut SampleMirostat1::new(100, f_in("tau", 0.0, 10.0), f_num("eta")), &mut r, l, false) }
    q_empty { let mut r = res(Some(1), Some(vec![1, 2, 1, 2]));
        pick(&mut SampleGreedy::new(), &mut r, Logits::default(), true); pick(&mut SampleRandDistrib::new(), &mut r, Logits::default(), true);
        pick(&mut SampleMirostat2::new(5.0, 0.1), &mut r, Logits::default(), true); pick(&mut SampleMirostat1::new(9, 5.0, 0.1), &mut r, Logits::default(), true);
        filter(&mut SampleTopK::default(), &mut r, Logits::default(), 0); filter(&mut SampleTopP::default(), &mut r, Logits::default(), 0); filter(&mut SampleMinP::default(), &mut r, Logits::default(), 0);
        filter(&mut SampleTopA::default(), &mut r, Logits::default(), 0); filter(&mut SampleTailFree::default(), &mut r, Logits::default(), 0); filter(&mut SampleLocallyTypical::default(), &mut r, Logits::default(), 0);
        modify(&mut SampleRepetition::default(), &mut r, Logits::default()); modify(&mut SampleFreqPresence::default(), &mut r, Logits::default()); modify(&mut SampleTemperature::default(), &mut r, Logits::default()) }
    t_rand_3 { let mut r = res(Some(bits("rng", 32) as u32), None); let l = state_rand(3, fin); distinct(&l); pick(&mut SampleRandDistrib::new(), &mut r, l, true) }
    t_typical_3 { let m = mkp(); filter(&mut SampleLocallyTypical::new(f_any("p"), m), &mut (), any_state_d(3, fin), m) }
    t_top_p_4 { let m = mkp(); filter(&mut SampleTopP::new(f_any("p"), m), &mut (), any_state_d(4, fin), m) }
    t_min_p_4 { let m = mkp(); filter(&mut SampleMinP::new(f_any("p"), m), &mut (), any_state_d(4, fin), m) }
    t_top_a_4 { let m = mkp(); filter(&mut SampleTopA::new(f_any("a1"), f_any("a2"), m), &mut (), any_state_d(4, fin), m) }
}
