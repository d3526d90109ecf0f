//! P03: whenever the sorted flag is set, the logits are in non-increasing order.
use crate::lib_::*;
use crate::rt::*;
fn fin(l: &Logits) {
    if l.get_sorted() {
        reach("sorted");
    } else {
        reach("unsorted");
    }
    check(!l.get_sorted() | descending(l), "P03.order");
    check(!l.get_softmax() | l.get_sorted(), "P03.softmax-implies-sorted");
    obs_logits(l);
}
fn run(s: &mut impl Sampler, r: &mut dyn HasSamplerResources, mut l: Logits) {
    let _ = s.sample(r, &mut l);
    fin(&l);
}
fn big(i: usize) -> f32 {
    f_in(["x0", "x1", "x2", "x3"][i], -1e30, 1e30)
}
fn tok(n: &str) -> u32 {
    u(n, 0, 3) as u32
}
fn long_any(n: usize) -> Logits {
    long(n, pin(u("at", 0, 2)) as usize * (n / 3), f_num("x0"))
}
/// very long list
fn vast_sort(n: usize) {
    let l0 = vast(n, f_in("x0", 1.0, 3.0));
    let mut l = l0.clone();
    check(l.ensure_sorted().is_ok() & l.get_sorted(), "P03.error");
    check(descending(&l), "P03.order");
    check(l.len() == n && kept(&l, &l0).is_some(), "P03.permutation");
    obs_ends(&l);
}
/// almost sorted: descending but for one element
fn near_sort(n: usize) {
    let at = among("at", &[1, 100, 255, 256, 1001, 4096, n / 2, n - 2, n - 1]);
    let at = if at < n { at } else { n - 1 };
    let up = pin(u("up", 0, 1)) == 1;
    let x = f_in("x0", 3.0, 3.001);
    let v: Vec<f32> = (0..n).map(|i| if i == at { if up { n as f32 + x } else { x - n as f32 } } else { (n - i) as f32 }).collect();
    let l0 = mk(&v);
    let mut l = l0.clone();
    let ok = if n <= 300 && boolean("top-k") { SampleTopK::new(n, 1).sample(&mut (), &mut l).is_ok() } else { l.ensure_sorted().is_ok() };
    check(ok & l.get_sorted(), "P03.error");
    check(descending(&l), "P03.order");
    check(l.len() == n && kept(&l, &l0).is_some(), "P03.permutation");
    obs_ends(&l);
}
fn vast_filter(n: usize) {
    let mut l = vast_shaped(n, pin(u("shape", 0, 2)));
    let m = among("mk", &[0, 257, 65537]);
    let ok = match pin(u("which", 0, 4)) {
        0 => SampleTopP::new(f_in("p", 0.7, 0.70001), m).sample(&mut (), &mut l).is_ok(),
        1 => SampleMinP::new(f_in("p", 0.5, 0.50001), m).sample(&mut (), &mut l).is_ok(),
        2 => SampleTailFree::new(0.5, m).sample(&mut (), &mut l).is_ok(),
        3 => SampleTopK::new(m, 1).sample(&mut (), &mut l).is_ok(),
        _ => SampleLocallyTypical::new(0.5, m).sample(&mut (), &mut l).is_ok(),
    };
    check(ok, "P03.error");
    check(!l.get_sorted() | descending(&l), "P03.order");
    obs_ends(&l);
}
/// two equal or two free values
fn big2() -> (f32, f32) {
    let a = f_in("b", -1e6, 1e6);
    (a, if boolean("equal") { a } else { f_in("b2", -1e6, 1e6) })
}
entries! {
    q_vast_sort { let n = among("n", &[300, 5000, BIG]); vast_sort(n) }
    q_near_sort { let n = among("n", &[20, 300, 5001]); near_sort(n) }
    q_vast_filter { vast_filter(BIG) }
    q_long_ensure { let mut l = long_any(33); let sm = boolean("softmax") ; if sm { assume((l[0].logit > -80.0) & (l[0].logit < 80.0) & (l[11].logit > -80.0) & (l[11].logit < 80.0) & (l[22].logit > -80.0) & (l[22].logit < 80.0)); } let l0 = l.clone();
        let ok = if sm { l.ensure_softmax().is_ok() } else { l.ensure_sorted().is_ok() };
        check(ok & l.get_sorted(), "P03.error"); check(subset(&l, &l0) & (l.len() == l0.len()), "P03.permutation"); fin(&l) }
    q_long_top_k { run(&mut SampleTopK::new(bits("k", 64) as usize, 1), &mut (), long_any(25)) }
    q_long_greedy { run(&mut SampleGreedy::new(), &mut (), long_any(33)) }
    q_long_flat_bias { let l = long_any(33); let mut l2 = l.clone(); let _ = l2.ensure_sorted(); let l = if boolean("sort") { l2 } else { l }; run(&mut SampleFlatBias::new([(tok("t") * 9, f_fin("b"))]), &mut (), l) }
    q_long_repetition { let mut l = long(33, 40, 0.0); let _ = l.ensure_sorted(); let mut r = res(None, Some((0..30).map(|i| if i == 20 { tok("t") * 9 } else { 40 + i }).collect())); run(&mut SampleRepetition::new(f_in("penalty", -2.0, 8.0), bits("n", 64) as usize), &mut r, l) }
    q_long_filter { let mut l = shaped(12); let _ = &mut l; let w = pin(u("which", 0, 3)); let m = bits("mk", 64) as usize; let f = f_num("f");
        match w { 0 => run(&mut SampleTopP::new(f, m), &mut (), l), 1 => run(&mut SampleMinP::new(f, m), &mut (), l), 2 => run(&mut SampleTopA::new(f, 1.0, m), &mut (), l), _ => run(&mut SampleTailFree::new(f, m), &mut (), l) } }
    q_long_typical { let w = shaped(12); run(&mut SampleLocallyTypical::new(f_num("f"), bits("mk", 64) as usize), &mut (), w) }
    q_ensure { let mut l = any_state(3, |i| f_num(["x0","x1","x2"][i])); let sm = boolean("softmax");
        let ok = if sm { l.ensure_softmax().is_ok() } else { l.ensure_sorted().is_ok() };
        check(ok, "P03.error"); check(l.get_sorted(), "P03.ensure-flag"); check(l.get_softmax() | !sm, "P03.ensure-flag"); fin(&l) }
    q_flat_bias_two { require("unsorted"); let b = big2(); run(&mut SampleFlatBias::new([(tok("t"), b.0), (tok("t2") * 3, b.1)]), &mut (), any_state(2, big)) }
    q_flat_bias_few { let b = big2(); let k = pin(u("count", 0, 4)) as usize; let mut v = vec![(tok("t"), b.0), (7, b.1), (8, b.0), (tok("t2"), b.1)]; v.truncate(k); run(&mut SampleFlatBias::new(v), &mut (), any_state(3, big)) }
    q_flat_bias { require("unsorted"); run(&mut SampleFlatBias::new([(tok("t"), f_fin("b"))]), &mut (), any_state(3, big)) }
    q_repetition { require("unsorted"); let mut r = res(None, Some(vec![tok("t")])); run(&mut SampleRepetition::new(f_in("penalty", -2.0, 8.0), 64), &mut r, any_state(3, big)) }
    q_freq_presence { require("unsorted"); let mut r = res(None, Some(vec![tok("t"), tok("t2")])); run(&mut SampleFreqPresence::new(f_in("freq", -8.0, 8.0), f_in("pres", -8.0, 8.0), 64), &mut r, any_state(3, big)) }
    q_seq_repetition { require("unsorted"); let mut r = res(None, Some(vec![0, 1, tok("t"), 0, 1])); run(&mut SampleSeqRepetition::new(f_in("flat", -8.0, 8.0), f_in("stack", -8.0, 8.0), 2, 0, 1, 64), &mut r, any_state(3, big)) }
    q_temperature { require("sorted"); let t = f_num("temp"); run(&mut SampleTemperature::new(t), &mut (), any_state(2, |i| f_fin(["x0","x1"][i]))) }
    q_top_k { require("sorted"); run(&mut SampleTopK::new(bits("k", 64) as usize, bits("mk", 64) as usize), &mut (), any_state(3, |i| f_num(["x0","x1","x2"][i]))) }
    q_top_p { require("sorted"); run(&mut SampleTopP::new(f_num("p"), u("mk", 0, 4) as usize), &mut (), any_state(3, big)) }
    q_min_p { require("sorted"); run(&mut SampleMinP::new(f_num("p"), u("mk", 0, 4) as usize), &mut (), any_state(3, big)) }
    q_top_a { require("sorted"); run(&mut SampleTopA::new(f_num("a1"), f_num("a2"), u("mk", 0, 4) as usize), &mut (), any_state(3, big)) }
    q_tail_free { require("sorted"); run(&mut SampleTailFree::new(f_num("z"), u("mk", 0, 4) as usize), &mut (), any_state(3, big)) }
    q_typical { require("unsorted"); run(&mut SampleLocallyTypical::new(f_num("p"), u("mk", 0, 3) as usize), &mut (), any_state(2, big)) }
    t_typical_3 { require("unsorted"); run(&mut SampleLocallyTypical::new(f_num("p"), u("mk", 0, 4) as usize), &mut (), any_state(3, big)) }
    q_greedy { run(&mut SampleGreedy::new(), &mut (), any_state(3, big)) }
    q_rand { require("sorted"); let mut r = res(Some(bits("rng", 32) as u32), None); run(&mut SampleRandDistrib::new(), &mut r, state_rand(2, big)) }
    q_mirostat2 { require("sorted"); let mut r = res(Some(bits("rng", 32) as u32), None); run(&mut SampleMirostat2::new(f_num("tau"), 0.1), &mut r, state_rand(2, big)) }
    q_mirostat1 { require("sorted"); let mut r = res(Some(bits("rng", 32) as u32), None); run(&mut SampleMirostat1::new(100, f_in("tau", 0.0, 10.0), 0.1), &mut r, state_rand(2, big)) }
}
