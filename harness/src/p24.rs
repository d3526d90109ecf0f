//! P24: no option value makes a sampler panic, loop or leave something that is no logits list.
use crate::lib_::*;
use crate::rt::*;
/// panics and endless loops are reported by the executor itself
fn run(s: &mut dyn Sampler, r: &mut dyn HasSamplerResources, l0: Logits) {
    let mut l = l0.clone();
    let ok = s.sample(r, &mut l).is_ok();
    check(l.len() <= l0.len(), "P24.grew");
    if ok {
        reach("ok");
    } else {
        reach("error");
    }
    if let Some(t) = s.sampled_token_id() {
        let mut f = false;
        for x in l0.iter() {
            f |= x.token_id == t;
        }
        check(f, "P24.foreign-token");
    }
    obs(l.len() as u64);
}
fn any(n: usize) -> Logits {
    any_state(n, num)
}
fn sz(n: &str) -> usize {
    bits(n, 64) as usize
}
fn hist(h: usize) -> SimpleSamplerResources {
    let t = (0..h).map(|i| bits(["t0", "t1", "t2", "t3", "t4", "t5", "t6"][i], 32) as u32).collect();
    res(Some(bits("rng", 32) as u32), Some(t))
}
fn rng() -> SimpleSamplerResources {
    res(Some(bits("rng", 32) as u32), None)
}
fn vast_any(n: usize) {
    let w = pin(u("which", 0, 14));
    let k = |q: bool| if q { among("k", &EDGES) } else { 0 };
    let k = k((3..9).contains(&w) || w == 10 || w == 11 || w == 14);
    let f = if matches!(w, 0 | 4..=8 | 10 | 13 | 14) { [0.0, f32::NAN, f32::INFINITY, 0.5, -1.0][among("f", &[0, 1, 2, 3, 4])] } else { 0.5 };
    let mut r = res(Some(u("rng", 0xffff_fff0, 0xffff_ffff) as u32), Some((0..n as u32).map(|i| i % 500).collect()));
    let l = if boolean("raw") { vast(n, if (4..9).contains(&w) || w > 11 { 50.25 } else { f_in("x0", -100.0, -99.9) }) } else { vast_shaped(n, if w < 4 || w > 8 { 1 } else { pin(u("shape", 0, 2)) }) };
    match w {
        0 => run(&mut SampleTemperature::new(f), &mut r, l),
        1 => run(&mut SampleGreedy::new(), &mut r, l),
        2 => run(&mut SampleFlatBias::new([(12, f_any("a"))]), &mut r, l),
        3 => run(&mut SampleTopK::new(k, 1), &mut r, l),
        4 => run(&mut SampleTopP::new(f, k), &mut r, l),
        5 => run(&mut SampleMinP::new(f, k), &mut r, l),
        6 => run(&mut SampleTopA::new(f, 1.0, k), &mut r, l),
        7 => run(&mut SampleTailFree::new(f, k), &mut r, l),
        8 => run(&mut SampleLocallyTypical::new(f, k), &mut r, l),
        9 => run(&mut SampleRepetition::new(1.5, 1), &mut r, l),
        10 => run(&mut SampleFreqPresence::new(0.5, f, k), &mut r, l),
        11 => run(&mut SampleSeqRepetition::new(1.0, 1.0, k.min(10000), 0, k, k.min(600)), &mut r, l),
        12 => run(&mut SampleRandDistrib::new(), &mut r, l),
        13 => run(&mut SampleMirostat2::default().tau(5.0).eta(0.1).mu(f), &mut r, l),
        _ => run(&mut SampleMirostat1::default().n_vocab(k).m(k).tau(3.0).eta(0.1).mu(f), &mut r, l),
    }
}
entries! {
    q_vast { vast_any(700) }
    t_vast { vast_any(5000) }
    q_long { let w = pin(u("which", 0, 14)); let mut r = res(Some(bits("rng", 32) as u32), Some((0..16).map(|i| if i == 5 { sz("tok") as u32 } else { i % 5 }).collect())); let l = shaped(8);
        match w {
            0 => run(&mut SampleTemperature::new(f_any("a")), &mut r, l),
            1 => run(&mut SampleGreedy::new(), &mut r, l),
            2 => run(&mut SampleFlatBias::new([(12, f_any("a"))]), &mut r, l),
            3 => run(&mut SampleTopK::new(sz("k"), sz("mk")), &mut r, l),
            4 => run(&mut SampleTopP::new(f_any("a"), sz("mk")), &mut r, l),
            5 => run(&mut SampleMinP::new(f_any("a"), sz("mk")), &mut r, l),
            6 => run(&mut SampleTopA::new(f_any("a"), f_any("b"), sz("mk")), &mut r, l),
            7 => run(&mut SampleTailFree::new(f_any("a"), sz("mk")), &mut r, l),
            8 => run(&mut SampleLocallyTypical::new(f_any("a"), sz("mk")), &mut r, l),
            9 => run(&mut SampleRepetition::new(f_any("a"), sz("k")), &mut r, l),
            10 => run(&mut SampleFreqPresence::new(f_any("a"), f_any("b"), sz("k")), &mut r, l),
            11 => { let f = boolean("fuzzy"); let (a, b, c, d) = if f { (3, sz("tol"), sz("merge"), 64) } else { (sz("m"), 0, 1, sz("k")) }; let mut r = res(None, Some((0..9).map(|i| if i == 4 { u("tok", 0, 20) as u32 } else { i % 4 }).collect())); run(&mut SampleSeqRepetition::new(1.0, f_any("b"), a, b, c, d), &mut r, l) }
            12 => run(&mut SampleRandDistrib::new(), &mut r, l),
            13 => run(&mut SampleMirostat2::default().tau(f_any("tau")).eta(f_any("eta")).mu(f_any("mu")), &mut r, l),
            _ => run(&mut SampleMirostat1::default().n_vocab(1000).m(sz("m")).tau(3.0).eta(0.1).mu(f_any("mu")), &mut r, l),
        } }
    q_temperature { run(&mut SampleTemperature::new(f_any("t")), &mut (), any(3)) }
    q_greedy { run(&mut SampleGreedy::new(), &mut (), any(3)) }
    q_flat_bias { run(&mut SampleFlatBias::new([(sz("b0") as u32, f_any("v0")), (sz("b1") as u32, f_any("v1"))]), &mut (), any(2)) }
    q_top_k { run(&mut SampleTopK::new(sz("k"), sz("mk")), &mut (), any(3)) }
    q_top_p { run(&mut SampleTopP::new(f_any("p"), sz("mk")), &mut (), any(2)) }
    q_min_p { run(&mut SampleMinP::new(f_any("p"), sz("mk")), &mut (), any(2)) }
    q_top_a { run(&mut SampleTopA::new(f_any("a1"), f_any("a2"), sz("mk")), &mut (), any(2)) }
    q_tail_free { run(&mut SampleTailFree::new(f_any("z"), sz("mk")), &mut (), state(3)) }
    q_tail_free_4 { run(&mut SampleTailFree::new(f_any("z"), sz("mk")), &mut (), state(4)) }
    q_tail_free_raw { run(&mut SampleTailFree::new(f_any("z"), sz("mk")), &mut (), raw(2)) }
    q_typical { run(&mut SampleLocallyTypical::new(f_any("p"), sz("mk")), &mut (), state(2)) }
    q_typical_3 { run(&mut SampleLocallyTypical::new(f_any("p"), 1), &mut (), state(3)) }
    q_repetition { run(&mut SampleRepetition::new(f_any("p"), sz("n")), &mut hist(3), any(2)) }
    q_freq { run(&mut SampleFreqPresence::new(f_any("a"), f_any("b"), sz("n")), &mut hist(3), any(2)) }
    q_seq { run(&mut SampleSeqRepetition::new(f_any("a"), f_any("b"), sz("m"), sz("tol"), sz("merge"), sz("n")), &mut hist(4), any(1)) }
    q_seq_5 { run(&mut SampleSeqRepetition::new(1.0, 1.0, sz("m"), sz("tol"), sz("merge"), sz("n")), &mut hist(5), raw(1)) }
    q_rand { run(&mut SampleRandDistrib::new(), &mut rng(), state(2)) }
    q_rand_3 { run(&mut SampleRandDistrib::new(), &mut rng(), state(3)) }
    q_mirostat2 { run(&mut SampleMirostat2::default().tau(f_any("tau")).eta(f_any("eta")).mu(f_any("mu")), &mut rng(), state(2)) }
    q_mirostat1 { run(&mut SampleMirostat1::default().n_vocab(sz("vocab")).m(sz("m")).tau(f_any("tau")).eta(f_any("eta")).mu(f_any("mu")), &mut rng(), state(2)) }
    q_mirostat1_1 { run(&mut SampleMirostat1::default().n_vocab(sz("vocab")).m(sz("m")).tau(f_any("tau")).eta(f_any("eta")).mu(f_any("mu")), &mut rng(), state(1)) }
    q_empty { let w = pin(u("which", 0, 14)); let mut r = hist(2); let l = Logits::default();
        match w {
            0 => run(&mut SampleTemperature::new(f_any("a")), &mut r, l),
            1 => run(&mut SampleGreedy::new(), &mut r, l),
            2 => run(&mut SampleFlatBias::new([(0, f_any("a"))]), &mut r, l),
            3 => run(&mut SampleTopK::new(sz("k"), sz("mk")), &mut r, l),
            4 => run(&mut SampleTopP::new(f_any("a"), sz("mk")), &mut r, l),
            5 => run(&mut SampleMinP::new(f_any("a"), sz("mk")), &mut r, l),
            6 => run(&mut SampleTopA::new(f_any("a"), f_any("b"), sz("mk")), &mut r, l),
            7 => run(&mut SampleTailFree::new(f_any("a"), sz("mk")), &mut r, l),
            8 => run(&mut SampleLocallyTypical::new(f_any("a"), sz("mk")), &mut r, l),
            9 => run(&mut SampleRepetition::new(f_any("a"), sz("k")), &mut r, l),
            10 => run(&mut SampleFreqPresence::new(f_any("a"), f_any("b"), sz("k")), &mut r, l),
            11 => run(&mut SampleSeqRepetition::new(f_any("a"), f_any("b"), sz("m"), sz("tol"), sz("merge"), sz("k")), &mut r, l),
            12 => run(&mut SampleRandDistrib::new(), &mut r, l),
            13 => run(&mut SampleMirostat2::new(f_any("a"), f_any("b")), &mut r, l),
            _ => run(&mut SampleMirostat1::new(sz("k"), f_any("a"), f_any("b")), &mut r, l),
        } }
    q_defaults { let w = pin(u("which", 0, 12)); let mut r = hist(4); let l = mk(&[f_in("x0", -30.0, 30.0), 1.0]);
        match w {
            0 => run(&mut SampleTemperature::default(), &mut r, l),
            1 => run(&mut SampleTopK::default(), &mut r, l),
            2 => run(&mut SampleTopP::default(), &mut r, l),
            3 => run(&mut SampleMinP::default(), &mut r, l),
            4 => run(&mut SampleTopA::default(), &mut r, l),
            5 => run(&mut SampleTailFree::default(), &mut r, l),
            6 => run(&mut SampleFlatBias::default(), &mut r, l),
            7 => run(&mut SampleRepetition::default(), &mut r, l),
            8 => run(&mut SampleFreqPresence::default(), &mut r, l),
            9 => run(&mut SampleSeqRepetition::default(), &mut r, l),
            10 => run(&mut SampleGreedy::default(), &mut r, l),
            11 => run(&mut SampleMirostat1::default(), &mut r, l),
            _ => run(&mut SampleMirostat2::default(), &mut r, mk(&[1.0, 0.5])),
        } }
    q_top_k_list { let v = [f_any("x0"), f_any("x1"), f_any("x2")]; let l = Logits::try_from_iter_top_k(v.iter().copied(), sz("k")); check(l.map(|l| l.len() <= 3).unwrap_or(true), "P24.grew") }
    t_top_p_3 { run(&mut SampleTopP::new(f_any("p"), sz("mk")), &mut (), any(3)) }
    t_min_p_3 { run(&mut SampleMinP::new(f_any("p"), sz("mk")), &mut (), any(3)) }
    t_top_a_3 { run(&mut SampleTopA::new(f_any("a1"), f_any("a2"), sz("mk")), &mut (), any(3)) }
    t_tail_free_5 { run(&mut SampleTailFree::new(f_any("z"), sz("mk")), &mut (), state(5)) }
    t_tail_free_raw_3 { run(&mut SampleTailFree::new(f_any("z"), sz("mk")), &mut (), raw(3)) }
    t_typical_3 { run(&mut SampleLocallyTypical::new(f_any("p"), sz("mk")), &mut (), state(3)) }
    t_typical_raw { run(&mut SampleLocallyTypical::new(f_any("p"), sz("mk")), &mut (), raw(2)) }
    t_rand_raw { run(&mut SampleRandDistrib::new(), &mut rng(), raw(2)) }
    t_seq_6 { run(&mut SampleSeqRepetition::new(1.0, 1.0, sz("m"), sz("tol"), sz("merge"), sz("n")), &mut hist(6), raw(1)) }
    t_mirostat1_3 { run(&mut SampleMirostat1::default().n_vocab(sz("vocab")).m(sz("m")).tau(f_any("tau")).eta(f_any("eta")).mu(f_any("mu")), &mut rng(), state(3)) }
    t_mirostat2_3 { run(&mut SampleMirostat2::default().tau(f_any("tau")).eta(f_any("eta")).mu(f_any("mu")), &mut rng(), state(3)) }
}
