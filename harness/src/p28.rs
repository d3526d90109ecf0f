//! P28: a usual pipeline always ends with one of the offered tokens.
use crate::lib_::*;
use crate::rt::*;
/// one of some set values
fn set(n: &str, v: &[f32]) -> f32 {
    v[pin(u(n, 0, v.len() as u64 - 1)) as usize]
}
/// what a pipeline is made of; values are set unless an entry frees them
#[derive(Clone)]
struct Plan {
    bias: Vec<(u32, f32)>,
    penalty: f32,
    last_n: usize,
    cut: f32,
    k: usize,
    keep: usize,
    temp: f32,
}
fn plan() -> Plan {
    Plan { bias: vec![(1, 0.5), (2, f32::NEG_INFINITY), (77, 3.0)], penalty: 1.2, last_n: 64, cut: 0.9, k: 3, keep: 1, temp: 0.8 }
}
fn penalise(c: &mut SamplerChain, p: &Plan) {
    *c += SampleFlatBias::new(p.bias.clone());
    *c += SampleRepetition::new(p.penalty, p.last_n);
    *c += SampleFreqPresence::new(0.1, 0.2, p.last_n);
    *c += SampleSeqRepetition::new(p.penalty, 0.1, 2, 1, 1, p.last_n);
}
const FILTERS: u64 = 7;
fn filter(c: &mut SamplerChain, p: &Plan, which: u64) {
    match which {
        0 => *c += SampleTopK::new(p.k, p.keep),
        1 => *c += SampleTopP::new(p.cut, p.keep),
        2 => *c += SampleMinP::new(p.cut * 0.5, p.keep),
        3 => *c += SampleTopA::new(p.cut, 1.5, p.keep),
        4 => *c += SampleTailFree::new(p.cut, p.keep),
        5 => *c += SampleLocallyTypical::new(p.cut, p.keep),
        _ => {}
    }
}
fn pick(c: &mut SamplerChain, which: u64) {
    match which {
        0 => *c += SampleGreedy::new(),
        1 => *c += SampleRandDistrib::new(),
        2 => *c += SampleMirostat2::new(3.0, 0.1),
        _ => *c += SampleMirostat1::new(32000, 3.0, 0.1),
    }
}
fn chain(p: &Plan, filters: &[u64], picker: u64) -> SamplerChain {
    let mut c = SamplerChain::new();
    penalise(&mut c, p);
    for f in filters {
        filter(&mut c, p, *f);
    }
    c += SampleTemperature::new(p.temp);
    pick(&mut c, picker);
    c
}
/// one step: a token of the list comes out, and the list left holds tokens of it only, each once
fn step(c: &mut SamplerChain, l: &Logits, rng: u32, h: &Vec<u32>) -> u32 {
    let mut m = l.clone();
    let r = c.sample_token(&mut res(Some(rng), Some(h.clone())), &mut m);
    let t = match r {
        Ok(Some(t)) => t,
        Ok(None) => {
            check(false, "P28.no-token");
            0
        }
        Err(_) => {
            check(false, "P28.failed");
            0
        }
    };
    reach("picked");
    check(c.sampled_token_id() == Some(t), "P28.reported");
    let (mut offered, mut left) = (false, false);
    for x in l.iter() {
        offered |= x.token_id == t;
    }
    let mut subset = true;
    for (i, x) in m.iter().enumerate() {
        left |= x.token_id == t;
        let mut one = false;
        for y in l.iter() {
            one |= y.token_id == x.token_id;
        }
        subset &= one & !nan(x.logit);
        for y in m.iter().skip(i + 1) {
            subset &= y.token_id != x.token_id;
        }
    }
    check(offered, "P28.foreign-token");
    check(left, "P28.not-left");
    check(subset, "P28.list");
    obs_ends(&m);
    obs(t as u64);
    t
}
const H: [u32; 6] = [3, 1, 0, 3, 1, 0];
fn offers() -> Logits {
    mk(&[1.25, 3.0, 0.5, 2.0, -1.0])
}
/// any of the filters, and any picker, the pickers' own lists being cut by the filter only where that is usual
fn kind() -> (u64, u64) {
    let f = pin(u("filter", 0, FILTERS - 1));
    let p = pin(u("picker", 0, 3));
    (f, p)
}
/// the parts through which a free float can be followed to the end
fn easy() -> (u64, u64) {
    (if boolean("cut") { 0 } else { 6 }, 0)
}
/// a single free thing
fn free_logit() {
    let (f, k) = easy();
    let l = mk(&[1.25, f_in("x0", -25.0, 25.0), 0.5, 2.0]);
    step(&mut chain(&plan(), &[f], k), &l, 0x8000_0000, &H.to_vec());
}
fn free_history(n: usize) {
    let (f, k) = kind();
    let h: Vec<u32> = (0..n).map(|i| u(["h0", "h1", "h2", "h3"][i], 0, 6) as u32).collect();
    step(&mut chain(&plan(), &[f], k), &offers(), 0x8000_0000, &h);
}
fn free_draw() {
    let (f, k) = kind();
    let mut p = plan();
    p.temp = set("temp", &[0.1, 0.8, 1.0, 5.0]);
    step(&mut chain(&p, &[f], k), &offers(), bits("rng", 32) as u32, &H.to_vec());
}
fn free_cut() {
    let (f, k) = kind();
    let mut p = plan();
    p.cut = f_in("cut", 0.0, 1.0);
    p.keep = pin(u("keep", 1, 2)) as usize;
    p.k = bits("k", 64) as usize;
    step(&mut chain(&p, &[f], k), &offers(), 0x2000_0000, &H.to_vec());
}
fn free_bias() {
    let (f, k) = easy();
    let b = f_num("b");
    assume(b < 100.0);
    let mut p = plan();
    p.bias = vec![(u("t", 0, 7) as u32, b), (2, f32::NEG_INFINITY)];
    step(&mut chain(&p, &[f], k), &offers(), 0x8000_0000, &H.to_vec());
}
fn free_penalty() {
    let (f, k) = easy();
    let mut p = plan();
    p.penalty = f_in("penalty", 0.5, 4.0);
    p.last_n = bits("n", 64) as usize;
    step(&mut chain(&p, &[f], k), &offers(), 0x8000_0000, &H.to_vec());
}
fn free_temp() {
    let (f, k) = easy();
    let mut p = plan();
    p.temp = f_in("temp", 0.01, 100.0);
    step(&mut chain(&p, &[f], k), &offers(), 0x8000_0000, &H.to_vec());
}
/// set values of everything at once
fn settings() {
    let (f, k) = kind();
    let mut p = plan();
    p.bias = vec![(pin(u("t", 0, 5)) as u32, set("b", &[f32::NEG_INFINITY, -30.0, 40.0]))];
    p.penalty = set("penalty", &[0.5, 1.0, 3.0]);
    p.last_n = among("n", &[0, 2, 64]);
    step(&mut chain(&p, &[f], k), &offers(), bits("rng", 32) as u32, &H.to_vec());
}
/// lists as other work leaves them: sorted or not, with probabilities or something else in their place
fn prepared() {
    let (f, k) = kind();
    let mut p = plan();
    p.k = among("k", &[1, 2, 3]);
    p.keep = pin(u("keep", 1, 2)) as usize;
    p.cut = set("cut", &[0.05, 0.9]);
    // without the penalties nothing but the filter touches the marks
    let bare = boolean("bare");
    let mut l = offers();
    match pin(u("marks", 0, 4)) {
        0 => {}
        1 => {
            check(l.ensure_sorted().is_ok(), "P28.sort");
        }
        2 => {
            check(l.ensure_softmax().is_ok(), "P28.sort");
        }
        3 => {
            for (i, x) in l.iter_mut().enumerate() {
                x.prob = [7.0, -1.0, 0.0, f32::NAN, f32::INFINITY][i];
            }
        }
        _ => {
            check(l.ensure_softmax().is_ok(), "P28.sort");
            l.set_softmax(false);
            for x in l.iter_mut() {
                x.prob = 3.0 - x.prob;
            }
        }
    }
    let mut c = SamplerChain::new();
    if !bare {
        penalise(&mut c, &p);
    }
    filter(&mut c, &p, f);
    pick(&mut c, k);
    step(&mut c, &l, 0x9000_0000, &H.to_vec());
}
fn few_set(n: usize) {
    let (f, k) = kind();
    let mut p = plan();
    p.keep = pin(u("keep", 1, 2)) as usize;
    p.bias = vec![(1, 0.5)];
    let l = mk(&[set("x", &[-80.0, 0.0, 0.5, 1.0, 90.0]), 0.5][..n]);
    step(&mut chain(&p, &[f], k), &l, bits("rng", 32) as u32, &H.to_vec());
}
/// all filters after one another
fn all_filters() {
    let mut p = plan();
    p.cut = set("cut", &[0.0, 0.3, 0.95, 1.0]);
    p.keep = pin(u("keep", 1, 2)) as usize;
    let k = pin(u("picker", 0, 3));
    let order: [u64; 6] = match pin(u("order", 0, 2)) {
        0 => [0, 4, 5, 1, 2, 3],
        1 => [5, 4, 3, 2, 1, 0],
        _ => [2, 0, 5, 3, 4, 1],
    };
    step(&mut chain(&p, &order, k), &offers(), bits("rng", 32) as u32, &H.to_vec());
}
/// short lists
fn few(n: usize) {
    let (f, k) = easy();
    let mut p = plan();
    p.keep = pin(u("keep", 1, 2)) as usize;
    p.bias = vec![(1, 0.5)];
    let l = mk(&[f_in("x0", -25.0, 25.0), 0.5][..n]);
    step(&mut chain(&p, &[f], k), &l, 0x8000_0000, &H.to_vec());
}
/// steps one after another with the same chain, the history growing
fn steps(n: usize) {
    let (f, k) = kind();
    let mut c = chain(&plan(), &[f], k);
    let mut h = vec![];
    let r = bits("rng", 32) as u32;
    for i in 0..n {
        let l = mk(&[1.25, 3.0 - i as f32, 0.5, 2.0, 0.25 * i as f32]);
        let t = step(&mut c, &l, if i == 1 { r } else { 0x9000_0000 }, &h);
        h.push(t);
    }
}
/// a long list
fn long(n: usize) {
    let (f, k) = kind();
    let mut p = plan();
    p.k = 40;
    let mut l = shaped(n);
    l.set_sorted(false).set_softmax(false);
    p.bias = vec![(l[0].token_id, -0.5), (l[n / 2].token_id, f32::NEG_INFINITY), (1_000_000, 2.0)];
    let h = vec![l[3].token_id, l[0].token_id, l[1].token_id, l[3].token_id, l[0].token_id, l[1].token_id];
    step(&mut chain(&p, &[f], k), &l, bits("rng", 32) as u32, &h);
}
/// a long list and mirostat from strict to loose, in both list orders
fn long_mirostat(n: usize) {
    let tau = set("tau", &[0.5, 3.0, 30.0]);
    let v: Vec<f32> = (0..n).map(|i| i as f32 * 0.01).collect();
    let mut l = mk(&v);
    if boolean("reversed") {
        l.reverse();
    }
    let mut c = SamplerChain::new();
    let mut p = plan();
    if boolean("none-banned") {
        p.bias = vec![(1, 0.5)];
    }
    penalise(&mut c, &p);
    c += SampleTemperature::new(0.8);
    if boolean("one") {
        c += SampleMirostat1::new(32000, tau, 0.1);
    } else {
        c += SampleMirostat2::new(tau, 0.1);
    }
    let r = among("rng", &[0, 0x2000_0000, 0x8000_0000, 0xffff_ffff]) as u32;
    step(&mut c, &l, r, &H.to_vec());
}
type Dyn = Box<dyn BuildableSampler<usize, f32>>;
/// the same pipeline put together by slots and configuration strings, some parts shared or nested
fn built() {
    let k = pin(u("picker", 0, 3));
    let one = |s: Dyn| -> SamplerSlot<usize, f32> { let mut s = Some(s); SamplerSlot::new_static(move || s.take().unwrap()) };
    let mut b = SamplerChainBuilder::<usize, f32>::default()
        + ("bias".to_string(), one(Box::new(SampleFlatBias::new([(1, 0.5), (2, f32::NEG_INFINITY)]))))
        + ("rep".to_string(), SamplerSlot::new_single(|| Box::new(SampleRepetition::default()) as Dyn, None::<SampleRepetition>))
        + ("freq".to_string(), SamplerSlot::new_single(|| Box::new(SampleFreqPresence::default()) as Dyn, Some(SampleFreqPresence::default())))
        + ("seq".to_string(), SamplerSlot::new_chain(|| Box::new(SampleSeqRepetition::default()) as Dyn, []))
        + ("topk".to_string(), SamplerSlot::new_single(|| Box::new(SampleTopK::default()) as Dyn, None::<SampleTopK>))
        + ("tail".to_string(), SamplerSlot::new_single(|| Box::new(SampleTailFree::default()) as Dyn, None::<SampleTailFree>))
        + ("typical".to_string(), SamplerSlot::new_single(|| Box::new(SampleLocallyTypical::default()) as Dyn, None::<SampleLocallyTypical>))
        + ("topp".to_string(), SamplerSlot::new_single(|| Box::new(SampleTopP::default()) as Dyn, None::<SampleTopP>))
        + ("minp".to_string(), SamplerSlot::new_single(|| Box::new(SampleMinP::default()) as Dyn, None::<SampleMinP>))
        + ("topa".to_string(), SamplerSlot::new_single(|| Box::new(SampleTopA::default()) as Dyn, None::<SampleTopA>))
        + ("temp".to_string(), SamplerSlot::new_single(|| Box::new(SampleTemperature::default()) as Dyn, None::<SampleTemperature>));
    const S: [(&str, &str); 10] = [
        ("rep", "penalty=1.3 : last_n=64"),
        ("freq", "f=0.25:p=0.5:l=64"),
        ("seq", "flat=1.0:stack=0.5:min_l=2"),
        ("topk", "3"),
        ("tail", "z=0.9"),
        ("typical", "p=0.7:min_keep=2"),
        ("topp", "p=0.9"),
        ("minp", "0.05"),
        ("topa", "a1=0.2:a2=2"),
        ("temp", "0.8"),
    ];
    let skip = pin(u("skip", 0, S.len() as u64)) as usize;
    for (i, (n, s)) in S.iter().enumerate() {
        if i != skip {
            let ok = match *s {
                "3" => b.configure(n, "k=3"),
                "0.05" => b.configure(n, "p=0.05"),
                s => b.configure(n, s),
            };
            check(ok.is_ok(), "P28.configured");
        }
        if i % 4 == 1 {
            for x in b.iter_mut() {
                if skip % 2 == 0 {
                    x.1.ensure_present();
                }
            }
        }
    }
    let mut c = b.into_chain();
    pick(&mut c, k);
    let mut outer = SamplerChain::new() + c;
    step(&mut outer, &offers(), bits("rng", 32) as u32, &H.to_vec());
}
entries! {
    q_built { built() }
    q_logit { require("picked"); free_logit() }
    q_history { free_history(3) }
    q_draw { free_draw() }
    q_cut { free_cut() }
    q_bias { free_bias() }
    q_penalty { free_penalty() }
    q_temp { free_temp() }
    q_all { all_filters() }
    q_one { few(1) }
    q_two { few(2) }
    q_one_set { few_set(1) }
    q_prepared { prepared() }
    q_two_set { few_set(2) }
    q_settings { settings() }
    q_steps { steps(6) }
    q_long { long(80) }
    q_long_mirostat { long_mirostat(100) }
    t_steps { steps(20) }
    t_long { long(300) }
    t_history { free_history(4) }
}
