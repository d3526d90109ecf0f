//! P20: options are set and read by key, unambiguous prefix and type.
use crate::lib_::*;
use crate::opts::*;
use crate::rt::*;
use std::borrow::Cow;
trait Conf: ConfigurableSampler<usize, f32> + HasSamplerMetadata<usize, f32> {}
impl<T: ConfigurableSampler<usize, f32> + HasSamplerMetadata<usize, f32>> Conf for T {}
const BN: [&str; 8] = ["k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"];
/// a printable byte
fn ch(n: &str) -> u8 {
    u(n, 0x21, 0x7e) as u8
}
fn anykey(len: usize) -> Vec<u8> {
    (0..len).map(|i| ch(BN[i])).collect()
}
/// a value of any type, with what it should read back as
fn value<'a>() -> (SamplerOptionValue<'a>, Val) {
    match pin(u("type", 0, 3)) {
        0 => {
            let v = bits("uint", 64);
            (SamplerOptionValue::UInt(v), Val { kind: 0, bits: v })
        }
        1 => {
            let v = f64::from_bits(bits("float", 64));
            (SamplerOptionValue::Float(v), Val { kind: 1, bits: fbits(v as f32) })
        }
        2 => {
            let v = boolean("bool");
            (SamplerOptionValue::Bool(v), Val { kind: 2, bits: v as u64 })
        }
        _ => (SamplerOptionValue::String(Cow::from("ab")), Val { kind: 3, bits: hash("ab") }),
    }
}
/// set `key`, compare all options before and after with the expectation
fn one<S: Conf>(mut s: S, key: Vec<u8>) {
    let before = snap(&s);
    let keys: Vec<&str> = before.iter().map(|x| x.0).collect();
    let want = resolve(&keys, &key);
    let key = unsafe { String::from_utf8_unchecked(key) };
    let (v, val) = value();
    let ok = s.set_option(&key, v).is_ok();
    let after = snap(&s);
    if after.len() != before.len() {
        return check(false, "P20.table");
    }
    let hit = want.filter(|i| before[*i].1.kind == val.kind);
    check(ok == hit.is_some(), "P20.accepted");
    if ok {
        reach("set");
    } else {
        reach("refused");
    }
    for i in 0..after.len() {
        let (k, a) = after[i];
        let exp = if Some(i) == hit {
            val
        } else if k == "mu" && hit.map(|h| before[h].0) == Some("tau") {
            Val { kind: 1, bits: fbits(f32::from_bits(val.bits as u32) * 2.0) }
        } else {
            before[i].1
        };
        check(k == before[i].0, "P20.table");
        if Some(i) == hit {
            check(eqv(&a, &exp), "P20.set");
        } else {
            check(eqv(&a, &exp), "P20.other-option");
        }
        if a.kind != 9 {
            // reading by the full key
            match s.get_option(k) {
                Ok(g) => check(eqv(&seen(g), &a), "P20.get"),
                Err(_) => check(false, "P20.get"),
            }
        }
    }
    // reading by the same key as was used for setting
    match s.get_option(&key) {
        Ok(g) => match want {
            Some(i) => check(eqv(&seen(g), &after[i].1), "P20.get-by-prefix"),
            None => check(false, "P20.get-unknown"),
        },
        Err(_) => check(want.map(|i| before[i].1.kind == 9).unwrap_or(true), "P20.get-refused"),
    }
}
/// options of a sampler that has been at work
fn worked<S: Conf + Sampler>(mut s: S) {
    for i in 0..pin(u("runs", 1, 2)) {
        let mut l = mk(&[1.0, 2.0, 0.5, -1.0][..4 - i as usize]);
        let h = vec![0, 1, 2, 0, 1];
        check(s.sample(&mut res(Some(0x1000_0000), Some(h)), &mut l).is_ok(), "P20.run");
    }
    let keys: Vec<&str> = snap(&s).iter().map(|x| x.0).collect();
    let i = pin(u("opt", 0, keys.len() as u64 - 1)) as usize;
    one(s, keys[i].as_bytes().to_vec())
}
/// every key of up to `max` printable bytes
fn short<S: Conf>(s: S, max: u64) {
    let len = pin(u("len", 0, max)) as usize;
    one(s, anykey(len))
}
/// every prefix of every key, possibly with one byte replaced or one added
fn near<S: Conf>(s: S) {
    let keys: Vec<&str> = snap(&s).iter().map(|x| x.0).collect();
    let i = pin(u("opt", 0, keys.len() as u64 - 1)) as usize;
    let k = keys[i].as_bytes();
    let len = pin(u("len", 1, k.len() as u64)) as usize;
    let mut v = k[..len].to_vec();
    match pin(u("edit", 0, 2)) {
        0 => {}
        1 => v[len - 1] = ch("byte"),
        _ => v.push(ch("byte")),
    }
    one(s, v)
}
/// the sampler reports the values it was built with under the documented keys, and setting them gives the same sampler
fn built<S: Conf>(s: S, mut t: S, vals: &[(&str, Val)], eq: impl Fn(&S, &S) -> bool) {
    let a = snap(&s);
    check(a.len() == vals.len(), "P20.keys");
    // the declared types are those of the values
    for (i, o) in s.sampler_metadata().options.iter().enumerate() {
        let k = match o.option_type {
            SamplerOptionType::UInt => 0,
            SamplerOptionType::Float => 1,
            SamplerOptionType::Bool => 2,
            SamplerOptionType::String => 3,
        };
        check(i < a.len() && o.key == a[i].0 && k == a[i].1.kind, "P20.declared-type");
    }
    for (k, v) in vals {
        match s.get_option(k) {
            Ok(g) => check(eqv(&seen(g), v), "P20.constructed"),
            Err(_) => check(false, "P20.constructed"),
        }
        let val = if v.kind == 0 { SamplerOptionValue::UInt(v.bits) } else { SamplerOptionValue::Float(f32::from_bits(v.bits as u32) as f64) };
        check(t.set_option(k, val).is_ok(), "P20.settable");
    }
    check(same_snap(&a, &snap(&t)), "P20.configured-same");
    check(eq(&s, &t), "P20.configured-equal");
    reach("built");
}
fn ui(n: &str) -> (usize, Val) {
    let v = bits(n, 64);
    (v as usize, Val { kind: 0, bits: v })
}
fn fl(n: &str) -> (f32, Val) {
    let v = f_num(n);
    (v, Val { kind: 1, bits: v.to_bits() as u64 })
}
fn f2(v: Val) -> Val {
    Val { kind: 1, bits: (f32::from_bits(v.bits as u32) * 2.0).to_bits() as u64 }
}
/// built by the builder methods and built by the constructor are the same
fn methods<S: Conf>(a: S, b: S) {
    check(same_snap(&snap(&a), &snap(&b)), "P20.builder-methods");
}
/// blanks around the key do not matter
fn blanks() {
    let mut a = all();
    let mut b = a.clone();
    let mut k = vec![];
    if boolean("before") {
        k.push(b' ');
    }
    k.push(ch("k0"));
    k.push(ch("k1"));
    if boolean("after") {
        k.push(b'\t');
    }
    let k = unsafe { String::from_utf8_unchecked(k) };
    let (v, _) = value();
    let x = a.set_option(&k, v.clone()).is_ok();
    let y = b.set_option(k.trim_matches(|c| c == ' ' || c == '\t'), v).is_ok();
    check(x == y, "P20.blanks");
    check(same_snap(&snap(&a), &snap(&b)), "P20.blanks");
}
/// settings one after the other: each leaves the others' values
fn several<S: Conf>(mut s: S, n: usize) {
    let mut want = snap(&s);
    let uints = want.iter().filter(|x| x.1.kind == 0).count();
    for i in 0..n {
        let o = pin(u(["opt0", "opt1", "opt2"][i], 0, want.len() as u64 - 1)) as usize;
        let k = want[o].0;
        let (v, bits) = if want[o].1.kind == 0 {
            let v = bits(["a0", "a1", "a2"][i], 64);
            (SamplerOptionValue::UInt(v), v)
        } else {
            let v = f_num(["f0", "f1", "f2"][i]);
            (SamplerOptionValue::Float(v as f64), fbits(v))
        };
        check(s.set_option(k, v).is_ok(), "P20.accepted");
        want[o].1.bits = bits;
        if k == "tau" {
            for w in want.iter_mut().filter(|w| w.0 == "mu") {
                w.1.bits = fbits(f32::from_bits(bits as u32) * 2.0);
            }
        }
    }
    let got = snap(&s);
    check(got.len() == want.len() && uints <= got.len(), "P20.table");
    for i in 0..got.len() {
        check((got[i].0 == want[i].0) & eqv(&got[i].1, &want[i].1), "P20.several");
    }
}
fn seqrep() -> SampleSeqRepetition {
    SampleSeqRepetition::new(f_num("flat"), f_num("stack"), bits("m", 64) as usize, bits("tol", 64) as usize, bits("merge", 64) as usize, bits("last", 64) as usize)
}
fn m1() -> SampleMirostat1 {
    SampleMirostat1::new(bits("vocab", 64) as usize, f_num("tau"), f_num("eta")).m(bits("m", 64) as usize).mu(f_num("mu"))
}
fn m2() -> SampleMirostat2 {
    SampleMirostat2::new(f_num("tau"), f_num("eta")).mu(f_num("mu"))
}
fn freq() -> SampleFreqPresence {
    SampleFreqPresence::new(f_num("freq"), f_num("pres"), bits("last", 64) as usize)
}
fn rep() -> SampleRepetition {
    SampleRepetition::new(f_num("pen"), bits("last", 64) as usize)
}
fn topa() -> SampleTopA {
    SampleTopA::new(f_num("a1"), f_num("a2"), bits("mk", 64) as usize)
}
fn topk() -> SampleTopK {
    SampleTopK::new(bits("k", 64) as usize, bits("mk", 64) as usize)
}
fn pmk() -> (f32, usize) {
    (f_num("p"), bits("mk", 64) as usize)
}
macro_rules! each {
    ($($short:ident $near:ident $e:expr;)*) => {
        entries! {
    q_worked_mirostat2 { require("set"); worked(SampleMirostat2::new(3.0, 0.1)) }
    q_worked_mirostat1 { require("set"); worked(SampleMirostat1::new(100, 3.0, 0.1)) }
    q_worked_other { match pin(u("which", 0, 5)) {
        0 => worked(SampleSeqRepetition::default()),
        1 => worked(SampleRepetition::default()),
        2 => worked(SampleTailFree::default()),
        3 => worked(SampleTopP::new(0.5, 1)),
        4 => worked(SampleTopK::new(2, 1)),
        _ => worked(SampleTopA::new(0.5, 1.5, 1)),
    } }
            $( $short { require("set"); require("refused"); short($e, 2) } $near { require("set"); require("refused"); near($e) } )*
            q_all_3 { require("set"); short(all(), 3) }
            q_several { match pin(u("which", 0, 11)) { 0 => several(freq(), 2), 1 => several(rep(), 2), 2 => several(seqrep(), 2), 3 => several(SampleLocallyTypical::default(), 2), 4 => several(SampleMinP::default(), 2), 5 => several(SampleTopP::default(), 2),
                6 => several(SampleTailFree::default(), 2), 7 => several(topk(), 2), 8 => several(topa(), 2), 9 => several(SampleTemperature::default(), 2), 10 => several(m1(), 2), _ => several(m2(), 2) } }
            t_several { match pin(u("which", 0, 5)) { 0 => several(freq(), 3), 1 => several(seqrep(), 3), 2 => several(topa(), 3), 3 => several(m1(), 3), 4 => several(m2(), 3), _ => several(topk(), 3) } }
            q_blanks { blanks() }
            q_greedy { short(SampleGreedy::new(), 2) }
            q_rand { short(SampleRandDistrib::new(), 2) }
            q_flat_bias { short(SampleFlatBias::new([(1, 2.0)]), 2) }
            q_built_freq { let ((a, x), (b, y), (c, z)) = (fl("a"), fl("b"), ui("c")); built(SampleFreqPresence::new(a, b, c), SampleFreqPresence::default(), &[("frequency_penalty", x), ("presence_penalty", y), ("last_n", z)], |_, _| true);
                methods(SampleFreqPresence::default().frequency(a).presence(b).last_n(c), SampleFreqPresence::new(a, b, c)) }
            q_built_rep { let ((a, x), (c, z)) = (fl("a"), ui("c")); built(SampleRepetition::new(a, c), SampleRepetition::default(), &[("penalty", x), ("last_n", z)], |_, _| true);
                methods(SampleRepetition::default().penalty(a).last_n(c), SampleRepetition::new(a, c)) }
            q_built_seq { let ((a, x), (b, y), (c, z), (d, v), (e, w), (f, t)) = (fl("a"), fl("b"), ui("c"), ui("d"), ui("e"), ui("f"));
                built(SampleSeqRepetition::new(a, b, c, d, e, f), SampleSeqRepetition::default(), &[("flat_penalty", x), ("stacking_penalty", y), ("min_length", z), ("tolerance", v), ("max_merge", w), ("last_n", t)], |_, _| true);
                methods(SampleSeqRepetition::default().flat_penalty(a).stacking_penalty(b).min_length(c).tolerance(d).max_merge(e).last_n(f), SampleSeqRepetition::new(a, b, c, d, e, f)) }
            q_built_typical { let ((a, x), (c, z)) = (fl("a"), ui("c")); built(SampleLocallyTypical::new(a, c), SampleLocallyTypical::default(), &[("p", x), ("min_keep", z)], |a, b| a == b); methods(SampleLocallyTypical::default().p(a).min_keep(c), SampleLocallyTypical::new(a, c)) }
            q_built_min_p { let ((a, x), (c, z)) = (fl("a"), ui("c")); built(SampleMinP::new(a, c), SampleMinP::default(), &[("p", x), ("min_keep", z)], |a, b| a == b); methods(SampleMinP::default().p(a).min_keep(c), SampleMinP::new(a, c)) }
            q_built_top_p { let ((a, x), (c, z)) = (fl("a"), ui("c")); built(SampleTopP::new(a, c), SampleTopP::default(), &[("p", x), ("min_keep", z)], |a, b| a == b); methods(SampleTopP::default().p(a).min_keep(c), SampleTopP::new(a, c)) }
            q_built_tail { let ((a, x), (c, z)) = (fl("a"), ui("c")); built(SampleTailFree::new(a, c), SampleTailFree::default(), &[("z", x), ("min_keep", z)], |a, b| a == b); methods(SampleTailFree::default().z(a).min_keep(c), SampleTailFree::new(a, c)) }
            q_built_top_k { let ((a, x), (c, z)) = (ui("a"), ui("c")); built(SampleTopK::new(a, c), SampleTopK::default(), &[("k", x), ("min_keep", z)], |a, b| a == b); methods(SampleTopK::default().k(a).min_keep(c), SampleTopK::new(a, c)) }
            q_built_top_a { let ((a, x), (b, y), (c, z)) = (fl("a"), fl("b"), ui("c")); built(SampleTopA::new(a, b, c), SampleTopA::default(), &[("a1", x), ("a2", y), ("min_keep", z)], |a, b| a == b); methods(SampleTopA::default().a1(a).a2(b).min_keep(c), SampleTopA::new(a, b, c)) }
            q_built_temp { let (a, x) = fl("a"); built(SampleTemperature::new(a), SampleTemperature::default(), &[("temperature", x)], |a, b| a == b); methods(SampleTemperature::default().temperature(a), SampleTemperature::new(a)) }
            q_built_mirostat1 { let ((a, x), (b, y), (c, z), (d, v)) = (fl("a"), fl("b"), ui("c"), ui("d"));
                built(SampleMirostat1::new(c, a, b).m(d), SampleMirostat1::default(), &[("tau", x), ("eta", y), ("n_vocab", z), ("m", v), ("mu", f2(x))], |_, _| true);
                methods(SampleMirostat1::default().mu(3.0).tau(a).eta(b).n_vocab(c).m(d), SampleMirostat1::new(c, a, b).m(d)) }
            q_built_mirostat2 { let ((a, x), (b, y)) = (fl("a"), fl("b"));
                built(SampleMirostat2::new(a, b), SampleMirostat2::default(), &[("tau", x), ("eta", y), ("mu", f2(x))], |_, _| true);
                methods(SampleMirostat2::default().mu(3.0).tau(a).eta(b), SampleMirostat2::new(a, b)) }
            t_seq_4 { short(seqrep(), 4) }
            t_mirostat1_4 { short(m1(), 4) }
            t_all_4 { short(all(), 4) }
        }
    };
}
each! {
    q_freq q_near_freq freq();
    q_rep q_near_rep rep();
    q_seq q_near_seq seqrep();
    q_typical q_near_typical { let (p, m) = pmk(); SampleLocallyTypical::new(p, m) };
    q_min_p q_near_min_p { let (p, m) = pmk(); SampleMinP::new(p, m) };
    q_top_p q_near_top_p { let (p, m) = pmk(); SampleTopP::new(p, m) };
    q_tail q_near_tail { let (p, m) = pmk(); SampleTailFree::new(p, m) };
    q_top_k q_near_top_k topk();
    q_top_a q_near_top_a topa();
    q_temp q_near_temp SampleTemperature::new(f_num("t"));
    q_mirostat1 q_near_mirostat1 m1();
    q_mirostat2 q_near_mirostat2 m2();
    q_all q_near_all all();
}
