//! P22: the builder yields the configured samplers in slot order.
use crate::lib_::*;
use crate::mock::*;
use crate::rt::*;
type Dyn = Box<dyn BuildableSampler<usize, f32>>;
type Slot = SamplerSlot<usize, f32>;
type Builder = SamplerChainBuilder<usize, f32>;
/// what a slot holds according to the reference
#[derive(Clone)]
enum Ref {
    Static(Mock),
    Single(Mock, Option<Mock>),
    Chain(Mock, Vec<Mock>),
}
fn fresh(i: u64) -> Mock {
    Mock { a: 3, b: 0.5, ..mock(i as u32, false, Some(i as u32)) }
}
fn ready(i: u64, j: u64) -> Mock {
    let t = (i * 10 + j + 100) as u32;
    Mock { a: 4 + j as usize, b: 0.25, ..mock(t, false, if j == 1 { None } else { Some(t) }) }
}
const KINDS: u64 = 6;
/// slot number `i` of kind `k`, with the reference
fn slot(i: u64, k: u64) -> (Slot, Ref) {
    let f = move || Box::new(fresh(i)) as Dyn;
    match k {
        0 => (SamplerSlot::new_static(f), Ref::Static(fresh(i))),
        1 => (SamplerSlot::new_single(f, None::<Mock>), Ref::Single(fresh(i), None)),
        2 => (SamplerSlot::new_single(f, Some(ready(i, 0))), Ref::Single(fresh(i), Some(ready(i, 0)))),
        3 => (SamplerSlot::new_chain(f, []), Ref::Chain(fresh(i), vec![])),
        4 => (SamplerSlot::new_chain(f, [Box::new(ready(i, 0)) as Dyn]), Ref::Chain(fresh(i), vec![ready(i, 0)])),
        _ => (
            SamplerSlot::new_chain(f, [Box::new(ready(i, 0)) as Dyn, Box::new(ready(i, 1))]),
            Ref::Chain(fresh(i), vec![ready(i, 0), ready(i, 1)]),
        ),
    }
}
const NAMES: [&str; 5] = ["st", "s", "u", "", "stx"];
const KIND: [&str; 3] = ["kind0", "kind1", "kind2"];
const NAME: [&str; 3] = ["name0", "name1", "name2"];
fn assemble(how: u64, slots: Vec<(&'static str, Slot)>) -> Builder {
    match how {
        0 => Builder::from(slots),
        1 => {
            let mut b = Builder::default();
            for (n, s) in slots {
                b.push_slot(n.to_string(), s);
            }
            b
        }
        2 => {
            let mut b = Builder::default();
            for (n, s) in slots {
                b += (n.to_string(), s);
            }
            b
        }
        3 => {
            let mut b = Builder::default();
            for (n, s) in slots {
                b = b + (n.to_string(), s);
            }
            b
        }
        _ => {
            let mut it = slots.into_iter();
            let first: Vec<_> = it.by_ref().take(1).collect();
            let mut b = Builder::from(first);
            for (n, s) in it {
                b.push((n.to_string(), s));
            }
            b
        }
    }
}
fn text(form: u64, d: u8) -> String {
    let mut v: Vec<u8> = match form {
        0 => b"a=0".to_vec(),
        1 => b"a=9:zz=0".to_vec(),
        2 => b"b= 0".to_vec(),
        3 => b"".to_vec(),
        4 => b"a=x0".to_vec(),
        _ => b"b=7:a=0".to_vec(),
    };
    let n = v.len();
    if form != 3 {
        v[n - 1] = d;
    }
    unsafe { String::from_utf8_unchecked(v) }
}
const FORMS: u64 = 6;
fn ref_configure(refs: &mut [Ref], names: &[&str], name: &str, s: &str) -> u8 {
    for i in 0..refs.len() {
        if names[i] != name {
            continue;
        }
        return match &mut refs[i] {
            Ref::Static(_) => 2,
            Ref::Single(_, Some(m)) => m.configure(s).is_err() as u8 * 3,
            Ref::Single(f, x) => {
                let mut m = f.clone();
                let r = m.configure(s).is_err();
                if !r {
                    *x = Some(m);
                }
                r as u8 * 3
            }
            Ref::Chain(f, v) => {
                let mut m = f.clone();
                let r = m.configure(s).is_err();
                if !r {
                    v.push(m);
                }
                r as u8 * 3
            }
        };
    }
    1
}
fn ref_ensure(r: &mut Ref) {
    match r {
        Ref::Single(f, x) if x.is_none() => *x = Some(f.clone()),
        Ref::Chain(f, v) if v.is_empty() => v.push(f.clone()),
        _ => (),
    }
}
fn compare(chain: &mut SamplerChain, want: &[&Mock]) {
    let mut res = SimpleSamplerResources::new(None, Some(vec![]));
    let mut l = Logits::default();
    chain.sample_prepend(&mut res);
    let ok = chain.sample(&mut res, &mut l).is_ok();
    check(ok, "P22.runs");
    check(l.len() == want.len(), "P22.count");
    let mut seen = vec![];
    let _ = res.with_last_tokens(&mut |t| seen.extend_from_slice(t));
    check(seen.len() == want.len(), "P22.count");
    for i in 0..want.len() {
        check(l[i].token_id == want[i].tag, "P22.order");
        check(seen[i] == want[i].tag, "P22.order");
        check(same(l[i].logit, want[i].b) & same(l[i].prob, want[i].a as f32), "P22.configured");
    }
    check(chain.sampled_token_id() == want.last().and_then(|m| m.tok), "P22.token");
}
fn all_of(refs: &[Ref]) -> Vec<&Mock> {
    let mut v = vec![];
    for r in refs {
        match r {
            Ref::Static(m) => v.push(m),
            Ref::Single(_, m) => v.extend(m.iter()),
            Ref::Chain(_, m) => v.extend(m.iter()),
        }
    }
    v
}
/// `n` slots, then `ops` operations, then the chain
fn program(n: usize, how: u64, names: usize, ops: &[(&str, &str, &str, &str)], kinds: &[u64]) {
    let (mut slots, mut refs, mut nm) = (vec![], vec![], vec![]);
    for i in 0..n {
        let k = kinds[pin(u(KIND[i], 0, kinds.len() as u64 - 1)) as usize];
        let name = NAMES[if names == 0 { i } else { pin(u(NAME[i], 0, names as u64)) as usize }];
        let (s, r) = slot(i as u64, k);
        slots.push((name, s));
        refs.push(r);
        nm.push(name);
    }
    let how = if how == 9 { pin(u("how", 0, 4)) } else { how };
    let mut b = assemble(how, slots);
    check(b.len() == n, "P22.slots");
    for (op, target, form, d) in ops {
        if pin(u(op, 0, 1)) == 0 {
            let i = pin(u(target, 0, n as u64 - 1)) as usize;
            b[i].1.ensure_present();
            ref_ensure(&mut refs[i]);
        } else {
            let name = NAMES[pin(u(target, 0, NAMES.len() as u64 - 1)) as usize];
            let s = text(pin(u(form, 0, FORMS - 1)), u(d, b'0' as u64, b'9' as u64) as u8);
            let got = match b.configure(name, &s) {
                Ok(_) => 0,
                Err(e) => match e.downcast_ref::<BuildSamplersError>() {
                    Some(BuildSamplersError::UnknownSlot(x)) => 1 + 8 * (x != name) as u8,
                    Some(BuildSamplersError::CannotConfigureStatic(x)) => 2 + 8 * (x != name) as u8,
                    Some(BuildSamplersError::ConfigureFailed { name: x, .. }) => 3 + 8 * (x != name) as u8,
                    None => 7,
                },
            };
            let want = ref_configure(&mut refs, &nm, name, &s);
            check(got == want, "P22.outcome");
            match want {
                0 => reach("configured"),
                1 => reach("unknown"),
                2 => reach("static"),
                _ => reach("failed"),
            }
        }
    }
    let want = all_of(&refs);
    let mut chain = b.into_chain();
    compare(&mut chain, &want);
    // every run is alike
    compare(&mut chain, &want);
}
const OPS: [(&str, &str, &str, &str); 3] = [("op0", "to0", "form0", "d0"), ("op1", "to1", "form1", "d1"), ("op2", "to2", "form2", "d2")];
const EVERY: [u64; 6] = [0, 1, 2, 3, 4, 5];
const CN: [[&str; 3]; 3] = [["x0", "x1", "x2"], ["y0", "y1", "y2"], ["z0", "z1", "z2"]];
/// any name of up to `max` printable characters
fn any_name(i: usize, max: u64) -> String {
    let n = pin(u(["lenx", "leny", "lenz"][i], 0, max)) as usize;
    unsafe { String::from_utf8_unchecked((0..n).map(|j| u(CN[i][j], 0x20, 0x7e) as u8).collect()) }
}
/// two slots and a configuration of arbitrary names: the first slot of exactly that name is meant
fn names(max: u64, how: u64) {
    let (a, b, c) = (any_name(0, max), any_name(1, max), any_name(2, max));
    let (s0, r0) = slot(0, 1);
    let (s1, r1) = slot(1, 1);
    let mut bl = assemble_owned(how, vec![(a.clone(), s0), (b.clone(), s1)]);
    let ok = bl.configure(&c, "a=9").is_ok();
    let (ea, eb) = (a == c, b == c);
    let mut refs = [r0, r1];
    let mut nm = ["0", "1"];
    if ea {
        nm[0] = "hit";
    } else if eb {
        nm[1] = "hit";
    }
    let want = ref_configure(&mut refs, &nm, "hit", "a=9") == 0;
    check(ok == want, "P22.name");
    compare(&mut bl.into_chain(), &all_of(&refs));
}
/// the text reaches the sampler as it is
fn any_text(n: u64, k: u64) {
    let len = pin(u("len", 0, n)) as usize;
    let t: Vec<u8> = (0..len).map(|j| u(["b0", "b1", "b2", "b3", "b4"][j], 0, 0x7f) as u8).collect();
    let t = unsafe { String::from_utf8_unchecked(t) };
    let (s, r) = slot(0, k);
    let mut b = assemble(0, vec![("s", s)]);
    let ok = b.configure("s", &t).is_ok();
    let mut refs = [r];
    check(ok == (ref_configure(&mut refs, &["s"], "s", &t) == 0), "P22.text");
    compare(&mut b.into_chain(), &all_of(&refs));
}
fn assemble_owned(how: u64, slots: Vec<(String, Slot)>) -> Builder {
    if how == 0 {
        return Builder::from(slots);
    }
    let mut b = Builder::default();
    for (n, s) in slots {
        b.push_slot(n, s);
    }
    b
}
/// built-in samplers: a built chain acts like the samplers in a row
fn real(ops: usize) {
    let mut b = Builder::default()
        + ("temp".to_string(), SamplerSlot::new_chain(|| Box::new(SampleTemperature::default()) as Dyn, []))
        + ("topk".to_string(), SamplerSlot::new_single(|| Box::new(SampleTopK::default()) as Dyn, None::<SampleTopK>))
        + ("pick".to_string(), SamplerSlot::new_static(|| Box::new(SampleGreedy::new()) as Dyn));
    let mut temps = vec![];
    let mut topk = None;
    for i in 0..ops {
        let which = boolean(["w0", "w1", "w2"][i]);
        let d = pin(u(["d0", "d1", "d2"][i], 1, 4)) as u8;
        let mut s = if which { b"temperature=0".to_vec() } else { b"k=0".to_vec() };
        let n = s.len();
        s[n - 1] = b'0' + d;
        let s = unsafe { String::from_utf8_unchecked(s) };
        if which {
            check(b.configure("temp", s).is_ok(), "P22.real");
            temps.push(d as f32);
        } else {
            check(b.configure("topk", s).is_ok(), "P22.real");
            topk = Some(d as usize);
        }
    }
    let mut l1 = Logits::try_from_iter([1.5f32, -2.0, 4.0, 0.0]).unwrap();
    let mut l2 = l1.clone();
    let mut chain = b.into_chain();
    let mut res = NilSamplerResources::default();
    let got = chain.sample_token(&mut res, &mut l1).ok().flatten();
    for t in temps {
        let _ = SampleTemperature::new(t).sample(&mut res, &mut l2);
    }
    if let Some(k) = topk {
        let _ = SampleTopK::new(k, 1).sample(&mut res, &mut l2);
    }
    let want = SampleGreedy::new().sample_token(&mut res, &mut l2).ok().flatten();
    check(got == want, "P22.real");
    check(same_logits(&l1, &l2), "P22.real");
}
/// many slots, many settings, one digit free
fn vast_slots(n: usize, ops: usize) {
    let (mut slots, mut refs, mut nm) = (vec![], vec![], vec![]);
    let names: Vec<String> = (0..n).map(|i| if i % 11 == 10 { "st".to_string() } else { format_num(i) }).collect();
    for i in 0..n {
        let (s, r) = slot(i as u64, (i * 5 % 6) as u64);
        slots.push((names[i].clone(), s));
        refs.push(r);
        nm.push(names[i].as_str());
    }
    let mut b = assemble_owned(pin(u("how", 0, 1)), slots);
    let at = pin(u("at", 0, 2)) as usize * (ops / 2 - 1);
    for i in 0..ops {
        let name = nm[if i % 3 == 0 { 3 } else { i * 7 % n }];
        let s = text(if i == at { pin(u("form", 0, FORMS - 1)) } else { (i % 6) as u64 }, if i == at { u("d", b'0' as u64, b'9' as u64) as u8 } else { b'0' + (i % 10) as u8 });
        let ok = b.configure(name, &s).is_ok();
        check(ok == (ref_configure(&mut refs, &nm, name, &s) == 0), "P22.outcome");
        if i % 17 == 5 {
            b[i % n].1.ensure_present();
            ref_ensure(&mut refs[i % n]);
        }
    }
    compare(&mut b.into_chain(), &all_of(&refs));
}
/// decimal digits of a small number, with a letter in front
fn format_num(i: usize) -> String {
    let mut v = vec![b's'];
    for d in [100, 10, 1] {
        v.push(b'0' + (i / d % 10) as u8);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
entries! {
    q_vast_slots { let (n, o) = [(40, 80), (300, 20), (5, 300)][pin(u("size", 0, 2)) as usize]; vast_slots(n, o) }
    q_program_1 { require("configured"); require("unknown"); require("static"); require("failed"); program(1, 9, 4, &OPS[..1], &EVERY) }
    q_program_1_2 { program(1, 0, 1, &OPS[..2], &EVERY) }
    q_program_2 { program(2, 0, 2, &OPS[..1], &EVERY) }
    q_layout_2 { program(2, 9, 0, &[], &EVERY) }
    q_layout_3 { program(3, 1, 0, &[], &EVERY) }
    q_program_2_2 { program(2, 2, 0, &OPS[..2], &[1, 3]) }
    q_program_3 { program(3, 3, 0, &OPS[..1], &[0, 2, 4]) }
    q_names_2 { names(2, 0) }
    q_names_3 { names(3, 1) }
    q_text_single { any_text(3, 2) }
    q_text_chain { any_text(3, 3) }
    q_empty { program(0, 9, 0, &[], &EVERY) }
    q_real_2 { real(2) }
    t_program_3 { program(3, 4, 1, &OPS[..1], &EVERY) }
    t_program_2_2 { program(2, 1, 0, &OPS[..2], &EVERY) }
    t_program_1_3 { program(1, 0, 0, &OPS, &[1, 2, 3, 4]) }
    t_real_3 { real(3) }
}
