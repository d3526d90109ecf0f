//! P18: chains run in order, however assembled; wrapped samplers behave as themselves.
use crate::lib_::*;
use crate::mock::*;
use crate::rt::*;
use std::sync::{Arc, Mutex};
const FN: [&str; 4] = ["fail0", "fail1", "fail2", "fail3"];
const HN: [&str; 4] = ["has0", "has1", "has2", "has3"];
const KN: [&str; 4] = ["tok0", "tok1", "tok2", "tok3"];
const WN: [&str; 4] = ["wrap0", "wrap1", "wrap2", "wrap3"];
const AN: [&str; 4] = ["how0", "how1", "how2", "how3"];
fn mocks(n: usize) -> Vec<Mock> {
    let kind = u("kind", 0, KINDS - 1) as u8;
    (0..n).map(|i| Mock { kind, ..mock(10 + i as u32, boolean(FN[i]), boolean(HN[i]).then_some(bits(KN[i], 32) as u32)) }).collect()
}
/// run the chain on a list of one logit and compare its effect with that of the samplers run by hand
fn judge(mut c: SamplerChain, ms: &[Mock]) {
    let mut r = res(None, Some(vec![]));
    let mut l = mk(&[1.0]);
    l[0].token_id = 7;
    c.sample_prepend(&mut r);
    let pre = toks_of(&r).unwrap_or_default();
    let all: Vec<u32> = ms.iter().map(|m| m.tag).collect();
    check(pre == all, "P18.prepend");
    check(l.len() == 1, "P18.prepend");
    let out = c.sample(&mut r, &mut l).map(|x| x.len());
    // expectation
    let mut want = vec![7u32];
    let mut err = None;
    let mut tok = None;
    for m in ms {
        if m.fail {
            err = Some(m);
            break;
        }
        want.push(m.tag);
        tok = m.tok;
    }
    let got: Vec<u32> = l.iter().map(|x| x.token_id).collect();
    check(got == want, "P18.order");
    match out {
        Ok(n) => {
            check(err.is_none(), "P18.error-lost");
            check(n == want.len(), "P18.returned-list");
            check(c.sampled_token_id() == tok, "P18.last-token");
            reach("ok");
            // the shortcut gives the same token
            let mut l2 = mk(&[1.0]);
            check(c.sample_token(&mut r, &mut l2).ok() == Some(tok), "P18.sample-token");
        }
        Err(e) => {
            check(err.map(|m| expected(m.kind, m.tag)) == Some(failure(e)), "P18.first-error");
            reach("err");
        }
    }
    check(toks_of(&r) == Some(all), "P18.history");
}
fn order(n: usize) {
    let ms = mocks(n);
    let mut c = SamplerChain::new();
    for i in 0..n {
        match pin(u(AN[i], 0, 3)) {
            0 => {
                c.push_sampler(ms[i].clone());
            }
            1 => c += ms[i].clone(),
            2 => c = c + ms[i].clone(),
            _ => {
                let b: Box<dyn Sampler> = Box::new(ms[i].clone());
                c += b;
            }
        }
    }
    judge(c, &ms);
}
fn wrapped(n: usize) {
    let ms = mocks(n);
    let mut c = SamplerChain::default();
    for i in 0..n {
        push_wrapped(&mut c, pin(u(WN[i], 0, WRAPPERS)), ms[i].clone());
    }
    judge(c, &ms);
}
/// chain inside chain: [a, [b, c], d]
fn nested() {
    let ms = mocks(4);
    let mut d = SamplerChain::new();
    d += ms[1].clone();
    d += ms[2].clone();
    let c = SamplerChain::new() + ms[0].clone() + d + ms[3].clone();
    judge(c, &ms);
}
/// a shared sampler is the same sampler in both places
fn shared() {
    let m: Arc<Mutex<dyn Sampler>> = Arc::new(Mutex::new(mock(10, false, Some(3))));
    let mut c = SamplerChain::new();
    c += m.clone();
    c += m.clone();
    let mut l = Logits::default();
    let ok = c.sample(&mut (), &mut l).is_ok();
    check(ok & (l.len() == 2), "P18.shared");
    check(m.sampled_token_id() == Some(3), "P18.shared");
}
fn same_result(a: Result<Option<u32>, ()>, b: Result<Option<u32>, ()>, la: &Logits, lb: &Logits) {
    check(a == b, "P18.wrapper-result");
    check(same_logits(la, lb), "P18.wrapper-list");
}
/// a real sampler behind wrapper `w` against the bare one; two calls
fn real<S: Sampler + ConfigurableSampler<usize, f32> + Clone + 'static>(s: S, n: usize, rng: Option<u32>) {
    let w = pin(u("wrap", 1, WRAPPERS));
    let l0 = state_from(n, |i| f_in(XN[i], -1000.0, 1000.0));
    assume(l0[0].prob >= 0.5 / n as f32);
    let mut bare = s.clone();
    let (mut a, mut b) = (l0.clone(), l0);
    let mut r = res(rng, Some(vec![1, 0]));
    let x = bare.sample_token(&mut r, &mut a).map_err(|_| ());
    let y = match w {
        1 => {
            let mut z: Box<dyn Sampler> = Box::new(s);
            let y = z.sample_token(&mut r, &mut b).map_err(|_| ());
            check(z.sampled_token_id() == bare.sampled_token_id(), "P18.wrapper-token");
            y
        }
        2 => {
            let mut z: Arc<Mutex<dyn Sampler>> = Arc::new(Mutex::new(s));
            let y = z.sample_token(&mut r, &mut b).map_err(|_| ());
            check(z.sampled_token_id() == bare.sampled_token_id(), "P18.wrapper-token");
            y
        }
        3 => {
            let mut z: Box<dyn BuildableSampler<usize, f32>> = Box::new(s);
            let y = z.sample_token(&mut r, &mut b).map_err(|_| ());
            check(z.sampled_token_id() == bare.sampled_token_id(), "P18.wrapper-token");
            y
        }
        _ => {
            let mut z = SamplerChain::new() + s;
            let y = z.sample_token(&mut r, &mut b).map_err(|_| ());
            check(z.sampled_token_id() == bare.sampled_token_id(), "P18.wrapper-token");
            y
        }
    };
    same_result(x, y, &a, &b);
}
/// a very long chain with one failing sampler (or none) and one token
fn vast_chain(n: usize) {
    let f = among("fail", &[0, 1, n / 2, 254, 255, 256, 257, n - 1, n]) as u64;
    let k = bits("tok", 32) as u32;
    let ms: Vec<Mock> = (0..n).map(|i| mock(10 + i as u32, i as u64 == f, if i + 1 == n { Some(k) } else { (i % 3 == 0).then_some(i as u32) })).collect();
    let mut c = SamplerChain::new();
    for m in ms.iter() {
        c += m.clone();
    }
    judge(c, &ms);
}
/// a chain nested `d` deep around one sampler, with one more at each level
fn deep(d: usize) {
    let fail = pin(u("fail", 0, d as u64 + 1));
    let before = boolean("before");
    let ms: Vec<Mock> = (0..=d).map(|i| mock(10 + i as u32, i as u64 == fail, Some(bits(["k0", "k1", "k2", "k3", "k4", "k5", "k6"][i.min(6)], 32) as u32))).collect();
    let mut order = vec![ms[0].clone()];
    let mut c = SamplerChain::new() + ms[0].clone();
    for m in ms[1..].iter() {
        c = if before {
            order.insert(0, m.clone());
            SamplerChain::new() + m.clone() + c
        } else {
            order.push(m.clone());
            SamplerChain::new() + c + m.clone()
        };
    }
    judge(c, &order);
}
/// a sampler with its own way of giving the token
#[derive(Debug, Clone)]
struct Own(Mock, u32);
impl Sampler for Own {
    fn sample_prepend(&self, r: &mut dyn HasSamplerResources) {
        self.0.sample_prepend(r)
    }
    fn sample<'a>(&mut self, r: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.0.sample(r, l)
    }
    fn sampled_token_id(&self) -> Option<u32> {
        self.0.sampled_token_id()
    }
    fn sample_token(&mut self, r: &mut dyn HasSamplerResources, l: &mut Logits) -> Result<Option<u32>, SamplerError> {
        self.0.sample(r, l)?;
        Ok(Some(self.1))
    }
}
impl ConfigurableSampler<usize, f32> for Own {}
impl HasSamplerMetadata<usize, f32> for Own {}
/// wrappers hand on every method, one wrapper inside another too
fn handed_on() {
    let kind = u("kind", 0, KINDS - 1) as u8;
    let fail = boolean("fail");
    let (a, b) = (bits("a", 32) as u32, bits("b", 32) as u32);
    let s = Own(Mock { kind, ..mock(10, fail, boolean("has").then_some(a)) }, b);
    let tok = s.0.tok;
    let mut z: Box<dyn Sampler> = match pin(u("wrap", 0, 5)) {
        0 => Box::new(s),
        1 => Box::new(Box::new(s) as Box<dyn Sampler>),
        2 => Box::new(Arc::new(Mutex::new(s)) as Arc<Mutex<dyn Sampler>>),
        3 => Box::new(Box::new(s) as Box<dyn BuildableSampler<usize, f32>>),
        4 => Box::new(Arc::new(Mutex::new(Box::new(s) as Box<dyn BuildableSampler<usize, f32>>)) as Arc<Mutex<dyn Sampler>>),
        _ => Box::new(Box::new(Arc::new(Mutex::new(s)) as Arc<Mutex<dyn Sampler>>) as Box<dyn Sampler>),
    };
    let mut r = res(None, Some(vec![5]));
    z.sample_prepend(&mut r);
    check(toks_of(&r) == Some(vec![5, 10]), "P18.prepend");
    check(z.sampled_token_id().is_none(), "P18.wrapper-token");
    let mut l = mk(&[1.0, 2.0]);
    let through = boolean("through-list");
    let x = if through { l.sample_token(&mut r, &mut z) } else { z.sample_token(&mut r, &mut l) };
    match x {
        Ok(t) => check(!fail & (t == Some(b)), "P18.wrapper-result"),
        Err(e) => check(fail && failure(e) == expected(kind, 10), "P18.wrapper-result"),
    }
    check(l.len() == 2 + !fail as usize, "P18.wrapper-list");
    check(z.sampled_token_id() == if fail { None } else { tok }, "P18.wrapper-token");
    let n = match z.sample(&mut r, &mut l) {
        Ok(m) => m.len(),
        Err(_) => 2,
    };
    check(n == 2 + 2 * !fail as usize, "P18.wrapper-list");
}
/// while somebody else uses a shared sampler a call waits: it neither fails nor goes ahead without it
fn busy() {
    let m: Arc<Mutex<dyn Sampler>> = Arc::new(Mutex::new(mock(10, false, Some(bits("tok", 32) as u32))));
    let op = pin(u("op", 0, 3));
    let held = boolean("held");
    let (mut z, nested) = (m.clone(), boolean("nested"));
    let mut b: Box<dyn Sampler> = Box::new(m.clone());
    let z: &mut dyn Sampler = if nested { &mut b } else { &mut z };
    let mut r = res(None, Some(vec![]));
    let mut l = mk(&[1.0]);
    let other = if held { m.lock().ok() } else { None };
    if held {
        may_wait();
    }
    reach(if held { "held" } else { "free" });
    let ok = match op {
        0 => z.sample(&mut r, &mut l).is_ok(),
        1 => z.sample_token(&mut r, &mut l).is_ok(),
        2 => {
            z.sample_prepend(&mut r);
            toks_of(&r) == Some(vec![10])
        }
        _ => z.sampled_token_id().is_none(),
    };
    check(ok, "P18.shared");
    // only a call that did not wait gets here with the lock held by another
    check(!held, "P18.did-not-wait");
    drop(other);
}
entries! {
    q_busy { require("held"); require("free"); busy() }
    q_handed_on { handed_on() }
    q_vast { vast_chain(300) }
    q_deep { require("ok"); require("err"); deep(6) }
    t_deep { deep(40) }
    q_order_0 { judge(SamplerChain::new(), &[]) }
    q_order_1 { require("ok"); require("err"); order(1) }
    q_order_3 { require("ok"); require("err"); order(3) }
    q_wrapped_2 { require("ok"); require("err"); wrapped(2) }
    q_nested { require("ok"); require("err"); nested() }
    q_shared { shared() }
    q_greedy { real(SampleGreedy::new(), 2, None) }
    q_rand { real(SampleRandDistrib::new(), 2, Some(bits("rng", 32) as u32)) }
    q_rand_missing { real(SampleRandDistrib::new(), 2, None) }
    q_top_k { real(SampleTopK::new(bits("k", 64) as usize, 1), 3, None) }
    q_repetition { real(SampleRepetition::new(f_any("p"), u("n", 0, 3) as usize), 2, None) }
    q_mirostat2 { real(SampleMirostat2::new(f_in("tau", 0.0, 10.0), 0.1), 2, Some(bits("rng", 32) as u32)) }
    t_wrapped_3 { wrapped(3) }
    t_order_4 { order(4) }
}
