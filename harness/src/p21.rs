//! P21: configuration strings and option values are parsed as documented.
use crate::lib_::*;
use crate::opts::*;
use crate::rt::*;
use SamplerOptionType as T;
const BN: [&str; 8] = ["b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7"];
fn ws(b: u8) -> bool {
    b == 32 || (b >= 9 && b <= 13)
}
fn trim(mut s: &[u8]) -> &[u8] {
    while !s.is_empty() && ws(s[0]) {
        s = &s[1..];
    }
    while !s.is_empty() && ws(s[s.len() - 1]) {
        s = &s[..s.len() - 1];
    }
    s
}
fn text(b: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(b) }
}
/// reference for option values: kind and bits as a snapshot shows them (floats as 64-bit values)
fn ref_value(t: T, s: &[u8]) -> Option<(u8, u64)> {
    let s = trim(s);
    match t {
        T::UInt => {
            let d = if s.len() > 1 && s[0] == b'+' { &s[1..] } else { s };
            if d.is_empty() {
                return None;
            }
            let mut v = 0u64;
            let mut ok = true;
            for c in d {
                ok &= (*c >= b'0') & (*c <= b'9');
                let x = (c.wrapping_sub(b'0') & 15) as u64;
                ok &= (v < u64::MAX / 10) | ((v == u64::MAX / 10) & (x <= u64::MAX % 10));
                v = v.wrapping_mul(10).wrapping_add(x);
            }
            ok.then_some((0, v))
        }
        T::Float => unsafe { std::str::from_utf8_unchecked(s) }.parse::<f64>().ok().map(|f| (1, f.to_bits())),
        T::Bool => match s {
            b"true" | b"t" | b"yes" | b"1" => Some((2, 1)),
            b"false" | b"f" | b"no" | b"0" => Some((2, 0)),
            _ => None,
        },
        T::String => Some((3, hash(unsafe { std::str::from_utf8_unchecked(s) }))),
    }
}
fn got_value(v: SamplerOptionValue) -> (u8, u64) {
    match v {
        SamplerOptionValue::UInt(u) => (0, u),
        SamplerOptionValue::Float(f) => (1, f.to_bits()),
        SamplerOptionValue::Bool(b) => (2, b as u64),
        SamplerOptionValue::String(s) => (3, hash(&s)),
    }
}
fn value(t: T, s: Vec<u8>) {
    let got = SamplerOptionValue::parse_value(t, text(s.clone())).ok().map(got_value);
    let want = ref_value(t, &s);
    check(got.is_some() == want.is_some(), "P21.value-accepted");
    if let (Some(a), Some(b)) = (got, want) {
        check((a.0 == b.0) & (a.1 == b.1), "P21.value");
        reach("value");
    } else {
        reach("bad-value");
    }
}
/// any text of ASCII bytes
fn ascii(n: usize) -> Vec<u8> {
    (0..n).map(|i| u(BN[i], 0, 0x7f) as u8).collect()
}
/// any text over an alphabet
fn over(n: usize, set: &[u8]) -> Vec<u8> {
    (0..n)
        .map(|i| {
            let b = u(BN[i], 0, 0x7f) as u8;
            let mut f = false;
            for c in set {
                f |= b == *c;
            }
            assume(f);
            b
        })
        .collect()
}
fn up_to(n: u64) -> usize {
    pin(u("len", 0, n)) as usize
}
fn digit(n: &str) -> u8 {
    u(n, b'0' as u64, b'9' as u64) as u8
}
/// digits around the largest 64-bit number
fn uint_edge() {
    let mut s = b"184467440737095516".to_vec();
    s.push(digit("b0"));
    s.push(digit("b1"));
    value(T::UInt, s)
}
/// decimal fractions d.d against exact arithmetic
fn decimal() {
    let (a, b) = (digit("b0"), digit("b1"));
    let neg = boolean("neg");
    let mut s = vec![];
    if neg {
        s.push(b'-');
    }
    s.extend([a, b'.', b]);
    let want = ((a - b'0') as f64 * 10.0 + (b - b'0') as f64) / 10.0;
    let want = if neg { -want } else { want };
    match SamplerOptionValue::parse_value(T::Float, text(s)) {
        Ok(SamplerOptionValue::Float(f)) => check(f.to_bits() == want.to_bits(), "P21.decimal"),
        _ => check(false, "P21.decimal"),
    }
}
/// numbers beyond and at the ends of what a float can hold, with a free digit
fn extreme() {
    let t: [&str; 12] = ["1e30", "-1e30", "1e999", "-9e99", "1e-32", "4.9e-32", "17976931348623157e29", "0.1e-99", "9007199254740993", "-0.0", "123456789012345678901234567890e-", "1.000000059604644"];
    let i = pin(u("text", 0, 11)) as usize;
    let mut s = t[i].as_bytes().to_vec();
    s.push(digit("b0"));
    if boolean("configure") {
        let mut c = vec![];
        c.extend(b"temp = ");
        c.extend(s);
        conf(SampleTemperature::new(0.5), c)
    } else {
        value(T::Float, s)
    }
}
fn words(ws: &[&str], t: T, want: Option<(u8, u64)>) {
    let i = pin(u("word", 0, ws.len() as u64 - 1)) as usize;
    let mut s = vec![];
    if boolean("before") {
        s.push(b' ');
    }
    s.extend(ws[i].as_bytes());
    if boolean("after") {
        s.push(b' ');
    }
    let got = SamplerOptionValue::parse_value(t, text(s)).ok().map(got_value);
    check(got == want, "P21.word");
}
fn kind(t: T) -> u8 {
    match t {
        T::UInt => 0,
        T::Float => 1,
        T::Bool => 2,
        T::String => 3,
    }
}
/// reference: apply the settings of `s` to `st` one after the other
fn ref_configure(md: &[SamplerOptionMetadata], st: &mut [(&'static str, Val)], s: &[u8]) -> bool {
    let keys: Vec<&str> = md.iter().map(|m| m.key).collect();
    for part in s.split(|b| *b == b':') {
        let part = trim(part);
        if part.is_empty() {
            continue;
        }
        let (k, v): (&[u8], &[u8]) = match part.iter().position(|b| *b == b'=') {
            Some(i) => (&part[..i], &part[i + 1..]),
            None => (b"", part),
        };
        let Some(i) = resolve(&keys, trim(k)) else { return false };
        if st[i].1.kind == 9 {
            return false;
        }
        let Some((kd, bits)) = ref_value(md[i].option_type, v) else { return false };
        st[i].1 = if kd == 1 { Val { kind: 1, bits: fbits(f64::from_bits(bits) as f32) } } else { Val { kind: kd, bits } };
        if keys[i] == "tau" {
            for j in 0..st.len() {
                if keys[j] == "mu" {
                    st[j].1 = Val { kind: 1, bits: fbits(f32::from_bits(st[i].1.bits as u32) * 2.0) };
                }
            }
        }
    }
    true
}
fn conf<S: ConfigurableSampler<usize, f32>>(mut s: S, t: Vec<u8>) {
    let md = s.sampler_metadata().options;
    let mut st = snap(&s);
    let ok = s.configure(&text(t.clone())).is_ok();
    let want = ref_configure(&md, &mut st, &t);
    check(ok == want, "P21.accepted");
    check(same_snap(&snap(&s), &st), "P21.result");
    if ok {
        reach("configured");
    } else {
        reach("rejected");
    }
}
/// `key=value` for every option of a real sampler, with blanks and a prefix of the key
fn settings<S: ConfigurableSampler<usize, f32>>(s: S) {
    let md = s.sampler_metadata().options;
    let i = pin(u("opt", 0, md.len() as u64 - 1)) as usize;
    let k = md[i].key.as_bytes();
    let n = pin(u("len", 0, k.len() as u64)) as usize;
    let mut t = vec![];
    if boolean("colon") {
        t.extend(b": ");
    }
    t.extend(&k[..n]);
    if boolean("blank") {
        t.extend(b" = ");
    } else {
        t.push(b'=');
    }
    t.push(digit("b0"));
    conf(s, t)
}
/// two settings of arbitrary options
fn pair<S: ConfigurableSampler<usize, f32>>(s: S) {
    let md = s.sampler_metadata().options;
    let mut t = vec![];
    for (o, d) in [("opt0", "b0"), ("opt1", "b1")] {
        let i = pin(u(o, 0, md.len() as u64 - 1)) as usize;
        t.extend(md[i].key.as_bytes());
        t.extend([b'=', digit(d), b':']);
    }
    conf(s, t)
}
/// lone values of every size anywhere in the sequence
fn lone() {
    const W: [(&str, f32); 12] = [("3e6", 3e6), ("1e30", 1e30), ("1e300", f32::INFINITY), ("-2.5", -2.5), ("inf", f32::INFINITY), ("-inf", f32::NEG_INFINITY), ("0", 0.0), ("7", 7.0), ("1e-40", 1e-40), ("123456789", 123456789.0), (" +4. ", 4.0), ("tt", f32::NAN)];
    let (w, x) = W[pin(u("word", 0, 11)) as usize];
    let mut t = match pin(u("lead", 0, 3)) {
        0 => b"".to_vec(),
        1 => b"t=2:".to_vec(),
        2 => b"5: temp = 3 :".to_vec(),
        _ => b":".to_vec(),
    };
    t.extend(match pin(u("sign", 0, 1)) {
        0 => b"".as_slice(),
        _ => b"=",
    });
    t.extend(w.as_bytes());
    let tail = pin(u("tail", 0, 2));
    t.extend([b"".as_slice(), b":", b":temperature=9"][tail as usize]);
    let bad = nan(x);
    let lead = t.starts_with(b"t=") as u32 as f32 * 2.0 + t.starts_with(b"5") as u32 as f32 * 3.0;
    let mut s = SampleTemperature::new(0.5);
    let ok = ConfigurableSampler::<usize, f32>::configure(&mut s, &text(t)).is_ok();
    check(ok == !bad, "P21.lone");
    let want = if bad { if lead > 0.0 { lead } else { 0.5 } } else if tail == 2 { 9.0 } else { x };
    check(s == SampleTemperature::new(want), "P21.lone");
    obs(ok as u64);
}
/// settings good and bad in any sequence: the first bad one ends it, the ones before it stay
fn sequence(n: usize) {
    let mut t = vec![];
    for i in 0..n {
        let which = pin(u(["s0", "s1", "s2", "s3"][i], 0, 7));
        t.extend(match which {
            0 => b"k=7".as_slice(),
            1 => b"k=x",
            2 => b"min_keep=4",
            3 => b"m =5",
            4 => b"zz=1",
            5 => b" k",
            6 => b"9",
            _ => b"",
        });
        if i + 1 < n {
            t.push(b':');
        }
    }
    conf(SampleTopK::new(2, 3), t)
}
/// the other blanks of Unicode are stripped, other characters are not
fn unicode() {
    let x = u("b0", 0x80, 0xbf) as u8;
    let mut s = SampleTopK::new(1, 1);
    let mut t = vec![0xc2, x];
    t.extend(b"k=");
    t.push(digit("b1"));
    let d = t[4] - b'0';
    let ok = ConfigurableSampler::<usize, f32>::configure(&mut s, &text(t)).is_ok();
    check(ok == ((x == 0x85) | (x == 0xa0)), "P21.unicode");
    check(s == if ok { SampleTopK::new(d as usize, 1) } else { SampleTopK::new(1, 1) }, "P21.unicode");
}
/// many settings, one with a free digit, the last of each option counts
fn many(n: usize) {
    let at = pin(u("at", 0, 2)) as usize * (n / 2 - 1);
    let mut t = vec![];
    for i in 0..n {
        t.extend(match i % 5 {
            0 => b"k=".as_slice(),
            1 => b" min_keep = ",
            2 => b"m=",
            3 => b"::  :mi=",
            _ => b"min_ke=",
        });
        t.push(if i == at { digit("b0") } else { b'0' + (i * 7 % 10) as u8 });
        if i + 1 < n || boolean("colon") {
            t.push(b':');
        }
    }
    conf(SampleTopK::new(2, 3), t)
}
/// long blanks, keys, numbers and values
fn lengthy(n: usize) {
    let (key, val) = (pin(u("key", 0, 3)), pin(u("val", 0, 5)));
    let mut t = vec![b' '; n];
    t.extend(match key {
        0 => b"temperature".to_vec(),
        1 => b"t".to_vec(),
        2 => vec![],
        _ => vec![b't'; n],
    });
    t.extend(vec![b'\t'; n]);
    t.push(b'=');
    t.extend(vec![b' '; n]);
    match val {
        0 => t.extend(vec![b'0'; n]),
        1 => {
            t.extend(b"0.");
            t.extend(vec![b'0'; n.min(30)])
        }
        2 => t.extend(b"1234567890123456789012345."),
        3 => t.extend(b"1e"),
        4 => t.extend(vec![b'='; n]),
        _ => {}
    }
    t.push(digit("b0"));
    t.extend(vec![b'\n'; n]);
    conf(SampleTemperature::new(0.5), t)
}
/// an unsigned number with many leading zeros
fn zeros(n: usize) {
    let mut t = b"k=".to_vec();
    if boolean("plus") {
        t.push(b'+');
    }
    t.extend(vec![b'0'; n]);
    t.extend([digit("b0"), digit("b1"), b':', b'm', b'=', digit("b2")]);
    conf(SampleTopK::new(2, 3), t)
}
const INF: u64 = 0x7ff0000000000000;
const NINF: u64 = 0xfff0000000000000;
entries! {
    q_uint_3 { require("value"); require("bad-value"); let n = up_to(3); value(T::UInt, ascii(n)) }
    q_uint_edge { uint_edge() }
    q_uint_long { let mut s = b"0000000000000000000".to_vec(); s.extend(over(2, b"0123456789 +-")); value(T::UInt, s) }
    q_bool_4 { let n = up_to(4); value(T::Bool, ascii(n)) }
    q_bool_5 { value(T::Bool, over(5, b"falsetrueyno10 ")) }
    q_string_3 { let n = up_to(3); value(T::String, ascii(n)) }
    q_float_1 { let n = up_to(1); value(T::Float, ascii(n)) }
    q_float_2 { value(T::Float, ascii(2)) }
    q_float_3 { value(T::Float, over(3, b"1.-+e if")) }
    q_decimal { decimal() }
    q_extreme { extreme() }
    q_inf { words(&["inf", "INF", "+inf", "+INF"], T::Float, Some((1, INF))) }
    q_ninf { words(&["-inf", "-INF"], T::Float, Some((1, NINF))) }
    q_no_float { words(&["", "-", "+", ".", "e", "1e", "--1", "+-1", "1 1", "0x1", "1,5", "1_0"], T::Float, None) }
    q_true { words(&["true", "t", "yes", "1"], T::Bool, Some((2, 1))) }
    q_false { words(&["false", "f", "no", "0"], T::Bool, Some((2, 0))) }
    q_no_bool { words(&["", "True", "TRUE", "on", "off", "y", "n", "2", "00", "-1", "tru", "nope"], T::Bool, None) }
    q_no_uint { words(&["", "-1", "-0", "+", "1.0", "0x1", "1e3", "18446744073709551616", "1 1"], T::UInt, None) }
    q_conf_ascii_3 { require("configured"); require("rejected"); let n = up_to(3); conf(SampleTopK::new(2, 3), ascii(n)) }
    q_conf_ascii_temp { let n = up_to(2); conf(SampleTemperature::new(0.5), ascii(n)) }
    q_conf_all_4 { let n = up_to(4); conf(all(), over(n, b"ab=:1 t")) }
    q_conf_all_5 { conf(all(), over(5, b"abc=:1")) }
    q_conf_k_5 { conf(SampleTopK::new(2, 3), over(5, b"mk=:1 ")) }
    q_many { many(60) }
    q_lengthy { lengthy(40) }
    q_zeros { zeros(70) }
    t_many { many(300) }
    q_lone { lone() }
    q_sequence_3 { require("configured"); require("rejected"); sequence(3) }
    t_sequence_4 { sequence(4) }
    q_unicode { unicode() }
    q_set_freq { settings(SampleFreqPresence::default()) }
    q_set_rep { settings(SampleRepetition::default()) }
    q_set_seq { settings(SampleSeqRepetition::default()) }
    q_set_typical { settings(SampleLocallyTypical::default()) }
    q_set_min_p { settings(SampleMinP::default()) }
    q_set_top_p { settings(SampleTopP::default()) }
    q_set_top_a { settings(SampleTopA::default()) }
    q_set_tail { settings(SampleTailFree::default()) }
    q_set_top_k { settings(SampleTopK::default()) }
    q_set_temp { settings(SampleTemperature::default()) }
    q_set_mirostat1 { settings(SampleMirostat1::default()) }
    q_set_mirostat2 { settings(SampleMirostat2::default()) }
    q_pair_mirostat1 { pair(SampleMirostat1::default()) }
    q_pair_mirostat2 { pair(SampleMirostat2::default()) }
    q_pair_seq { pair(SampleSeqRepetition::default()) }
    q_no_options { let n = up_to(3); conf(SampleGreedy::new(), ascii(n)) }
    t_conf_all_6 { conf(all(), over(6, b"ab=:1 ")) }
    t_conf_ascii_4 { conf(SampleTopK::new(2, 3), ascii(4)) }
    t_conf_k_7 { conf(SampleTopK::new(2, 3), over(7, b"mk=:1 ")) }
    t_uint_5 { value(T::UInt, ascii(5)) }
    t_float_3 { value(T::Float, ascii(3)) }
    t_float_4 { value(T::Float, over(4, b"12.-e")) }
    t_string_5 { value(T::String, ascii(5)) }
}
