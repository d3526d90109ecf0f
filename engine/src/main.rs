mod exec;
mod expr;
mod ir;
mod interval;
mod math;
mod z3;
use exec::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
type Inputs = Vec<(String, u32, u128)>;
struct Item {
    entry: usize,
    w: Work,
}
struct Shared {
    q: Vec<std::collections::VecDeque<Work>>,
    spent: Vec<f64>,
    pops: u64,
    active: usize,
    started: Vec<Option<Instant>>,
    dropped: Vec<u64>,
    native_left: Vec<u32>,
    cand_done: HashMap<(usize, String), u32>,
    confirmed: Vec<(usize, String, Inputs, String)>,
    known_hit: BTreeMap<String, (usize, Inputs)>,
    unconfirmed: BTreeMap<String, (u64, String)>,
    validated: u64,
    mismatches: Vec<String>,
    faults: BTreeMap<String, u64>,
    samples: Vec<String>,
    per_entry: Vec<(u64, u64)>, // paths, pruned
    ended: Vec<Option<Instant>>,
}
struct Cfg {
    native: String,
    scratch: String,
    replay_dir: String,
    prop: String,
    known: HashSet<String>,
    keep_going: bool,
    entry_budget: f64,
    verbose: bool,
}
fn write_inputs(path: &str, entry: &str, id: &str, inp: &Inputs) {
    let mut s = format!("# entry {entry}\n# assertion {id}\n");
    for (n, w, v) in inp {
        let extra = if *w == 32 { format!(" f32={:?}", f32::from_bits(*v as u32)) } else { String::new() };
        s += &format!("{v:x} # {n} width={w} dec={v}{extra}\n");
    }
    let _ = std::fs::write(path, s);
}
struct Native {
    code: i32,
    fail: Option<String>,
    obs: Vec<u128>,
    err: String,
    timeout: bool,
}
fn run_native(bin: &str, entry: &str, file: &str) -> Native {
    let mut c = match std::process::Command::new(bin)
        .arg(entry)
        .arg(file)
        .env("RUST_BACKTRACE", "0")
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return Native { code: -999, fail: None, obs: vec![], err: e.to_string(), timeout: false },
    };
    let t = Instant::now();
    let mut timeout = false;
    // read as it runs: a full pipe would block it
    let rd = |r: Option<Box<dyn std::io::Read + Send>>| {
        std::thread::spawn(move || {
            let mut v = vec![];
            if let Some(mut r) = r {
                let _ = r.read_to_end(&mut v);
            }
            v
        })
    };
    let so = rd(c.stdout.take().map(|x| Box::new(x) as Box<dyn std::io::Read + Send>));
    let se = rd(c.stderr.take().map(|x| Box::new(x) as Box<dyn std::io::Read + Send>));
    loop {
        match c.try_wait() {
            Ok(Some(_)) => break,
            _ => {
                if t.elapsed() > Duration::from_secs(20) {
                    let _ = c.kill();
                    timeout = true;
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
    }
    let status = c.wait().unwrap();
    let (so, se) = (so.join().unwrap_or_default(), se.join().unwrap_or_default());
    use std::os::unix::process::ExitStatusExt;
    let code = status.code().unwrap_or_else(|| -status.signal().unwrap_or(1));
    let out = String::from_utf8_lossy(&so).to_string();
    let mut fail = None;
    let mut obs = vec![];
    for l in out.lines() {
        if let Some(x) = l.strip_prefix("OBS ") {
            obs.push(u128::from_str_radix(x.trim(), 16).unwrap_or(0))
        }
        if let Some(x) = l.strip_prefix("ASSERT-FAIL ") {
            fail = Some(x.trim().to_string())
        }
    }
    Native { code, fail, obs, err: String::from_utf8_lossy(&se).chars().take(600).collect(), timeout }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("selftest") => println!("{:?}", expr::selftest(a[2].parse().unwrap())),
        Some("mathtest") => println!("{}", math::check_monotone()),
        Some("parse") => {
            let m = ir::Module::parse(std::fs::read_to_string(&a[2]).unwrap());
            let mut n = 0;
            let mut bad = BTreeMap::new();
            for i in 0..m.fns.len() {
                let f = m.func(i as u32);
                n += f.ninstr;
                for b in &f.blocks {
                    for x in &b.ins {
                        if let ir::I::Bad(s) = x {
                            *bad.entry(s.clone()).or_insert(0) += 1;
                        }
                    }
                }
            }
            println!("{} fns {} globals {} ext; {n} instrs, unsupported {bad:?}", m.fns.len(), m.globals.len(), m.ext.len());
        }
        Some("run") => run(&a[2..]),
        _ => {
            eprintln!("usage: symex run|selftest|mathtest|parse");
            std::process::exit(3)
        }
    }
}

fn run(a: &[String]) {
    let mut ll = String::new();
    let mut entries: Vec<String> = vec![];
    let mut cfg = Cfg {
        native: String::new(),
        scratch: "/tmp".into(),
        replay_dir: ".".into(),
        prop: String::new(),
        known: HashSet::new(),
        keep_going: false,
        entry_budget: 1e9,
        verbose: false,
    };
    let (mut budget, mut timeout, mut threads, mut maxi, mut conc, mut nsamp) = (60.0f64, 10000u32, 8usize, 300_000_000u64, 64usize, 6u32);
    let mut json = String::new();
    let mut i = 0;
    while i < a.len() {
        let k = a[i].as_str();
        if k == "--keep-going" {
            cfg.keep_going = true;
            i += 1;
            continue;
        }
        if k == "-v" {
            cfg.verbose = true;
            i += 1;
            continue;
        }
        let v = a.get(i + 1).expect("value").clone();
        match k {
            "--ll" => ll = v,
            "--entry" => entries.extend(v.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string())),
            "--native" => cfg.native = v,
            "--scratch" => cfg.scratch = v,
            "--replay-dir" => cfg.replay_dir = v,
            "--prop" => cfg.prop = v,
            "--known" => {
                cfg.known.insert(v);
            }
            "--budget" => budget = v.parse().unwrap(),
            "--entry-budget" => cfg.entry_budget = v.parse().unwrap(),
            "--timeout-ms" => timeout = v.parse().unwrap(),
            "--threads" => threads = v.parse().unwrap(),
            "--max-instr" => maxi = v.parse().unwrap(),
            "--conc" => conc = v.parse().unwrap(),
            "--samples" => nsamp = v.parse().unwrap(),
            "--json" => json = v,
            x => {
                eprintln!("unknown option {x}");
                std::process::exit(3)
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let m = Arc::new(ir::Module::parse(std::fs::read_to_string(&ll).expect("read ll")));
    let mut ids = vec![];
    for e in &entries {
        match m.fns.iter().position(|f| f.name == *e) {
            Some(i) => ids.push(i as u32),
            None => {
                eprintln!("entry {e} not found in {ll}");
                std::process::exit(3)
            }
        }
    }
    let n = entries.len();
    let sh = Arc::new((
        Mutex::new(Shared {
            q: (0..n).map(|_| std::collections::VecDeque::from([Work::default()])).collect(),
            spent: vec![0.0; n],
            pops: 0,
            active: 0,
            started: vec![None; n],
            dropped: vec![0; n],
            native_left: vec![nsamp; n],
            cand_done: HashMap::new(),
            confirmed: vec![],
            known_hit: BTreeMap::new(),
            unconfirmed: BTreeMap::new(),
            validated: 0,
            mismatches: vec![],
            faults: BTreeMap::new(),
            samples: vec![],
            per_entry: vec![(0, 0); n],
            ended: vec![None; n],
        }),
        Condvar::new(),
    ));
    let stop = Arc::new(AtomicBool::new(false));
    let cfg = Arc::new(cfg);
    let entries = Arc::new(entries);
    let ids = Arc::new(ids);
    let (tx, rx) = std::sync::mpsc::channel::<Stats>();
    for t in 0..threads {
        let (sh, stop, cfg, entries, ids, m, tx) = (sh.clone(), stop.clone(), cfg.clone(), entries.clone(), ids.clone(), m.clone(), tx.clone());
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                let endless = {
                    let (cfg, entries, ids) = (cfg.clone(), entries.clone(), ids.clone());
                    let k = AtomicUsize::new(0);
                    Arc::new(move |f: u32, inp: &[(String, u32, u128)]| {
                        let e = &entries[ids.iter().position(|&i| i == f).unwrap()];
                        let p = format!("{}/long-{}-{t}-{}.txt", cfg.scratch, std::process::id(), k.fetch_add(1, Ordering::Relaxed));
                        write_inputs(&p, e, "no end", &inp.to_vec());
                        let r = run_native(&cfg.native, e, &p);
                        let _ = std::fs::remove_file(&p);
                        r.timeout
                    })
                };
                let fresh = || Worker::new(m.clone(), Opts { timeout_ms: timeout, max_instr: maxi, conc_limit: conc, endless: endless.clone(), stop: stop.clone() });
                let mut w = fresh();
                worker(t, &mut w, &fresh, &sh, &stop, &cfg, &entries, &ids);
                let _ = tx.send(std::mem::take(&mut w.st));
                std::mem::forget(w);
            })
            .unwrap();
    }
    drop(tx);
    let mut st = Stats::default();
    let mut got = 0;
    let deadline = t0 + Duration::from_secs_f64(budget);
    let mut late = 0;
    while got < threads {
        let now = Instant::now();
        let wait = if stop.load(Ordering::Relaxed) { Duration::from_secs(timeout as u64 / 1000 + 30) } else { deadline.saturating_duration_since(now).max(Duration::from_millis(10)) };
        match rx.recv_timeout(wait) {
            Ok(s) => {
                st.merge(&s);
                got += 1;
            }
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                if stop.load(Ordering::Relaxed) {
                    late = threads - got;
                    break;
                }
                stop.store(true, Ordering::Relaxed);
                sh.1.notify_all();
            }
            Err(_) => {
                late = threads - got;
                break;
            }
        }
    }
    let g = sh.0.lock().unwrap();
    let pend: u64 = g.q.iter().map(|q| q.len() as u64).sum::<u64>() + late as u64;
    let mut incon = st.inconclusive.clone();
    for (k, n) in &g.faults {
        *incon.entry(k.clone()).or_default() += n;
    }
    if g.confirmed.is_empty() {
        if pend > 0 {
            let mut by: BTreeMap<&str, u64> = BTreeMap::new();
            for (i, q) in g.q.iter().enumerate() {
                if !q.is_empty() {
                    *by.entry(&entries[i]).or_default() += q.len() as u64
                }
            }
            for (k, v) in by {
                *incon.entry(format!("time budget ended with unexplored branches in {k}")).or_default() += v;
            }
            if late > 0 {
                *incon.entry("worker did not finish".into()).or_default() += late as u64;
            }
        }
        for (i, d) in g.dropped.iter().enumerate() {
            if *d > 0 {
                *incon.entry(format!("entry budget ended with unexplored branches in {}", entries[i])).or_default() += d;
            }
        }
    }
    for (k, (c, ex)) in &g.unconfirmed {
        *incon.entry(format!("solver candidate not reproduced by the real code: {k} ({ex})")).or_default() += c;
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut fnames: Vec<(String, u64)> = st.funcs.iter().map(|(k, v)| (ir::demangle(&m.fns[*k as usize].name), *v)).collect();
    fnames.sort();
    let mut j = String::from("{\n");
    j += &format!("\"property\":{},\n\"wall_s\":{wall:.2},\n\"solver\":{},\n", jstr(&cfg.prop), jstr(&z3::version()));
    j += &format!(
        "\"paths\":{},\"pruned\":{},\"restarts\":{},\"decisions\":{},\"forced\":{},\"instructions\":{},\n",
        st.paths, st.pruned, st.restarts, st.decisions, st.forced, st.instrs
    );
    j += &format!(
        "\"queries\":{{\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"refinements\":{},\"sat_by_witness_search\":{},\"unsat_by_fp_abstraction\":{},\"branches_settled_by_bounds\":{}}},\"solver_s\":{:.2},\"max_query_s\":{:.2},\n",
        st.q_sat,
        st.q_unsat,
        st.q_unknown,
        st.q_cached,
        st.cegar,
        st.q_search,
        st.q_abs,
        st.q_bounds,
        st.solver_us as f64 / 1e6,
        st.max_query_us as f64 / 1e6
    );
    j += &format!("\"abstract_paths\":{},\"math_vars\":{},\"max_inputs\":{},\n", st.abstract_paths, st.math_vars, st.max_vars);
    j += "\"asserts\":{";
    j += &st.asserts.iter().map(|(k, v)| format!("{}:{{\"structural\":{},\"solver\":{},\"failed\":{}}}", jstr(k), v.0, v.1, v.2)).collect::<Vec<_>>().join(",");
    j += "},\n\"reach\":{";
    j += &st.reach.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(",");
    j += "},\n\"require\":{";
    j += &st.require.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(",");
    j += "},\n\"inconclusive\":{";
    j += &incon.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(",");
    j += "},\n\"entries\":{";
    j += &entries
        .iter()
        .enumerate()
        .map(|(i, e)| {
            let d = match (g.started[i], g.ended[i]) {
                (Some(a), Some(b)) => b.saturating_duration_since(a).as_secs_f64(),
                _ => 0.0,
            };
            format!("{}:{{\"paths\":{},\"pruned\":{},\"span_s\":{d:.2}}}", jstr(e), g.per_entry[i].0, g.per_entry[i].1)
        })
        .collect::<Vec<_>>()
        .join(",");
    j += &format!("}},\n\"validated\":{},\"mismatches\":[{}],\n", g.validated, g.mismatches.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    j += &format!("\"samples\":[{}],\n", g.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    j += "\"slow\":[";
    j += &st.slow.iter().take(20).map(|(u, s)| jstr(&format!("{:.1}s {}", *u as f64 / 1e6, s.chars().take(400).collect::<String>()))).collect::<Vec<_>>().join(",");
    j += "],\n\"functions\":{";
    j += &fnames.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(",");
    j += "},\n\"known\":[";
    j += &g.known_hit.keys().map(|k| jstr(k)).collect::<Vec<_>>().join(",");
    j += "],\n\"violations\":[";
    let mut rows = vec![];
    for (k, (e, id, inp, err)) in g.confirmed.iter().enumerate() {
        let path = format!("{}/{}-{}-{}.txt", cfg.replay_dir, cfg.prop, entries[*e], k);
        let _ = std::fs::create_dir_all(&cfg.replay_dir);
        write_inputs(&path, &entries[*e], id, inp);
        rows.push(format!("{{\"entry\":{},\"assertion\":{},\"replay\":{},\"native\":{}}}", jstr(&entries[*e]), jstr(id), jstr(&path), jstr(err)));
    }
    j += &rows.join(",");
    j += "]\n}\n";
    if !json.is_empty() {
        let _ = std::fs::write(&json, &j);
    }
    let code = if !g.confirmed.is_empty() {
        1
    } else if !g.mismatches.is_empty() {
        4
    } else {
        0
    };
    eprintln!(
        "{}: paths={} pruned={} decisions={} queries={}+{}u solver={:.1}s wall={wall:.1}s validated={} inconclusive={:?}",
        cfg.prop,
        st.paths,
        st.pruned,
        st.decisions,
        st.q_sat + st.q_unsat,
        st.q_unknown,
        st.solver_us as f64 / 1e6,
        g.validated,
        incon
    );
    let _ = std::io::stderr().flush();
    std::process::exit(code)
}

fn worker(t: usize, w: &mut Worker, fresh: &dyn Fn() -> Worker, sh: &(Mutex<Shared>, Condvar), stop: &AtomicBool, cfg: &Cfg, entries: &[String], ids: &[u32]) {
    let mut cand_n = 0;
    loop {
        let it = {
            let mut g = sh.0.lock().unwrap();
            loop {
                if stop.load(Ordering::Relaxed) {
                    return;
                }
                // the entry that has had the least time; within it mostly the newest branch, now and then the oldest
                let next = (0..g.q.len()).filter(|&i| !g.q[i].is_empty()).min_by(|&a, &b| g.spent[a].total_cmp(&g.spent[b]));
                if let Some(i) = next {
                    g.pops += 1;
                    let w = if g.pops % 4 == 0 { g.q[i].pop_front() } else { g.q[i].pop_back() };
                    g.spent[i] += 1e-6;
                    let it = Item { entry: i, w: w.unwrap() };
                    let now = Instant::now();
                    let s = *g.started[it.entry].get_or_insert(now);
                    if (now - s).as_secs_f64() > cfg.entry_budget {
                        g.dropped[it.entry] += 1;
                        continue;
                    }
                    g.active += 1;
                    break it;
                }
                if g.active == 0 {
                    sh.1.notify_all();
                    return;
                }
                g = sh.1.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
            }
        };
        let ent = it.entry;
        let began = Instant::now();
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.run(ids[ent], it.w)));
        let (o, spawned, viols) = match res {
            Ok(r) => r,
            Err(e) => {
                // an engine fault gives no verdict on this path; the worker's state is no longer usable
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                let mut g = sh.0.lock().unwrap();
                *g.faults.entry(format!("engine fault in {}: {m}", entries[ent])).or_default() += 1;
                g.active -= 1;
                g.ended[ent] = Some(Instant::now());
                sh.1.notify_all();
                drop(g);
                let st = std::mem::take(&mut w.st);
                let mut nw = fresh();
                nw.st = st;
                std::mem::forget(std::mem::replace(w, nw));
                continue;
            }
        };
        let mut check: Vec<(String, Inputs, bool)> = viols;
        if let Stop::Panic(p) = &o.stop {
            let at = o.trace.iter().map(|s| ir::demangle(s)).take(4).collect::<Vec<_>>().join(" < ");
            check.push((format!("panic: {} at {at}", ir::demangle(p)), o.inputs.clone(), o.abstract_));
        }
        if matches!(&o.stop, Stop::Inconclusive(m) if m == "instruction limit") {
            // the replay tells a run without end from a long one
            check.push(("no end".into(), o.inputs.clone(), o.abstract_));
        }
        if cfg.verbose {
            eprintln!("[{t}] {} {:?} abs={} inputs={:x?}", entries[ent], o.stop, o.abstract_, o.inputs.iter().map(|x| x.2).collect::<Vec<_>>());
        }
        {
            let mut g = sh.0.lock().unwrap();
            g.q[ent].extend(spawned);
            g.spent[ent] += began.elapsed().as_secs_f64();
            match o.stop {
                Stop::Pruned => g.per_entry[ent].1 += 1,
                Stop::Restart => {}
                _ => g.per_entry[ent].0 += 1,
            }
            sh.1.notify_all();
        }
        // candidates
        for (id, inp, abs) in check {
            {
                let mut g = sh.0.lock().unwrap();
                let c = g.cand_done.entry((ent, id.clone())).or_default();
                *c += 1;
                if *c > 40 {
                    continue;
                }
            }
            cand_n += 1;
            let f = format!("{}/cand-{}-{t}-{cand_n}.txt", cfg.scratch, std::process::id());
            write_inputs(&f, &entries[ent], &id, &inp);
            let r = run_native(&cfg.native, &entries[ent], &f);
            let ok = match &r.fail {
                Some(x) => Some(format!("assertion {x} failed")),
                None if r.timeout => Some("did not terminate within 20 s".into()),
                None if r.code == 101 || r.code == 134 || r.code < 0 && r.code != -999 => Some(format!("exit {}: {}", r.code, r.err)),
                _ => None,
            };
            let mut g = sh.0.lock().unwrap();
            match ok {
                Some(msg) => {
                    let real_id = r.fail.clone().unwrap_or(id.clone());
                    if cfg.known.contains(&real_id) {
                        g.known_hit.entry(real_id).or_insert((ent, inp));
                    } else {
                        let first = g.confirmed.iter().filter(|c| c.1 == real_id).count() < 2;
                        if first {
                            g.confirmed.push((ent, real_id, inp, msg));
                        }
                        if !cfg.keep_going {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    let _ = std::fs::remove_file(&f);
                }
                None => {
                    let e = g.unconfirmed.entry(format!("{} {id}", entries[ent])).or_insert((0, format!("native exit {} abstract {abs} inputs {:x?}", r.code, inp.iter().map(|x| x.2).collect::<Vec<_>>())));
                    e.0 += 1;
                    let _ = std::fs::remove_file(&f);
                }
            }
        }
        // translation validation of completed paths
        if matches!(o.stop, Stop::Done) && !o.abstract_ {
            let go = {
                let mut g = sh.0.lock().unwrap();
                if g.native_left[ent] > 0 {
                    g.native_left[ent] -= 1;
                    true
                } else {
                    false
                }
            };
            if go {
                let f = format!("{}/val-{}-{t}.txt", cfg.scratch, std::process::id());
                write_inputs(&f, &entries[ent], "none", &o.inputs);
                let r = run_native(&cfg.native, &entries[ent], &f);
                let _ = std::fs::remove_file(&f);
                let mut g = sh.0.lock().unwrap();
                if r.code == 0 && r.obs == o.obs {
                    g.validated += 1;
                    if g.samples.len() < 20 {
                        g.samples.push(format!(
                            "{}({}) -> {}",
                            entries[ent],
                            o.inputs.iter().map(|(n, w, v)| if *w == 32 { format!("{n}={:?}", f32::from_bits(*v as u32)) } else { format!("{n}={v}") }).collect::<Vec<_>>().join(", "),
                            o.obs.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" ")
                        ));
                    }
                } else if r.fail.is_some() || r.code == 101 || r.code == 134 {
                    // the real code fails on an input the engine accepted: report it as a violation
                    let id = r.fail.clone().unwrap_or(format!("panic: {}", r.err));
                    if cfg.known.contains(&id) {
                        g.known_hit.entry(id).or_insert((ent, o.inputs.clone()));
                    } else {
                        g.confirmed.push((ent, id, o.inputs.clone(), format!("exit {} {}", r.code, r.err)));
                        if !cfg.keep_going {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                } else if g.mismatches.len() < 20 {
                    g.mismatches.push(format!("{} inputs {:x?}: engine {:x?} native exit {} {:x?} {}", entries[ent], o.inputs, o.obs, r.code, r.obs, r.err));
                }
            }
        }
        let mut g = sh.0.lock().unwrap();
        g.active -= 1;
        g.ended[ent] = Some(Instant::now());
        sh.1.notify_all();
    }
}
