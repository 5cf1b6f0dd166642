//! symex: symbolic execution of a whole Rust program given as LLVM IR.
//! usage: symex FILE.ll OUT.json --workers N --time SECS [--steps N] CASE...    CASE = harness[:arg[,arg...]]
mod exec;
mod expr;
mod ir;
mod lower;
mod mem;
mod smt;
use exec::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Unit {
    case: usize,
    prefix: Vec<u64>,
}
#[derive(Default, Clone)]
struct Sample {
    model: Vec<u8>,
    obs: Vec<u8>,
}
#[derive(Default)]
struct CaseRes {
    done: u64,
    infeasible: u64,
    panics: u64,
    unexplored: u64,
    limits: BTreeMap<String, u64>,
    errors: BTreeMap<String, u64>,
    viol: BTreeMap<String, (u64, Vec<u8>, Vec<String>)>,
    findings: BTreeMap<String, (u64, Vec<u8>)>,
    notes: BTreeMap<String, u64>,
    samples: Vec<Sample>,
    seen_paths: u64,
    instrs: u64,
    max_path: u64,
    vars: usize,
    busy: f64,
}
#[derive(Default)]
struct Totals {
    forks: u64,
    asserts: u64,
    asserts_smt: u64,
    qhits: u64,
    bset: u64,
    queries: u64,
    sat: u64,
    unsat: u64,
    unknown: u64,
    time: f64,
    max_time: f64,
    funcs: BTreeSet<String>,
    sites: BTreeMap<String, u64>,
}
struct Shared {
    q: Mutex<(VecDeque<Unit>, usize)>, // queue, busy workers
    cv: Condvar,
    idle: AtomicUsize,
    qlen: AtomicUsize,
    stop: AtomicBool,
    violated: AtomicBool,
    res: Mutex<(Vec<CaseRes>, Totals)>,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn merge(into: &mut CaseRes, r: CaseRes, cap: usize) {
    into.done += r.done;
    into.infeasible += r.infeasible;
    into.panics += r.panics;
    into.unexplored += r.unexplored;
    into.instrs += r.instrs;
    into.busy += r.busy;
    into.max_path = into.max_path.max(r.max_path);
    into.vars = into.vars.max(r.vars);
    for (k, v) in r.limits {
        *into.limits.entry(k).or_insert(0) += v;
    }
    for (k, v) in r.errors {
        *into.errors.entry(k).or_insert(0) += v;
    }
    for (k, v) in r.notes {
        *into.notes.entry(k).or_insert(0) += v;
    }
    for (k, v) in r.viol {
        let e = into.viol.entry(k).or_insert((0, v.1.clone(), v.2));
        e.0 += v.0;
    }
    for (k, v) in r.findings {
        let e = into.findings.entry(k).or_insert((0, v.1));
        e.0 += v.0;
    }
    for s in r.samples {
        if into.samples.len() < cap {
            into.samples.push(s);
        } else {
            // keep a spread: replace by a hash of the model
            let h = s.model.iter().fold(1469598103934665603u64, |h, b| (h ^ *b as u64).wrapping_mul(1099511628211));
            let k = (h % (cap as u64 * 4)) as usize;
            if k < cap {
                into.samples[k] = s;
            }
        }
    }
    into.seen_paths += r.seen_paths;
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let file = &args[1];
    let out = &args[2];
    let mut workers = 8usize;
    let mut time = 60.0f64;
    let mut grace = 10.0f64;
    let mut steps = 40_000_000u64;
    let mut cap = 24usize;
    let mut cases: Vec<(String, Vec<u64>, String)> = vec![];
    let mut i = 3;
    let mut dbg = false;
    while i < args.len() {
        match args[i].as_str() {
            "--workers" => {
                workers = args[i + 1].parse().unwrap();
                i += 1;
            }
            "--time" => {
                time = args[i + 1].parse().unwrap();
                i += 1;
            }
            "--grace" => {
                grace = args[i + 1].parse().unwrap();
                i += 1;
            }
            "--steps" => {
                steps = args[i + 1].parse().unwrap();
                i += 1;
            }
            "--samples" => {
                cap = args[i + 1].parse().unwrap();
                i += 1;
            }
            "--debug" => dbg = true,
            c => {
                let (n, a) = match c.split_once(':') {
                    Some((n, a)) => (n.to_string(), a.split(',').map(|x| x.parse().unwrap()).collect()),
                    None => (c.to_string(), vec![]),
                };
                cases.push((n, a, c.to_string()));
            }
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text: &'static str = Box::leak(std::fs::read_to_string(file).expect("read ll").into_boxed_str());
    let sh = Shared {
        q: Mutex::new((cases.iter().enumerate().map(|(i, _)| Unit { case: i, prefix: vec![] }).collect(), 0)),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        qlen: AtomicUsize::new(cases.len()),
        stop: AtomicBool::new(false),
        violated: AtomicBool::new(false),
        res: Mutex::new((cases.iter().map(|_| CaseRes::default()).collect(), Totals::default())),
    };
    let deadline = t0 + Duration::from_secs_f64(time);
    let vtime: Mutex<Option<Instant>> = Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..workers {
            let (sh, cases, vtime) = (&sh, &cases, &vtime);
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, move || worker(sh, cases, text, deadline, grace, vtime, steps, cap, dbg))
                .unwrap();
        }
    });
    // ---- report
    let (res, tot) = sh.res.into_inner().unwrap();
    let left = sh.q.into_inner().unwrap().0;
    let mut o = String::from("{\n\"cases\":[\n");
    let mut unexplored: Vec<u64> = res.iter().map(|r| r.unexplored).collect();
    for u in left {
        unexplored[u.case] += 1;
    }
    for (ci, r) in res.iter().enumerate() {
        if ci > 0 {
            o.push_str(",\n");
        }
        let m = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",");
        o.push_str(&format!(
            "{{\"case\":{},\"paths\":{},\"cut\":{},\"panics\":{},\"unexplored\":{},\"instrs\":{},\"max_path\":{},\"vars\":{},\"busy\":{:.1},\"limits\":{{{}}},\"errors\":{{{}}},\"notes\":{{{}}},",
            jstr(&cases[ci].2), r.done, r.infeasible, r.panics, unexplored[ci], r.instrs, r.max_path, r.vars, r.busy, m(&r.limits), m(&r.errors), m(&r.notes)
        ));
        o.push_str(&format!(
            "\"violations\":[{}],",
            r.viol.iter().map(|(k, v)| format!("{{\"code\":{},\"count\":{},\"model\":\"{}\",\"trace\":[{}]}}", jstr(k), v.0, hex(&v.1), v.2.iter().map(|t| jstr(t)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")
        ));
        o.push_str(&format!("\"findings\":[{}],", r.findings.iter().map(|(k, v)| format!("{{\"code\":{},\"count\":{},\"model\":\"{}\"}}", jstr(k), v.0, hex(&v.1))).collect::<Vec<_>>().join(",")));
        o.push_str(&format!("\"samples\":[{}]}}", r.samples.iter().map(|s| format!("{{\"model\":\"{}\",\"obs\":\"{}\"}}", hex(&s.model), hex(&s.obs))).collect::<Vec<_>>().join(",")));
    }
    o.push_str(&format!(
        "],\n\"forks\":{},\"asserts\":{},\"asserts_smt\":{},\"query_cache_hits\":{},\"truth_tables\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.2},\"max_query_s\":{:.2},\"wall_s\":{:.2},\n\"functions\":[{}]}}\n",
        tot.forks, tot.asserts, tot.asserts_smt, tot.qhits, tot.bset, tot.queries, tot.sat, tot.unsat, tot.unknown, tot.time, tot.max_time, t0.elapsed().as_secs_f64(),
        tot.funcs.iter().map(|f| jstr(f)).collect::<Vec<_>>().join(",")
    ));
    std::fs::write(out, o).unwrap();
    let np: u64 = res.iter().map(|r| r.done).sum();
    let ni: u64 = res.iter().map(|r| r.instrs).sum();
    eprintln!(
        "paths {} instrs {:.1}M forks {} queries {} ({:.1}s) cache {} tables {} asserts {}/{} unexplored {} wall {:.1}s",
        np, ni as f64 / 1e6, tot.forks, tot.queries, tot.time, tot.qhits, tot.bset, tot.asserts, tot.asserts_smt, unexplored.iter().sum::<u64>(), t0.elapsed().as_secs_f64()
    );
    for (ci, r) in res.iter().enumerate() {
        if dbg || !r.errors.is_empty() || !r.viol.is_empty() || unexplored[ci] > 0 {
            eprintln!("  {} paths {} cut {} vars {} maxlen {} busy {:.1} unexplored {} notes {:?}", cases[ci].2, r.done, r.infeasible, r.vars, r.max_path, r.busy, unexplored[ci], r.notes);
        }
        for (k, v) in &r.errors {
            eprintln!("    ERROR x{} {}", v, k);
        }
        for (k, v) in &r.limits {
            eprintln!("    LIMIT x{} {}", v, k);
        }
        for (k, v) in &r.viol {
            eprintln!("    VIOL x{} {} model {} {:?}", v.0, k, hex(&v.1), String::from_utf8_lossy(&v.1));
        }
        for (k, v) in &r.findings {
            eprintln!("    FINDING x{} {} {:?}", v.0, k, String::from_utf8_lossy(&v.1));
        }
    }
    if dbg {
        let mut v: Vec<_> = tot.sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("  fork site x{} {}", n, k);
        }
    }
}

fn worker(sh: &Shared, cases: &[(String, Vec<u64>, String)], text: &'static str, deadline: Instant, grace: f64, vtime: &Mutex<Option<Instant>>, steps: u64, cap: usize, dbg: bool) {
    let mut e = Engine::new(text);
    e.max_steps = steps;
    loop {
        // next unit
        let u = {
            let mut g = sh.q.lock().unwrap();
            let mut marked = false;
            loop {
                if sh.stop.load(Ordering::Relaxed) {
                    break None;
                }
                if let Some(u) = g.0.pop_front() {
                    sh.qlen.store(g.0.len(), Ordering::Relaxed);
                    g.1 += 1;
                    break Some(u);
                }
                if g.1 == 0 {
                    sh.stop.store(true, Ordering::Relaxed);
                    sh.cv.notify_all();
                    break None;
                }
                if !marked {
                    marked = true;
                    sh.idle.fetch_add(1, Ordering::Relaxed);
                }
                g = sh.cv.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
                if Instant::now() > deadline {
                    sh.stop.store(true, Ordering::Relaxed);
                }
            }
            .map(|u| {
                if marked {
                    sh.idle.fetch_sub(1, Ordering::Relaxed);
                }
                u
            })
        };
        let u = match u {
            Some(u) => u,
            None => break,
        };
        let tu = Instant::now();
        let mut r = CaseRes::default();
        let (name, args, _) = &cases[u.case];
        let st = e.start(name, args, u.prefix);
        e.work.push(st);
        let mut last_i = 0u64;
        while let Some(mut st) = e.work.pop() {
            let now = Instant::now();
            if sh.stop.load(Ordering::Relaxed) || now > deadline {
                sh.stop.store(true, Ordering::Relaxed);
                r.unexplored += 1 + e.work.len() as u64;
                e.work.clear();
                break;
            }
            if sh.violated.load(Ordering::Relaxed) {
                let t = *vtime.lock().unwrap();
                if let Some(t) = t {
                    if now > t + Duration::from_secs_f64(grace) {
                        sh.stop.store(true, Ordering::Relaxed);
                    }
                }
            }
            let i0 = e.st_instrs;
            let stop = e.run(&mut st);
            r.instrs += e.st_instrs - i0;
            last_i += e.st_instrs - i0;
            r.max_path = r.max_path.max(st.steps);
            r.vars = r.vars.max(st.wit.len());
            let viol = |r: &mut CaseRes, code: String, model: Vec<u8>, trace: Vec<String>| {
                let v = r.viol.entry(code).or_insert((0, model, trace));
                v.0 += 1;
                if !sh.violated.swap(true, Ordering::Relaxed) {
                    *vtime.lock().unwrap() = Some(Instant::now());
                }
            };
            // what cannot be printed ends the program with an error status
            let stop = match stop {
                Stop::Panic(_) if st.outs[0].failed => Stop::Done,
                x => x,
            };
            match stop {
                Stop::Done => {
                    r.done += 1;
                    let k = r.seen_paths;
                    r.seen_paths += 1;
                    if k < 4 || k % 97 == 0 {
                        let s = Sample { model: st.wit.clone(), obs: e.obs_bytes(&st, &st.wit.clone()) };
                        if r.samples.len() < cap {
                            r.samples.push(s);
                        } else {
                            let j = (k / 97) as usize % cap;
                            r.samples[j] = s;
                        }
                    }
                }
                Stop::Infeasible => r.infeasible += 1,
                Stop::Panic(m) => {
                    r.panics += 1;
                    let short = match m.find(" [in ") {
                        Some(i) => m[..i].to_string(),
                        None => m.clone(),
                    };
                    viol(&mut r, format!("panic: {}", short), st.wit.clone(), vec![m]);
                }
                Stop::Engine(m) => {
                    let n = r.errors.entry(m).or_insert(0);
                    *n += 1;
                    if dbg && *n == 1 {
                        eprintln!("engine error, witness {:?}", String::from_utf8_lossy(&st.wit));
                    }
                }
                Stop::Limit(m) => {
                    if m == "step limit" || m == "call depth" || m == "huge allocation" {
                        viol(&mut r, format!("no end: {} exceeded", m), st.wit.clone(), e.backtrace(&st));
                    }
                    *r.limits.entry(m).or_insert(0) += 1;
                }
            }
            for v in std::mem::take(&mut e.violations) {
                viol(&mut r, v.code, v.model, v.trace);
            }
            // share work with idle workers; the bottom of the stack holds the biggest subtrees
            let want = sh.idle.load(Ordering::Relaxed);
            if want > 0 && sh.qlen.load(Ordering::Relaxed) < want && e.work.len() >= 2 && last_i > 200_000 {
                last_i = 0;
                let n = (e.work.len() / 2).min(want);
                let mut g = sh.q.lock().unwrap();
                for s in e.work.drain(..n) {
                    let mut p = s.log.clone();
                    p.extend_from_slice(&s.replay[s.rpos..]);
                    g.0.push_back(Unit { case: u.case, prefix: p });
                }
                sh.qlen.store(g.0.len(), Ordering::Relaxed);
                drop(g);
                sh.cv.notify_all();
            }
            if e.a.nd.len() > 6_000_000 && e.work.len() < 2000 {
                // recycle the expression arena: hand the remaining work over as prefixes
                let mut g = sh.q.lock().unwrap();
                for s in e.work.drain(..) {
                    let mut p = s.log.clone();
                    p.extend_from_slice(&s.replay[s.rpos..]);
                    g.0.push_front(Unit { case: u.case, prefix: p });
                }
                sh.qlen.store(g.0.len(), Ordering::Relaxed);
                drop(g);
                sh.cv.notify_all();
            }
        }
        for (k, m) in std::mem::take(&mut e.findings) {
            let n = e.notes.get(&format!("finding:{}", k)).copied().unwrap_or(1);
            r.findings.entry(k).or_insert((n, m));
        }
        for (k, v) in std::mem::take(&mut e.notes) {
            if !k.starts_with("finding:") {
                *r.notes.entry(k).or_insert(0) += v;
            }
        }
        r.busy = tu.elapsed().as_secs_f64();
        if e.a.nd.len() > 6_000_000 {
            e.reset_arena();
        }
        {
            let mut g = sh.res.lock().unwrap();
            merge(&mut g.0[u.case], r, cap);
        }
        let mut g = sh.q.lock().unwrap();
        g.1 -= 1;
        if g.1 == 0 && g.0.is_empty() {
            sh.stop.store(true, Ordering::Relaxed);
        }
        drop(g);
        sh.cv.notify_all();
    }
    let mut g = sh.res.lock().unwrap();
    let t = &mut g.1;
    t.forks += e.st_forks;
    t.asserts += e.st_asserts;
    t.asserts_smt += e.st_asserts_smt;
    t.qhits += e.st_qhits;
    t.bset += e.st_bset;
    t.queries += e.smt.queries;
    t.sat += e.smt.sat;
    t.unsat += e.smt.unsat;
    t.unknown += e.smt.unknown;
    t.time += e.smt.time;
    t.max_time = t.max_time.max(e.smt.max_time);
    for (i, x) in e.executed.iter().enumerate() {
        if *x {
            t.funcs.insert(demangle(&e.m.funcs[i].name));
        }
    }
    for ((f, ip), n) in &e.fork_sites {
        *t.sites.entry(format!("{} @{}", demangle(&e.m.funcs[*f].name), ip)).or_insert(0) += n;
    }
}
