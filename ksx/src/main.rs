//! ksx: symbolic execution of a harness in an LLVM IR module.
//!   ksx MODULE.ll ENTRY [--jobs N] [--time S] [--max-steps N] [--max-paths N] [--samples N] [--tmp DIR] [--out FILE] [--replay HEX] [--trace]
mod exec; mod expr; mod ir; mod mem; mod solver;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

#[derive(Default)]
struct Res {
    done: u64, pruned: u64, failed: u64,
    viol: BTreeMap<String, Vec<(String, Vec<u8>, String, String)>>, // id -> (where, inputs, input names, notes)
    inc: BTreeMap<String, u64>,
    inc_ex: BTreeMap<String, Vec<u8>>,
    covers: BTreeSet<String>, funs: BTreeSet<String>, conc: BTreeMap<String, u64>,
    stats: BTreeMap<&'static str, f64>,
    samples: Vec<(Vec<u8>, Vec<u8>)>,
}
fn hex(b: &[u8]) -> String { let mut s = String::new(); for x in b { write!(s, "{:02x}", x).unwrap(); } s }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => { write!(o, "\\u{:04x}", c as u32).unwrap(); } c => o.push(c) } } o }

struct Opt { jobs: usize, time: f64, steps: u64, paths: u64, samples: usize, tmp: String, out: Option<String>, replay: Option<Vec<u8>>, trace: bool, timeout: u32, split: usize }

fn record(ex: &mut Exec, st: &State, end: End, r: &mut Res, o: &Opt) {
    for c in &st.covers { let l = ex.labels[*c as usize].clone(); r.covers.insert(l); }
    let names = || st.inputs.iter().map(|(n, _, l)| format!("{}:{}", n, l)).collect::<Vec<_>>().join(" ");
    let mut model = st.model.clone(); model.resize(st.nvars as usize, 0);
    let ms = st.steps as f64; let e = r.stats.entry("max_steps").or_insert(0.0); if *e < ms { *e = ms; }
    let e = r.stats.entry("max_slice").or_insert(0.0); if *e < st.max_slice as f64 { *e = st.max_slice as f64; }
    let e = r.stats.entry("max_depth").or_insert(0.0); if *e < st.forks as f64 { *e = st.forks as f64; }
    match end {
        End::Done => {
            r.done += 1;
            // a deterministic, spread-out selection of paths for native replay
            let n = r.done;
            if r.samples.len() < o.samples && (n <= 3 || n.is_power_of_two() || n % 97 == 0) { let out = ex.outputs(st); r.samples.push((model, out)); }
        }
        End::Pruned => r.pruned += 1,
        End::Paused => {}
        End::Fail(id, bt) => {
            r.failed += 1;
            let v = r.viol.entry(id).or_default();
            if v.len() < 2 { v.push((bt, model, names(), st.trace.iter().map(|s| s.to_string()).collect::<Vec<_>>().join("; "))); }
        }
        End::Incomplete(w) => { let w = if w == "time limit" { w } else { format!("{} [{}]", w, ex.backtrace(st).chars().take(400).collect::<String>()) }; *r.inc.entry(w.clone()).or_insert(0) += 1; r.inc_ex.entry(w).or_insert(model); }
    }
}
fn finish(ex: &mut Exec, r: &mut Res) {
    for f in &ex.used { r.funs.insert(ex.m.funs[*f as usize].name.clone()); }
    for (k, v) in &ex.conc_sites { *r.conc.entry(k.clone()).or_insert(0) += v; }
    for (k, v) in [("instructions", ex.instrs as f64), ("forks", ex.fork_count as f64), ("z3_queries", ex.s.queries as f64), ("cached_queries", ex.s.cached as f64), ("byte_domain_queries", ex.s.dom as f64), ("solver_seconds", ex.s.time), ("unknown", ex.s.unknown as f64), ("concretisation_forks", ex.conc_forks as f64)] { *r.stats.entry(k).or_insert(0.0) += v; }
}
fn dump(r: &Res, path: &str) {
    let mut s = String::new();
    writeln!(s, "done\t{}\t{}\t{}", r.done, r.pruned, r.failed).unwrap();
    for (id, v) in &r.viol { for (bt, m, n, t) in v { writeln!(s, "viol\t{}\t{}\t{}\t{}\t{}", id.replace(['\t', '\n'], " "), bt, hex(m), n, t.replace(['\t', '\n'], " ")).unwrap(); } }
    for (w, n) in &r.inc { writeln!(s, "inc\t{}\t{}\t{}", w.replace(['\t', '\n'], " "), n, hex(r.inc_ex.get(w).map(|v| &v[..]).unwrap_or(&[]))).unwrap(); }
    for c in &r.covers { writeln!(s, "cover\t{}", c).unwrap(); }
    for c in &r.funs { writeln!(s, "fun\t{}", c).unwrap(); }
    for (k, v) in &r.conc { writeln!(s, "conc\t{}\t{}", k, v).unwrap(); }
    for (k, v) in &r.stats { writeln!(s, "stat\t{}\t{}", k, v).unwrap(); }
    for (a, b) in &r.samples { writeln!(s, "sample\t{}\t{}", hex(a), hex(b)).unwrap(); }
    std::fs::write(path, s).unwrap();
}
fn stat_key(k: &str) -> &'static str { for x in ["max_steps", "max_slice", "max_depth", "instructions", "forks", "z3_queries", "cached_queries", "byte_domain_queries", "solver_seconds", "unknown", "concretisation_forks"] { if x == k { return x; } } "other" }
fn merge(r: &mut Res, path: &str, samples: usize) -> bool {
    let t = match std::fs::read_to_string(path) { Ok(t) => t, Err(_) => return false };
    for l in t.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "done" => { r.done += f[1].parse::<u64>().unwrap(); r.pruned += f[2].parse::<u64>().unwrap(); r.failed += f[3].parse::<u64>().unwrap(); }
            "viol" => { let v = r.viol.entry(f[1].into()).or_default(); if v.len() < 4 { v.push((f[2].into(), unhex(f[3]), f[4].into(), f[5].into())); } }
            "inc" => { *r.inc.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(); r.inc_ex.entry(f[1].into()).or_insert(unhex(f[3])); }
            "cover" => { r.covers.insert(f[1].into()); }
            "fun" => { r.funs.insert(f[1].into()); }
            "conc" => { *r.conc.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(); }
            "stat" => { let k = stat_key(f[1]); let v: f64 = f[2].parse().unwrap(); let e = r.stats.entry(k).or_insert(0.0); if k.starts_with("max") { if *e < v { *e = v; } } else { *e += v; } }
            "sample" => if r.samples.len() < samples { r.samples.push((unhex(f[1]), unhex(f[2]))); }
            _ => {}
        }
    }
    true
}

fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let mut o = Opt { jobs: 8, time: 600.0, steps: 200_000_000, paths: u64::MAX, samples: 6, tmp: "/tmp".into(), out: None, replay: None, trace: false, timeout: 30_000, split: 64 };
    let mut i = 3;
    while i < a.len() {
        let v = || a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--jobs" => { o.jobs = v().parse().unwrap(); i += 1 } "--time" => { o.time = v().parse().unwrap(); i += 1 }
            "--max-steps" => { o.steps = v().parse().unwrap(); i += 1 } "--max-paths" => { o.paths = v().parse().unwrap(); i += 1 }
            "--samples" => { o.samples = v().parse().unwrap(); i += 1 } "--tmp" => { o.tmp = v(); i += 1 } "--out" => { o.out = Some(v()); i += 1 }
            "--replay" => { o.replay = Some(unhex(&v())); i += 1 } "--trace" => o.trace = true,
            "--solver-timeout" => { o.timeout = v().parse().unwrap(); i += 1 } "--split" => { o.split = v().parse().unwrap(); i += 1 }
            x => panic!("option {}", x),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&a[1]).expect("module");
    let m = ir::Module::load(text);
    let mut ex = Exec::new(m, o.timeout);
    ex.max_steps = o.steps; ex.tracing = o.trace;
    ex.replay = o.replay.clone();
    let deadline = t0 + Duration::from_secs_f64(o.time);
    ex.deadline = Some(deadline);
    let st = ex.initial(&a[2]);
    let load_s = t0.elapsed().as_secs_f64();
    let mut r = Res::default();
    let mut queue: std::collections::VecDeque<State> = Default::default();
    queue.push_back(st);
    let mut paths = 0u64;
    // phase 1: breadth first until there is enough work to share
    let t1 = Instant::now();
    let want = || if o.jobs <= 1 { usize::MAX } else { let t = t1.elapsed().as_millis(); o.jobs * if t < 200 { o.split } else if t < 400 { 16 } else if t < 800 { 4 } else { 2 } };
    // states that have not forked for a while wait behind the others
    let mut cold: std::collections::VecDeque<State> = Default::default();
    while let Some(mut s) = queue.pop_front().or_else(|| cold.pop_front()) {
        if paths >= o.paths || Instant::now() > deadline { *r.inc.entry(if paths >= o.paths { "path limit".into() } else { "time limit".to_string() }).or_insert(0) += 1 + (queue.len() + cold.len()) as u64; break; }
        ex.breadth = o.jobs > 1;
        let e = ex.run(&mut s);
        if let End::Paused = e { if ex.work.is_empty() { cold.push_back(s); } else { queue.push_back(s); } } else { paths += 1; record(&mut ex, &s, e, &mut r, &o); }
        ex.breadth = false;
        queue.extend(ex.work.drain(..));
        if queue.len() + cold.len() >= want() { break; }
        if o.jobs <= 1 { // depth first
            let q: Vec<State> = queue.drain(..).collect(); ex.work = q;
            while let Some(mut s) = ex.work.pop() {
                if paths >= o.paths || Instant::now() > deadline { *r.inc.entry(if paths >= o.paths { "path limit".into() } else { "time limit".to_string() }).or_insert(0) += 1 + ex.work.len() as u64; ex.work.clear(); break; }
                let e = ex.run(&mut s); paths += 1; record(&mut ex, &s, e, &mut r, &o);
            }
        }
    }
    let mut workers = 1;
    queue.extend(cold);
    if std::env::var("KSX_DBG").is_ok() { eprintln!("share {} after {:?} paths {}", queue.len(), t1.elapsed(), paths); }
    if !queue.is_empty() && r.inc.get("time limit").is_none() && r.inc.get("path limit").is_none() {
        let states: Vec<State> = queue.into_iter().collect();
        let ctr = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const std::sync::atomic::AtomicUsize;
        let mut pids = vec![];
        workers = o.jobs;
        for w in 0..o.jobs {
            let pid = unsafe { fork() };
            if pid == 0 {
                let mut r2 = Res::default();
                let (ins, fk, q, c, d, tm, unk, cf) = (ex.instrs, ex.fork_count, ex.s.queries, ex.s.cached, ex.s.dom, ex.s.time, ex.s.unknown, ex.conc_forks);
                ex.conc_sites.clear();
                let mut paths = 0u64;
                loop {
                    let i = unsafe { (*ctr).fetch_add(1, std::sync::atomic::Ordering::SeqCst) };
                    if i >= states.len() { break; }
                    ex.work.clear(); ex.work.push(states[i].clone());
                    while let Some(mut s) = ex.work.pop() {
                        if Instant::now() > deadline || paths > o.paths { *r2.inc.entry("time limit".into()).or_insert(0) += 1 + ex.work.len() as u64; break; }
                        let e = ex.run(&mut s); paths += 1;
                        record(&mut ex, &s, e, &mut r2, &o);
                    }
                }
                ex.instrs -= ins; ex.fork_count -= fk; ex.s.queries -= q; ex.s.cached -= c; ex.s.dom -= d; ex.s.time -= tm; ex.s.unknown -= unk; ex.conc_forks -= cf;
                finish(&mut ex, &mut r2);
                dump(&r2, &format!("{}/w{}", o.tmp, w));
                unsafe { _exit(0) }
            }
            pids.push(pid);
        }
        for (w, pid) in pids.into_iter().enumerate() {
            let mut s = 0; unsafe { waitpid(pid, &mut s, 0) };
            let f = format!("{}/w{}", o.tmp, w);
            if s != 0 || !merge(&mut r, &f, o.samples * 4) { *r.inc.entry(format!("worker ended abnormally ({:#x})", s)).or_insert(0) += 1; }
            let _ = std::fs::remove_file(f);
        }
    }
    finish(&mut ex, &mut r);
    let mut s = String::new();
    write!(s, "{{\"entry\":\"{}\",\"paths\":{},\"pruned\":{},\"failed\":{},\"workers\":{},\"load_seconds\":{:.2},\"wall_seconds\":{:.2},\"complete\":{},\n", a[2], r.done, r.pruned, r.failed, workers, load_s, t0.elapsed().as_secs_f64(), r.inc.is_empty()).unwrap();
    write!(s, "\"stats\":{{{}}},\n", r.stats.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")).unwrap();
    write!(s, "\"violations\":[{}],\n", r.viol.iter().flat_map(|(id, v)| v.iter().map(move |(bt, m, n, t)| format!("{{\"id\":\"{}\",\"where\":\"{}\",\"inputs\":\"{}\",\"names\":\"{}\",\"notes\":\"{}\"}}", esc(id), esc(bt), hex(m), esc(n), esc(t)))).collect::<Vec<_>>().join(",\n")).unwrap();
    write!(s, "\"incomplete\":{{{}}},\n", r.inc.iter().map(|(k, v)| format!("\"{}\":{{\"count\":{},\"inputs\":\"{}\"}}", esc(k), v, hex(r.inc_ex.get(k).map(|x| &x[..]).unwrap_or(&[])))).collect::<Vec<_>>().join(",")).unwrap();
    write!(s, "\"covers\":[{}],\n", r.covers.iter().map(|c| format!("\"{}\"", esc(c))).collect::<Vec<_>>().join(",")).unwrap();
    write!(s, "\"concretised\":{{{}}},\n", r.conc.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(",")).unwrap();
    write!(s, "\"samples\":[{}],\n", r.samples.iter().map(|(a, b)| format!("[\"{}\",\"{}\"]", hex(a), hex(b))).collect::<Vec<_>>().join(",")).unwrap();
    write!(s, "\"functions\":[{}]}}\n", r.funs.iter().map(|c| format!("\"{}\"", esc(c))).collect::<Vec<_>>().join(",")).unwrap();
    match &o.out { Some(f) => std::fs::write(f, s).unwrap(), None => print!("{}", s) }
}
fn main() {
    // generous stack: expression traversal is recursive
    std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap().join().unwrap();
}
