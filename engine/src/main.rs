mod exec;
mod expr;
mod ir;
mod llvm;
mod mem;
mod z3;

use exec::*;
use ir::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Job {
    entry: u32,
    entry_name: String,
    params: Vec<u64>,
}

struct Item {
    job: usize,
    prefix: Vec<u64>,
}

#[derive(Default, Clone)]
struct JobRes {
    paths: u64,
    infeasible: u64,
    errors: BTreeMap<String, u64>,
    checks: u64,
    vio: Vec<Violation>,
    covers: BTreeMap<u64, u64>,
    check_ids: BTreeMap<u64, u64>,
    samples: Vec<(Vec<u64>, Vec<u64>)>,
    seen: u64,
    unexplored: u64,
    max_steps: u64,
    time_us: u64,
}

#[derive(Default)]
struct Totals {
    insts: u64,
    forks: u64,
    decisions: u64,
    checks: u64,
    sym_checks: u64,
    queries: u64,
    sat: u64,
    unsat: u64,
    unknown: u64,
    solver_us: u64,
    max_query_us: u64,
    funcs: HashMap<u32, u64>,
}

struct Shared {
    q: Mutex<VecDeque<Item>>,
    cv: Condvar,
    busy: AtomicUsize,
    idle: AtomicUsize,
    stop: AtomicBool,
    timeout: AtomicBool,
    nvio: AtomicU64,
}

fn arg(args: &[String], k: &str, d: &str) -> String {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.to_string())
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jnums(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn jmap(m: &BTreeMap<u64, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","))
}

fn main() {
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        hook(i);
        std::process::exit(2);
    }));
    let args: Vec<String> = std::env::args().collect();
    let bc = arg(&args, "--bc", "");
    let jobs_file = arg(&args, "--jobs", "");
    let out = arg(&args, "--out", "/dev/stdout");
    let threads: usize = arg(&args, "--threads", "8").parse().unwrap();
    let budget: u64 = arg(&args, "--budget", "600").parse().unwrap();
    let timeout_ms: u32 = arg(&args, "--query-timeout", "20000").parse().unwrap();
    let steps: u64 = arg(&args, "--steps", "50000000").parse().unwrap();
    let nsamples: usize = arg(&args, "--samples", "2").parse().unwrap();
    let seed: u64 = arg(&args, "--seed", "1").parse().unwrap();
    let maxvio: u64 = arg(&args, "--max-violations", "3").parse().unwrap();
    let t0 = Instant::now();
    let prog: &'static Program = match Program::load(&bc) {
        Ok(p) => Box::leak(Box::new(p)),
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(2);
        }
    };
    let load_s = t0.elapsed().as_secs_f64();
    let mut jobs: Vec<Job> = vec![];
    for l in std::fs::read_to_string(&jobs_file).expect("jobs file").lines() {
        let mut it = l.split_whitespace();
        let Some(name) = it.next() else { continue };
        let Some(&entry) = prog.by_name.get(name) else {
            eprintln!("no function {name} in {bc}");
            std::process::exit(2);
        };
        jobs.push(Job { entry, entry_name: name.to_string(), params: it.map(|x| x.parse().unwrap()).collect() });
    }
    let jobs = &jobs;
    let shared = Shared {
        q: Mutex::new((0..jobs.len()).map(|job| Item { job, prefix: vec![] }).collect()),
        cv: Condvar::new(),
        busy: AtomicUsize::new(0),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        timeout: AtomicBool::new(false),
        nvio: AtomicU64::new(0),
    };
    let shared = &shared;
    let results: Mutex<HashMap<usize, JobRes>> = Mutex::new(HashMap::new());
    let results = &results;
    let totals = Mutex::new(Totals::default());
    let totals = &totals;
    let job_stop: Vec<AtomicBool> = (0..jobs.len()).map(|_| AtomicBool::new(false)).collect();
    let job_stop = &job_stop;
    let deadline = t0 + Duration::from_secs(budget);

    std::thread::scope(|sc| {
        for tid in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    let mk = || {
                        Engine::new(prog, timeout_ms, Limits { steps, conc: 70000, depth: 20000 })
                    };
                    let mut eng = mk();
                    let mut rng = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (tid as u64 + 1);
                    let flush = |e: &mut Engine| {
                        let mut t = totals.lock().unwrap();
                        t.insts += e.st.insts;
                        t.forks += e.st.forks;
                        t.decisions += e.st.decisions;
                        t.checks += e.st.checks;
                        t.sym_checks += e.st.sym_checks;
                        t.queries += e.solver.queries;
                        t.sat += e.solver.sat;
                        t.unsat += e.solver.unsat;
                        t.unknown += e.solver.unknown;
                        t.solver_us += e.solver.time_us;
                        t.max_query_us = t.max_query_us.max(e.solver.max_us);
                        for (k, v) in e.funcs_run.drain() {
                            *t.funcs.entry(k).or_insert(0) += v;
                        }
                    };
                    loop {
                        let item = {
                            let mut q = shared.q.lock().unwrap();
                            loop {
                                if shared.stop.load(SeqCst) {
                                    break None;
                                }
                                if let Some(i) = q.pop_front() {
                                    shared.busy.fetch_add(1, SeqCst);
                                    break Some(i);
                                }
                                if shared.busy.load(SeqCst) == 0 {
                                    break None;
                                }
                                shared.idle.fetch_add(1, SeqCst);
                                q = shared.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                                shared.idle.fetch_sub(1, SeqCst);
                            }
                        };
                        let Some(item) = item else { break };
                        if eng.ar.nodes.len() > 300_000 || eng.solver.size() > 100_000 {
                            flush(&mut eng);
                            eng = mk();
                        }
                        eng.covers.clear();
                        eng.check_ids.clear();
                        let jt = Instant::now();
                        let mut r = JobRes::default();
                        let st = eng.start(jobs[item.job].entry, jobs[item.job].params.clone(), item.prefix);
                        eng.pending.clear();
                        eng.pending.push(st);
                        while let Some(mut s) = eng.pending.pop() {
                            if Instant::now() > deadline {
                                shared.timeout.store(true, SeqCst);
                                shared.stop.store(true, SeqCst);
                            }
                            if shared.stop.load(SeqCst) || job_stop[item.job].load(SeqCst) {
                                r.unexplored += 1 + eng.pending.len() as u64;
                                eng.pending.clear();
                                break;
                            }
                            match eng.run(&mut s) {
                                End::Done => {
                                    r.paths += 1;
                                    r.seen += 1;
                                    r.max_steps = r.max_steps.max(s.steps);
                                    rng ^= rng << 13;
                                    rng ^= rng >> 7;
                                    rng ^= rng << 17;
                                    let k = if r.samples.len() < nsamples {
                                        Some(r.samples.len())
                                    } else {
                                        let j = (rng % r.seen) as usize;
                                        if j < nsamples {
                                            Some(j)
                                        } else {
                                            None
                                        }
                                    };
                                    if let Some(k) = k {
                                        let m = s.model.clone();
                                        let smp = (eng.inputs_of(&s, &m), eng.observed_of(&s));
                                        if k < r.samples.len() {
                                            r.samples[k] = smp;
                                        } else {
                                            r.samples.push(smp);
                                        }
                                    }
                                }
                                End::Infeasible => r.infeasible += 1,
                                End::Violation(v) => {
                                    r.vio.push(v);
                                    job_stop[item.job].store(true, SeqCst);
                                    if shared.nvio.fetch_add(1, SeqCst) + 1 >= maxvio {
                                        shared.stop.store(true, SeqCst);
                                    }
                                }
                                End::Error(m) => {
                                    *r.errors.entry(m).or_insert(0) += 1;
                                    if r.errors.values().sum::<u64>() > 50 {
                                        job_stop[item.job].store(true, SeqCst);
                                    }
                                }
                            }
                            r.checks += s.nchecks;
                            if !eng.pending.is_empty() && shared.idle.load(SeqCst) > 0 {
                                let mut q = shared.q.lock().unwrap();
                                if q.len() < threads {
                                    let n = eng.pending.len().div_ceil(2).min(threads);
                                    for s in eng.pending.drain(..n) {
                                        q.push_back(Item { job: item.job, prefix: s.decisions() });
                                    }
                                    shared.cv.notify_all();
                                }
                            }
                        }
                        r.covers = std::mem::take(&mut eng.covers);
                        r.check_ids = std::mem::take(&mut eng.check_ids);
                        r.time_us = jt.elapsed().as_micros() as u64;
                        {
                            let mut all = results.lock().unwrap();
                            let t = all.entry(item.job).or_default();
                            t.paths += r.paths;
                            t.infeasible += r.infeasible;
                            t.checks += r.checks;
                            t.vio.extend(r.vio);
                            for (k, v) in r.covers {
                                *t.covers.entry(k).or_insert(0) += v;
                            }
                            for (k, v) in r.check_ids {
                                *t.check_ids.entry(k).or_insert(0) += v;
                            }
                            for (k, v) in r.errors {
                                *t.errors.entry(k).or_insert(0) += v;
                            }
                            for s in r.samples {
                                if t.samples.len() < nsamples {
                                    t.samples.push(s);
                                }
                            }
                            t.unexplored += r.unexplored;
                            t.max_steps = t.max_steps.max(r.max_steps);
                            t.time_us += r.time_us;
                        }
                        shared.busy.fetch_sub(1, SeqCst);
                        shared.cv.notify_all();
                    }
                    flush(&mut eng);
                })
                .unwrap();
        }
    });

    let res = results.lock().unwrap();
    let t = totals.lock().unwrap();
    let left: Vec<usize> = shared.q.lock().unwrap().iter().map(|i| i.job).collect();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"load_s\":{load_s:.3},\"wall_s\":{:.3},\"timeout\":{},\"z3\":{},\"insts\":{},\"forks\":{},\"decisions\":{},\"checks\":{},\"sym_checks\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"queued_left\":{},\n\"funcs\":{{",
        t0.elapsed().as_secs_f64(),
        shared.timeout.load(SeqCst),
        jstr(&z3::version()),
        t.insts,
        t.forks,
        t.decisions,
        t.checks,
        t.sym_checks,
        t.queries,
        t.sat,
        t.unsat,
        t.unknown,
        t.solver_us as f64 / 1e6,
        t.max_query_us as f64 / 1e6,
        jnums(&left.iter().map(|x| *x as u64).collect::<Vec<_>>())
    );
    let mut fs: Vec<(String, u64)> = t
        .funcs
        .iter()
        .filter(|(k, _)| prog.funcs[**k as usize].name.contains("4rpds") || prog.funcs[**k as usize].name.contains("7archery"))
        .map(|(k, v)| (demangle(&prog.funcs[*k as usize].name), *v))
        .collect();
    fs.sort();
    let _ = write!(o, "{}", fs.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "}},\n\"nfuncs\":{},\n\"jobs\":[", t.funcs.len());
    let empty = JobRes::default();
    for (i, j) in jobs.iter().enumerate() {
        let r = res.get(&i).unwrap_or(&empty);
        let _ = write!(
            o,
            "{}\n{{\"entry\":{},\"params\":{},\"paths\":{},\"infeasible\":{},\"checks\":{},\"unexplored\":{},\"max_steps\":{},\"time_s\":{:.3},\"covers\":{},\"check_ids\":{},\"errors\":{{{}}},\"samples\":[{}],\"violations\":[{}]}}",
            if i == 0 { "" } else { "," },
            jstr(&j.entry_name),
            jnums(&j.params),
            r.paths,
            r.infeasible,
            r.checks,
            r.unexplored,
            r.max_steps,
            r.time_us as f64 / 1e6,
            jmap(&r.covers),
            jmap(&r.check_ids),
            r.errors.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(","),
            r.samples
                .iter()
                .map(|(a, b)| format!("{{\"inputs\":{},\"observed\":{}}}", jnums(a), jnums(b)))
                .collect::<Vec<_>>()
                .join(","),
            r.vio
                .iter()
                .map(|v| format!(
                    "{{\"kind\":{},\"msg\":{},\"inputs\":{},\"at\":{}}}",
                    jstr(&v.kind),
                    jstr(&v.msg),
                    jnums(&v.inputs),
                    jstr(&v.at)
                ))
                .collect::<Vec<_>>()
                .join(",")
        );
    }
    o.push_str("]}\n");
    std::fs::write(&out, o).expect("write output");
}
