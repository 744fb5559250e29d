//! Runs simulated executions in forked children of this (otherwise idle, single-threaded) process, collects what
//! they report, confirms, minimises and records violations, and writes the evidence.
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::io::Write;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::time::{Duration, Instant};
use serde_json::{json, Value};
use crate::out::Out;

pub struct Cfg { pub prop: String, pub tier: String, pub seed: u64, pub runs: Option<u64>, pub jobs: Option<usize>, pub verif: String, pub from: u64 }

/// (runs quick, runs thorough, plans per process, wall cap quick, wall cap thorough)
fn budget(prop: &str) -> (u64, u64, u64, u64, u64) {
    match prop {
        "C08" => (1_800_000, 12_000_000, 100, 240, 1500),
        "C09" | "C10" => (1_200_000, 10_000_000, 40, 240, 1500),
        "C11" => (14_000, 150_000, 1, 240, 1800),
        "C12" | "C13" => (1_500_000, 12_000_000, 100, 240, 1500),
        "C17" => (1_600_000, 14_000_000, 100, 240, 1500),
        "C18" => (2_000_000, 16_000_000, 100, 240, 1500),
        "C19" => (1_600_000, 14_000_000, 100, 240, 1500),
        "C14" => (1_500, 24_000, 1, 240, 1800),
        "C15" => (200_000, 2_500_000, 40, 240, 1500),
        "C05" | "C06" => (360_000, 3_000_000, 50, 240, 1500),
        _ => (900_000, 6_000_000, 50, 240, 1500),
    }
}

pub struct Child { pub pid: i32, pub fd: OwnedFd, pub buf: Vec<u8>, pub last: Instant, pub eof: bool }

/// resources of one simulated process
fn limits(cpu: u64, mem: bool) {
    unsafe {
        let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 2 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        if mem {
            let m = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &m);
        }
    }
}

pub fn spawn(cpu: u64, mem: bool, body: impl FnOnce(RawFd)) -> Child {
    let mut p = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(p[0]);
            libc::setpgid(0, 0);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            limits(cpu, mem);
            // fatal-error messages of a dying run are not part of the protocol
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            if std::env::var_os("PSIM_STDERR").is_none() { libc::dup2(null, 2); }
            std::panic::set_hook(Box::new(|_| {}));
            body(p[1]);
            libc::_exit(0);
        }
        libc::setpgid(pid, pid);
        libc::close(p[1]);
        Child { pid, fd: OwnedFd::from_raw_fd(p[0]), buf: vec![], last: Instant::now(), eof: false }
    }
}
pub fn put(fd: RawFd, s: &str) {
    let b = s.as_bytes();
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::write(fd, b[o..].as_ptr() as *const _, b.len() - o) };
        if n <= 0 { unsafe { libc::_exit(9) } }
        o += n as usize;
    }
}
impl Child {
    pub fn read(&mut self) {
        let mut tmp = [0u8; 65536];
        let n = unsafe { libc::read(self.fd.as_raw_fd(), tmp.as_mut_ptr() as *mut _, tmp.len()) };
        if n <= 0 { self.eof = true } else { self.buf.extend_from_slice(&tmp[..n as usize]); self.last = Instant::now() }
    }
    pub fn kill(&self) { unsafe { libc::kill(-self.pid, libc::SIGKILL); libc::kill(self.pid, libc::SIGKILL); } }
    pub fn wait(&self) -> i32 { let mut st = 0; unsafe { libc::waitpid(self.pid, &mut st, 0); } st }
}
pub fn poll(cs: &[&Child], ms: i32) -> Vec<usize> {
    let mut f: Vec<libc::pollfd> = cs.iter().map(|c| libc::pollfd { fd: c.fd.as_raw_fd(), events: libc::POLLIN, revents: 0 }).collect();
    unsafe { libc::poll(f.as_mut_ptr(), f.len() as _, ms) };
    f.iter().enumerate().filter(|(_, p)| p.revents != 0).map(|(i, _)| i).collect()
}

fn death(st: i32) -> String {
    if libc::WIFSIGNALED(st) {
        let s = libc::WTERMSIG(st);
        let n = match s { libc::SIGABRT => "abort", libc::SIGSEGV => "segmentation fault or stack overflow", libc::SIGXCPU | libc::SIGKILL => "killed (time limit)", _ => "signal" };
        format!("process died: {n} (signal {s})")
    } else { format!("process exited early with status {}", libc::WEXITSTATUS(st)) }
}

fn wants_mem(prop: &str) -> bool { prop != "C14" }
const STALL: Duration = Duration::from_secs(120);

/// run plans one after another in one fresh process; the violation of the last one (or of any, if `any`)
pub fn run_seq(prop: &str, plans: &[Value], cpu: u64) -> Option<(String, String)> {
    let mut c = spawn(cpu, wants_mem(prop), |fd| {
        let mut viol = None;
        for p in plans {
            let o = crate::exec(prop, p);
            viol = o.viol;
            if viol.is_some() { break }
        }
        put(fd, &format!("{}\n", serde_json::to_string(&viol).unwrap()));
    });
    let t0 = Instant::now();
    while !c.eof {
        for _ in poll(&[&c], 200) { c.read() }
        if t0.elapsed() > STALL.min(Duration::from_secs(cpu * 3 + 5)) { c.kill(); c.wait(); return Some(("hang".into(), "no progress".into())) }
    }
    let st = c.wait();
    c.kill();
    match serde_json::from_slice::<Option<(String, String)>>(&c.buf) {
        Ok(v) => v,
        Err(_) => Some(("crash".into(), death(st))),
    }
}

pub struct Found { pub index: u64, pub kind: String, pub detail: String, pub batch: u64 }

pub fn check(cfg: &Cfg) -> i32 {
    let t0 = Instant::now();
    let prop = cfg.prop.as_str();
    let (q, t, per, capq, capt) = budget(prop);
    let thorough = cfg.tier == "thorough";
    let runs = cfg.runs.unwrap_or(if thorough { t } else { q });
    let cap = Duration::from_secs(if thorough { capt } else { capq });
    let jobs = cfg.jobs.unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
    let nb = (runs + per - 1) / per;
    let batch = |b: u64| (cfg.from + b * per, (cfg.from + (b + 1) * per).min(cfg.from + runs));
    let run_batch = |b: u64| {
        let (lo, hi) = batch(b);
        spawn(if thorough { 300 } else { 120 }, wants_mem(prop), |fd| {
            let mut line = String::new();
            for i in lo..hi {
                put(fd, &format!("B {i}\n"));
                let plan = crate::generate(prop, cfg.seed, i, &cfg.tier);
                let o = crate::exec(prop, &plan);
                line.clear();
                line.push_str(&format!("R {i} {}\n", serde_json::to_string(&o).unwrap()));
                put(fd, &line);
                if o.viol.is_some() { break }
            }
        })
    };
    let mut agg = Agg::default();
    let mut queue: VecDeque<u64> = (0..nb).collect();
    // determinism: these batches are run a second time and must report the same traces
    let twice: HashSet<u64> = (0..nb).step_by((nb as usize / 12).max(1)).collect();
    let mut first: BTreeMap<u64, u64> = BTreeMap::new();
    let (mut det_ok, mut det_bad) = (0u64, 0u64);
    let mut live: Vec<(u64, bool, Child)> = vec![];
    let mut found: Vec<Found> = vec![];
    let mut second: VecDeque<u64> = VecDeque::new();
    let mut capped = false;
    loop {
        if t0.elapsed() > cap && !queue.is_empty() { capped = true; queue.clear(); }
        if !found.is_empty() { queue.clear(); second.clear(); }
        while live.len() < jobs {
            if let Some(b) = second.pop_front() { live.push((b, true, run_batch(b))) }
            else if let Some(b) = queue.pop_front() { live.push((b, false, run_batch(b))); if twice.contains(&b) { second.push_back(b) } }
            else { break }
        }
        if live.is_empty() { break }
        let ready = poll(&live.iter().map(|x| &x.2).collect::<Vec<_>>(), 500);
        for i in ready { live[i].2.read() }
        let mut k = 0;
        while k < live.len() {
            let stalled = live[k].2.last.elapsed() > STALL;
            if !live[k].2.eof && !stalled { k += 1; continue }
            let (b, again, c) = live.swap_remove(k);
            if !c.eof { c.kill() }
            let st = c.wait();
            let text = String::from_utf8_lossy(&c.buf).into_owned();
            let (mut begun, mut done, mut h) = (None, None, 0u64);
            for l in text.lines() {
                if let Some(x) = l.strip_prefix("B ") { begun = x.parse::<u64>().ok() }
                if let Some(x) = l.strip_prefix("R ") {
                    let (i, j) = x.split_once(' ').unwrap();
                    let i: u64 = i.parse().unwrap();
                    let Ok(o) = serde_json::from_str::<Out>(j) else { continue };
                    done = Some(i);
                    h = crate::rng::mix(h ^ o.digest);
                    if !again {
                        if let Some((kind, detail)) = &o.viol { found.push(Found { index: i, kind: kind.clone(), detail: detail.clone(), batch: b }) }
                        agg.add(i, &o);
                    }
                }
            }
            let clean = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0;
            if !clean || !c.eof {
                let (kind, d) = if c.eof { ("crash", death(st)) } else { ("hang", format!("no progress for {} s", STALL.as_secs())) };
                if !again { if let Some(i) = begun.filter(|b| Some(*b) != done) { found.push(Found { index: i, kind: kind.into(), detail: d, batch: b }) } }
            }
            if twice.contains(&b) { match first.remove(&b) { None => { first.insert(b, h); } Some(x) => if x == h { det_ok += 1 } else { det_bad += 1 } } }
        }
    }
    found.sort_by_key(|f| f.index);
    let sim_wall = t0.elapsed().as_secs_f64();

    // confirm, minimise, record
    let mut reported = 0;
    let mut unrepro = 0;
    for f in found.iter().take(3) {
        let (lo, _) = batch(f.batch);
        let cpu = 20;
        let gen = |i: u64| crate::generate(prop, cfg.seed, i, &cfg.tier);
        let alone = vec![gen(f.index)];
        let same = |v: &Option<(String, String)>| v.as_ref().is_some_and(|(k, _)| *k == f.kind || (is_death(k) && is_death(&f.kind)));
        let mut plans = alone.clone();
        if !same(&run_seq(prop, &plans, cpu)) {
            plans = (lo..=f.index).map(gen).collect();
            if !same(&run_seq(prop, &plans, cpu * 4)) { unrepro += 1; eprintln!("note: run {} reported {} ({}) once but not again", f.index, f.kind, f.detail); continue }
        }
        let small = crate::shrink::minimise(prop, plans, &same, Duration::from_secs(if is_death(&f.kind) { 30 } else { 45 }));
        let (kind, detail) = run_seq(prop, &small, cpu * 4).filter(|v| same(&Some(v.clone()))).unwrap_or((f.kind.clone(), f.detail.clone()));
        let dir = format!("{}/work/replay", cfg.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{}-{}.json", cfg.seed, f.index);
        let v = json!({"property": prop, "seed": cfg.seed, "run": f.index, "tier": cfg.tier, "kind": kind, "detail": detail, "plans": small,
            "unminimised_detail": f.detail});
        let _ = std::fs::File::create(&path).and_then(|mut w| w.write_all(serde_json::to_string_pretty(&v).unwrap().as_bytes()));
        println!("{}: {}", kind, detail);
        println!("VIOLATION property={prop} replay={path}");
        reported += 1;
        break;
    }

    let wall = t0.elapsed().as_secs_f64();
    let samples: Vec<Value> = agg.samples.iter().take(3).map(|i| json!({"run": i, "plan": clip(crate::generate(prop, cfg.seed, *i, &cfg.tier))})).collect();
    let ev = json!({
        "property": prop, "tier": cfg.tier, "seed": cfg.seed, "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.distinct.len(),
            "rule": rule(prop),
            "samples": samples,
            "simulated_runs": agg.runs,
            "runs_per_hour": (agg.runs as f64 / sim_wall * 3600.0) as u64,
            "seeds_per_hour": (agg.runs as f64 / sim_wall * 3600.0) as u64,
            "simulated_time_logical_steps": agg.steps,
            "skipped_plans": agg.skipped,
            "faults_fired": agg.fired,
            "situations_reached": agg.probes,
            "distinct_traces_measure": "hash of the run's complete event log (every callback, position, result, error text and output)",
            "distinct_traces": agg.all.len(),
            "determinism": {"batches_run_twice_identical": det_ok, "batches_run_twice_different": det_bad},
            "unreproducible_reports": unrepro,
            "stopped_by_wall_cap": capped,
            "components_real": real_parts(prop),
            "components_simulated": sim_parts(prop),
        },
        "assumptions": ["rustc, std, proc_macro2 (outside a compiler) and syn behave as documented", "the reference model in sim/src is right about the grammars' semantics"],
        "wall_s": wall, "violations": reported,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", cfg.verif));
    let p = format!("{}/evidence/{prop}.json", cfg.verif);
    if std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()).is_err() { eprintln!("cannot write {p}"); return 2 }
    println!("{prop}: {} runs, {} distinct non-trivial, {} logical steps, faults fired: {:?}, {:.1} s", agg.runs, agg.distinct.len(), agg.steps, agg.fired, wall);
    if reported > 0 { return 1 }
    if agg.runs == 0 { eprintln!("no run completed"); return 2 }
    0
}
fn is_death(k: &str) -> bool { matches!(k, "crash" | "hang") }
fn clip(v: Value) -> Value { let s = v.to_string(); if s.len() > 3000 { Value::String(s.chars().take(3000).collect::<String>() + "...") } else { v } }

#[derive(Default)]
struct Agg { runs: u64, skipped: u64, steps: u64, fired: BTreeMap<String, u64>, probes: BTreeMap<String, u64>, distinct: HashSet<u64>, all: HashSet<u64>, samples: Vec<u64> }
impl Agg {
    fn add(&mut self, i: u64, o: &Out) {
        if o.skipped { self.skipped += 1; return }
        self.runs += 1;
        self.steps += o.steps;
        for (k, n) in &o.fired { *self.fired.entry(k.clone()).or_insert(0) += n }
        for (k, n) in &o.probes { *self.probes.entry(k.clone()).or_insert(0) += n }
        self.all.insert(o.digest);
        if o.nontrivial { self.distinct.insert(o.digest); if !o.fired.is_empty() && self.samples.len() < 3 { self.samples.push(i) } }
    }
}

pub fn replay(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else { eprintln!("cannot read {path}"); return 2 };
    let Ok(v) = serde_json::from_str::<Value>(&s) else { eprintln!("not a replay file"); return 2 };
    let prop = v["property"].as_str().unwrap_or("");
    let plans: Vec<Value> = v["plans"].as_array().cloned().unwrap_or_default();
    match run_seq(prop, &plans, 80) {
        Some((k, d)) => { println!("{k}: {d}"); println!("VIOLATION property={prop} replay={path}"); 1 }
        None => { println!("{prop}: the recorded execution shows no violation on this tree"); 0 }
    }
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C08" => "each run: a sentence of one of the fixed derived grammars, damaged at token or byte level, through every entry point, printed in every layout and re-parsed; non-trivial: at least one fault was applied or the text has at least 6 tokens; distinct by event-log hash",
        "C09" | "C10" => "each run: a history of writes of random token streams through one formatter (and through Display) into a simulated sink that fails, recovers or panics at chosen points; non-trivial: at least one sink fault fired or at least 3 writes; distinct by event-log hash",
        "C11" => "each run: operations on 1-3 simulated threads, interleaved at every sub-parser/sink callback by a seeded scheduler, with nested and aborted operations; non-trivial: at least one switch, nested operation or abort happened; distinct by event-log hash (the schedule included)",
        "C12" | "C13" => "each run: a history of container operations with user code that panics at chosen points, against a list model; non-trivial: at least 4 operations or one abort; distinct by event-log hash",
        "C14" => "each run: a set of random items expanded by the real derives in rustc processes under different entropy, environments, arguments, source positions and earlier expansions; non-trivial: at least 2 expansions of a generic item compared; distinct by event-log hash",
        "C17" => "each run: a history of conversions of literals (plain values, syn's literals, Lit, tokens, text, locations, mutation in place), with refused and damaged ones and failing sinks in between, every view of every literal after every step; non-trivial: at least 4 operations or a fault; distinct by event-log hash",
        "C18" => "each run: a history of nodes made in different ways and at different locations, compared with all others and with plain values, and of a hash map and an ordered map keyed by them, with hashers that panic; non-trivial: at least 4 operations or a fault; distinct by event-log hash",
        "C19" => "each run: a history of words delivered to identifier and keyword types of 14 languages, with near misses, foreign keywords and panicking markers; non-trivial: at least 3 operations or an abort; distinct by event-log hash",
        "C15" => "each run: a history of sources read (valid, damaged, nested) and locations resolved in between; non-trivial: at least 3 node locations resolved; distinct by event-log hash",
        _ => "each run: a random grammar of real combinators and derived types over simulated sub-parsers, an input with token faults, and sub-parser faults; non-trivial: at least 6 sub-parser attempts or a fault that fired; distinct by event-log hash (every attempt with position and result)",
    }
}
fn real_parts(prop: &str) -> Vec<&'static str> {
    match prop {
        "C12" | "C13" => vec!["parsel::ast container nodes", "syn::punctuated"],
        "C17" | "C18" => vec!["parsel::ast literals, identifiers, keywords, container nodes", "syn literals", "proc_macro2", "std maps"],
        "C19" => vec!["parsel::ast::CustomIdent", "code generated by define_keywords!", "syn", "proc_macro2"],
        "C14" => vec!["parsel_derive macros", "rustc", "proc_macro2 in a compiler"],
        "C09" | "C10" => vec!["parsel::util formatter", "Display/ToTokens impls", "proc_macro2"],
        _ => vec!["parsel::ast combinators", "code generated by parsel_derive", "parsel::util", "syn", "proc_macro2"],
    }
}
fn sim_parts(prop: &str) -> Vec<&'static str> {
    match prop {
        "C12" | "C13" => vec!["user iterators, closures, Default/Clone of elements"],
        "C14" => vec!["entropy, wall clock, process id, host name, processors and address layout of the compiler process", "environment variables (any the macro asks for), arguments, working directory and files in it", "which items are expanded before, and where in the source"],
        "C09" | "C10" => vec!["output sink (fmt::Write)"],
        "C11" => vec!["thread schedule", "sub-parsers", "output sinks"],
        "C17" => vec!["source text and token delivery", "output sink (fmt::Write)", "plain values at the edges of every type"],
        "C18" => vec!["hashers", "where and how nodes are made (locations, text, tokens, values)"],
        "C19" => vec!["source text and token delivery", "keyword-list markers", "which languages are used before and in between"],
        "C08" | "C15" => vec!["source text delivery"],
        _ => vec!["sub-parsers of the fields (leaf parsers)", "source text delivery"],
    }
}
