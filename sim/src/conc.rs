//! C11: operations on several threads under a scheduler that decides every switch (at sub-parser attempts, sink
//! writes and every allocation of the code under test), operations nested inside others' callbacks, operations that
//! fail or panic before; each outcome compared with the same operation alone in a fresh process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};
use parsel::proc_macro2::TokenStream;
use parsel::util::*;
use serde::{Deserialize, Serialize};
use crate::damage::{edit, make, Ed};
use crate::dynast::*;
use crate::fmtsim::{build, gen_doc, DT};
use crate::gen::*;
use crate::grams::*;
use crate::model::*;
use crate::out::*;
use crate::parsesim::{self, gen_grammar, run_a};
use crate::rng::{fnv, Rng};

// ---------------------------------------------------------------- the scheduler
const NOBODY: usize = usize::MAX;
thread_local! { static ME: Cell<usize> = const { Cell::new(NOBODY) }; }
static STEP: AtomicU64 = AtomicU64::new(0);
static NEXT: AtomicU64 = AtomicU64::new(u64::MAX);
static TURN: AtomicUsize = AtomicUsize::new(NOBODY);
struct Sched { quantum: u64, preempt: Vec<(u64, usize)>, pos: usize, tick: u64, live: Vec<bool>, blocked: Vec<bool>, switches: u64, trace: u64, stolen: u64 }
static SCHED: Mutex<Option<Sched>> = Mutex::new(None);
static WAKE: Condvar = Condvar::new();

impl Sched {
    fn plan_next(&mut self) {
        let a = self.preempt.get(self.pos).map_or(u64::MAX, |p| p.0);
        NEXT.store(a.min(self.tick), SeqCst);
    }
    fn give(&mut self, to: usize) {
        if TURN.load(SeqCst) != to { self.switches += 1; self.trace = fnv(self.trace, &STEP.load(SeqCst).to_le_bytes()) ^ to as u64 }
        TURN.store(to, SeqCst);
        WAKE.notify_all();
    }
    /// the k-th live thread after `me`; one that waits for a suspended one only if there is no other
    fn other(&self, me: usize, k: usize) -> usize {
        let live: Vec<usize> = (1..=self.live.len()).map(|i| (me + i) % self.live.len()).filter(|i| self.live[*i]).collect();
        let free: Vec<usize> = live.iter().copied().filter(|i| !self.blocked[*i]).collect();
        let v = if free.is_empty() { live } else { free };
        if v.is_empty() { NOBODY } else { v[k % v.len()] }
    }
}
/// a point at which the running thread may lose its turn
#[inline]
pub fn yield_point() {
    let me = ME.get();
    if me == NOBODY { return }
    let s = STEP.fetch_add(1, SeqCst) + 1;
    if s >= NEXT.load(SeqCst) || TURN.load(SeqCst) != me { ME.set(NOBODY); slow(me, s); ME.set(me) }
}
#[cold]
fn slow(me: usize, s: u64) {
    let mut g = SCHED.lock().unwrap_or_else(|e| e.into_inner());
    let Some(sc) = g.as_mut() else { return };
    if TURN.load(SeqCst) == me && s >= NEXT.load(SeqCst) {
        let mut to = me;
        if sc.tick <= s { sc.tick = s + sc.quantum; to = sc.other(me, 0) }
        while sc.preempt.get(sc.pos).is_some_and(|p| p.0 <= s) { to = sc.other(me, sc.preempt[sc.pos].1); sc.pos += 1 }
        sc.plan_next();
        sc.give(to);
    }
    wait_turn(me, g);
}
static TIDS: [AtomicUsize; 8] = [const { AtomicUsize::new(0) }; 8];
/// does a thread of this process sleep
fn asleep(tid: usize) -> bool {
    let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else { return false };
    s.rsplit(')').next().and_then(|r| r.trim().chars().next()) == Some('S')
}
fn wait_turn(me: usize, mut g: std::sync::MutexGuard<'_, Option<Sched>>) {
    if let Some(sc) = g.as_mut() { sc.blocked[me] = false }
    let (mut seen, mut still) = (STEP.load(SeqCst), 0);
    while TURN.load(SeqCst) != me {
        let (h, t) = WAKE.wait_timeout(g, Duration::from_millis(4)).unwrap_or_else(|e| e.into_inner());
        g = h;
        if !t.timed_out() { continue }
        let (now, on) = (STEP.load(SeqCst), TURN.load(SeqCst));
        if on == me { break }
        still = if now == seen && on < TIDS.len() && asleep(TIDS[on].load(SeqCst)) { still + 1 } else { 0 };
        seen = now;
        // whoever has the turn waits for something a suspended thread holds: go on without it
        if still >= 4 {
            if let Some(sc) = g.as_mut() {
                sc.stolen += 1;
                sc.blocked[on] = true;
                // code that locks a lot: from here on it is only interleaved where it must be
                if sc.stolen == 60 { sc.preempt.clear(); sc.pos = 0; sc.quantum = u64::MAX >> 1; sc.tick = u64::MAX; sc.plan_next() }
                sc.give(me)
            }
        }
    }
}
pub struct YieldAlloc;
unsafe impl GlobalAlloc for YieldAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { yield_point(); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { yield_point(); System.realloc(p, l, n) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { yield_point(); System.alloc_zeroed(l) }
}
#[global_allocator]
static ALLOC: YieldAlloc = YieldAlloc;

// ---------------------------------------------------------------- plans
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TW {
    /// parse a source of a fixed grammar, print the tree every way and into a sink
    Typed { gram: usize, input: Vec<IT>, #[serde(default)] edits: Vec<Ed> },
    /// parse a source of a random grammar with simulated sub-parsers
    Dyn { rules: Vec<GN>, input: Vec<IT>, #[serde(default)] faults: Vec<LeafFault> },
    /// format tokens
    Fmt { how: usize, doc: Vec<DT> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TOp { pub what: TW, #[serde(default)] pub rep: usize,
    /// the sink: at which write it fails, whether by a panic
    #[serde(default)] pub sink: Option<(usize, bool)>,
    /// operations run inside the n-th callback
    #[serde(default, skip_serializing_if = "Vec::is_empty")] pub nested: Vec<(usize, TOp)> }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConcPlan { pub threads: Vec<Vec<TOp>>, #[serde(default)] pub first: usize, #[serde(default)] pub quantum: u64, #[serde(default)] pub preempt: Vec<(u64, usize)> }

fn deep(rng: &mut Rng) -> TW {
    let d = *rng.pick(&[5, 20, 60, 110]);
    let name = *rng.pick(&["Json", "Toks", "BoolOr", "Ty", "Expr"]);
    let gram = GRAMS.iter().position(|g| g.name == name).unwrap();
    let mut v = vec![tok(match name { "Json" => "1", _ => "a" })];
    for i in 0..d {
        v = match name {
            "Json" if i % 3 == 2 => vec![group('{', { let mut x = vec![tok("\"k\""), tok(":")]; x.extend(v); x })],
            "Json" | "Toks" => { if i % 4 == 1 { v.push(tok(if name == "Json" { "," } else { "1" })); } if name == "Json" && i % 4 == 1 && rng.chance(50) { v.push(tok("2")) } vec![group('[', v)] }
            "BoolOr" if i % 2 == 0 => { v.insert(0, tok("!")); v }
            "Ty" if i % 3 == 0 => { v.insert(0, tok("->")); v.insert(0, tok("b")); v }
            "Expr" if i % 3 == 0 => { v.push(tok("*")); v.push(tok("c")); vec![tok("f"), group('(', v)] }
            _ => vec![group('(', v)],
        };
    }
    TW::Typed { gram, input: v, edits: if rng.chance(30) { vec![Ed::Lose(rng.below(d * 4 + 1))] } else { vec![] } }
}
fn gen_what(rng: &mut Rng, pool: &[TW]) -> TW {
    // often nearly the same as another one
    if !pool.is_empty() && rng.chance(45) {
        let mut w = rng.pick(pool).clone();
        match &mut w {
            TW::Typed { input, gram, edits } => match rng.below(4) {
                0 => { let _ = damage(rng, input, &|r: &mut Rng| random_tok(r, 1)); }
                1 => { let n = render(input).chars().count() + 1; edits.push(match rng.below(3) { 0 => Ed::Lose(rng.below(n)), 1 => Ed::Cut(rng.below(n)), _ => Ed::Put(rng.below(n), rng.pick(&["1", "a", ",", "(", "\""]).to_string()) }) }
                2 => { let g = *gram; *gram = rng.below(GRAMS.len()); if rng.chance(50) { *gram = g } }
                _ => {}
            },
            TW::Dyn { input, faults, .. } => if rng.chance(60) { let _ = damage(rng, input, &|r: &mut Rng| random_tok(r, 1)); } else { faults.clear() },
            TW::Fmt { how, doc } => if rng.chance(50) { *how = rng.below(12) } else { doc.pop(); },
        }
        return w;
    }
    match rng.weighted(&[35, 35, 20, 10]) {
        0 => {
            let gram = rng.below(GRAMS.len());
            let mut input = make(rng, gram);
            if rng.chance(35) { let _ = damage(rng, &mut input, &|r: &mut Rng| random_tok(r, 1)); }
            TW::Typed { gram, input, edits: vec![] }
        }
        1 => { let p = *rng.pick(&["C01", "C02", "C04", "C05", "C06", "C07"]); let p = parsesim::generate(rng, p); let _ = gen_grammar; TW::Dyn { rules: p.rules, input: p.input, faults: p.faults } }
        2 => { let mut left = *rng.pick(&[5, 20, 50]); let d = rng.range(1, 6); TW::Fmt { how: rng.below(12), doc: gen_doc(rng, d, &mut left) } }
        _ => deep(rng),
    }
}
fn gen_op(rng: &mut Rng, pool: &mut Vec<TW>, nest: usize) -> TOp {
    let what = gen_what(rng, pool);
    pool.push(what.clone());
    let nested = if nest > 0 && rng.chance(30) { (0..1 + rng.below(2)).map(|_| (rng.below(12), gen_op(rng, pool, nest - 1))).collect() } else { vec![] };
    TOp { what, rep: rng.weighted(&[80, 12, 6, 2]).pow(4) * 3, sink: if rng.chance(25) { Some((rng.below(30), rng.chance(40))) } else { None }, nested }
}
pub fn generate(rng: &mut Rng) -> ConcPlan {
    let nt = 1 + rng.weighted(&[20, 45, 20, 15]);
    let mut pool = vec![];
    let threads = (0..nt).map(|_| (0..1 + rng.below(4)).map(|_| gen_op(rng, &mut pool, 2)).collect()).collect();
    let scale = *rng.pick(&[200, 2_000, 10_000]);
    ConcPlan {
        threads, first: rng.below(4),
        quantum: match rng.below(3) { 0 => 0, 1 => 1 + rng.below(20) as u64, _ => 20 + rng.below(600) as u64 },
        preempt: (0..rng.below(8)).map(|_| (1 + rng.below(scale) as u64, rng.below(4))).collect(),
    }
}

// ---------------------------------------------------------------- operations
const SINK_BOOM: &str = "SIMULATED SINK PANIC";
type Hook = Rc<dyn Fn(usize)>;
struct CSink { buf: String, calls: usize, fault: Option<(usize, bool)>, hook: Option<Hook> }
impl Write for CSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        yield_point();
        let n = self.calls;
        self.calls += 1;
        if let Some(h) = &self.hook { h(n) }
        if let Some((k, p)) = self.fault { if n == k { if p { std::panic::panic_any(SINK_BOOM) } return Err(fmt::Error) } if n > k { self.buf.push_str("!after!") } }
        self.buf.push_str(s);
        Ok(())
    }
}
fn err_text(e: &parsel::Error) -> String {
    let s = e.span();
    format!("error {:?} at {}:{}..{}:{} {:?}", e.to_string(), s.start().line, s.start().column, s.end().line, s.end().column, s.byte_range())
}
fn into_sink(op: &TOp, hook: Option<Hook>, f: impl FnOnce(&mut CSink) -> fmt::Result) -> String {
    let mut s = CSink { buf: String::new(), calls: 0, fault: op.sink, hook };
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut s))).map_err(|p| panic_text(&*p));
    format!("{r:?} {:?}", s.buf)
}
struct D<'a>(&'a TokenStream);
impl fmt::Display for D<'_> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { format_ast_node(self.0, f) } }

/// runs the operation once, alone on this thread but for what `hook` does inside its callbacks
fn run(op: &TOp, hook: Option<Hook>) -> String {
    match &op.what {
        TW::Typed { gram, input, edits } => {
            let Some(g) = GRAMS.get(*gram) else { return "-".into() };
            let mut t = render(input);
            for e in edits { t = edit(&t, e).0 }
            let r = catch_unwind(AssertUnwindSafe(|| match (g.from_str)(&t) {
                Err(e) => err_text(&e),
                Ok(n) => {
                    let mut spans = String::new();
                    let mut k = 0;
                    n.visit(&mut |v| if let Vis::Node(x) | Vis::Leaf(x, _) = v { k += 1; if k < 40 { spans.push_str(&format!("{} {:?};", x.format_span(), x.byte_range(&t))) } });
                    let again = (g.parse2)(n.toks()).map(|m| m.same(&*n)).map_err(|e| e.to_string());
                    let sunk = into_sink(op, hook, |w| n.pretty(w));
                    format!("{:?} {:?} {:?} {again:?} {spans} {sunk}", n.tree(), n.plain(), n.alt())
                }
            }));
            r.unwrap_or_else(|p| format!("panic {}", panic_text(&*p)))
        }
        TW::Dyn { rules, input, faults } => {
            let t = render(input);
            let (Some(a), Ok(ts)) = (Arena::new(rules, ZOO), TokenStream::from_str(&t)) else { return "-".into() };
            let level = lex_level(ts, None, &mut 0);
            let mut c = Ctx::new(a, faults, &level, 20_000);
            c.hook = Some(Box::new(move |n| { yield_point(); if let Some(h) = &hook { h(n) } }));
            let c = Rc::new(c);
            let g = enter(c.clone());
            let (a, outer) = run_a(&t);
            drop(g);
            let mut h = 0;
            for e in c.log.borrow().iter() { h = fnv(h, format!("{} {} {} {} {:?}", e.act, e.parent, e.node, e.start, e.end).as_bytes()) }
            let r = a.map(|a| {
                let r = match a.res { Err(p) => format!("panic {p}"), Ok(Err(e)) => err_text(&e), Ok(Ok(n)) => {
                    struct R<'a>(&'a dyn Ast);
                    impl fmt::Display for R<'_> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.show(f) } }
                    let d = R(&*n.0);
                    let sunk = into_sink(op, None, |w| write!(w, "{d:#}"));
                    format!("{:?} {} {:#} {sunk}", n.0.tree(), d, d)
                } };
                format!("{r} {} {}", a.before, a.after)
            });
            format!("{r:?} {:?} {h:x}", outer.map(|r| r.map_err(|e| err_text(&e))))
        }
        TW::Fmt { how, doc } => {
            let Some(ts) = build(doc) else { return "-".into() };
            into_sink(op, hook, |w| match how % 12 {
                0 => format_ast_node_pretty(&ts, w),
                1 => format_ast_node_compact(&ts, w),
                2 => format_tokens_pretty(ts.clone(), w),
                3 => format_tokens_compact(ts.clone(), w),
                4 => write!(w, "{}", D(&ts)),
                5 => write!(w, "{:#}", D(&ts)),
                6 => TokenStreamFormatter::pretty(&mut *w).write(ts.clone()),
                7 => TokenStreamFormatter::compact(&mut *w).write(ts.clone()),
                8 => TokenStreamFormatter::with_indent("\t", &mut *w).map_err(|_| fmt::Error)?.write_ast_node(&ts),
                _ => {
                    // one formatter, many writes, errors ignored
                    let mut f = TokenStreamFormatter::with_indent("  ", &mut *w).map_err(|_| fmt::Error)?;
                    let a = f.write(ts.clone());
                    let b = f.write(ts.clone());
                    a.and(b)
                }
            })
        }
    }
}

type Log = Rc<RefCell<Vec<(usize, String)>>>;
/// numbers the operations in the order of the plan
fn number<'a>(op: &'a TOp, v: &mut Vec<&'a TOp>) { v.push(op); for (_, n) in &op.nested { number(n, v) } }
fn size(op: &TOp) -> usize { 1 + op.nested.iter().map(|(_, n)| size(n)).sum::<usize>() }
fn perform(op: &TOp, id: usize, log: &Log, depth: usize) {
    for _ in 0..op.rep.max(1) {
        let hook: Option<Hook> = if op.nested.is_empty() || depth > 3 { None } else {
            let mut k = id + 1;
            let subs: Vec<(usize, TOp, usize)> = op.nested.iter().map(|(at, n)| { let i = k; k += size(n); (*at, TOp { rep: 0, ..n.clone() }, i) }).collect();
            let log = log.clone();
            Some(Rc::new(move |n| for (at, op, i) in &subs { if *at == n { perform(op, *i, &log, depth + 1) } }))
        };
        let r = run(op, hook);
        let mut l = log.borrow_mut();
        // repetitions that agree are recorded once
        if l.last().map_or(true, |x| x.0 != id || x.1 != r) { l.push((id, r)) }
    }
}

/// no thread of this process but the calling one is running or runnable
fn others_asleep() -> bool {
    let me = unsafe { libc::syscall(libc::SYS_gettid) }.to_string();
    let Ok(d) = std::fs::read_dir("/proc/self/task") else { return false };
    for e in d.flatten() {
        if e.file_name().to_string_lossy() == me { continue }
        let Ok(s) = std::fs::read_to_string(e.path().join("stat")) else { return false };
        if s.rsplit(')').next().and_then(|r| r.trim().chars().next()) != Some('S') { return false }
    }
    true
}
pub fn exec(plan: &ConcPlan) -> Out {
    let mut o = Out::default();
    // no lock of the simulator's own may be held by a suspended thread
    warm();
    let nt = plan.threads.len();
    if nt == 0 || nt > 8 || plan.threads.iter().flatten().map(size).sum::<usize>() > 200 { return Out::skip() }
    let mut ops = vec![];
    let mut first_id = vec![];
    for t in &plan.threads { first_id.push(ops.len()); for op in t { number(op, &mut ops) } }
    // each operation alone, in a process of its own
    let mut expect: Vec<Option<String>> = vec![];
    for op in &ops {
        let mut c = crate::driver::spawn(20, true, |fd| crate::driver::put(fd, &format!("{}\n", run(op, None))));
        while !c.eof { c.read() }
        let st = c.wait();
        expect.push((st == 0).then(|| String::from_utf8_lossy(&c.buf).trim_end_matches('\n').to_string()));
    }
    if expect.iter().any(Option::is_none) { return Out::skip() }
    let mut preempt = plan.preempt.clone();
    preempt.sort();
    let tick = if plan.quantum > 0 { plan.quantum } else { u64::MAX };
    let mut sc = Sched { quantum: plan.quantum.max(1), preempt, pos: 0, tick, live: vec![true; nt], blocked: vec![false; nt], switches: 0, trace: 0, stolen: 0 };
    STEP.store(0, SeqCst);
    for t in &TIDS { t.store(0, SeqCst) }
    sc.plan_next();
    TURN.store(plan.first % nt, SeqCst);
    *SCHED.lock().unwrap() = Some(sc);
    let mut handles = vec![];
    for (ti, t) in plan.threads.iter().enumerate() {
        let (t, base) = (t.clone(), first_id[ti]);
        handles.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            TIDS[ti].store(unsafe { libc::syscall(libc::SYS_gettid) } as usize, SeqCst);
            wait_turn(ti, SCHED.lock().unwrap_or_else(|e| e.into_inner()));
            ME.set(ti);
            let log: Log = Default::default();
            let mut id = base;
            for op in &t { perform(op, id, &log, 0); id += size(op); yield_point() }
            ME.set(NOBODY);
            let l = std::mem::take(&mut *log.borrow_mut());
            drop(t);
            let mut g = SCHED.lock().unwrap_or_else(|e| e.into_inner());
            let sc = g.as_mut().unwrap();
            sc.live[ti] = false;
            if TURN.load(SeqCst) == ti { let to = sc.other(ti, 0); sc.give(to) }
            l
        }).unwrap());
    }
    let (mut seen, mut at, mut asleep) = (0, Instant::now(), 0);
    while handles.iter().any(|h| !h.is_finished()) {
        let g = SCHED.lock().unwrap_or_else(|e| e.into_inner());
        if g.as_ref().unwrap().live.iter().any(|l| *l) { drop(WAKE.wait_timeout(g, Duration::from_millis(100))) } else { drop(g); std::thread::yield_now() }
        let s = STEP.load(SeqCst);
        if s != seen { seen = s; at = Instant::now(); asleep = 0 }
        // a thread that computes without reaching a yield point is running or runnable; one in a deadlock sleeps
        if at.elapsed() > Duration::from_secs(3) { if others_asleep() { asleep += 1; std::thread::sleep(Duration::from_millis(20)) } else { asleep = 0 } }
        if at.elapsed() > Duration::from_secs(6) && asleep > 20 || at.elapsed() > Duration::from_secs(25) {
            o.bad("hang", "the threads stopped making progress (a deadlock among the operations)".to_string());
            return o;
        }
    }
    let results: Vec<_> = handles.into_iter().map(|h| h.join()).collect();
    let sc = SCHED.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap();
    let (mut panics, mut fails, mut n) = (0, 0, 0);
    for (ti, r) in results.into_iter().enumerate() {
        let Ok(l) = r else { o.bad("panic", format!("thread {ti} panicked outside any operation")); continue };
        for (id, got) in l {
            n += 1;
            if got.contains("SIMULATED") { panics += 1 } else if got.contains("error ") || got.contains("Err(") { fails += 1 }
            o.log(&got);
            let want = expect[id].as_ref().unwrap();
            if got != *want {
                let d = got.chars().zip(want.chars()).take_while(|(a, b)| a == b).count();
                let cut = |s: &str| s.chars().skip(d.saturating_sub(60)).take(300).collect::<String>();
                o.bad("outcome", format!("operation {id} ({}) on thread {ti} gives ...{:?} instead of ...{:?}, which it gives alone", label(ops[id]), cut(&got), cut(want)));
            }
        }
    }
    o.log(&format!("{:x}", sc.trace));
    o.steps = STEP.load(SeqCst);
    o.nontrivial = n > 1;
    if sc.switches > 0 { o.fire("preemption", sc.switches) }
    if panics > 0 { o.fire("operation_panicked", panics) }
    if fails > 0 { o.fire("operation_failed", fails) }
    let nested = ops.len() - plan.threads.iter().map(Vec::len).sum::<usize>();
    if nested > 0 { o.fire("operation_nested", nested as u64) }
    if nt > 1 { o.probe("several_threads", 1) }
    if ops.iter().any(|o| o.rep > 40) { o.probe("long_history", 1) }
    if sc.stolen > 0 { o.probe("turn_taken_from_a_blocked_thread", sc.stolen) }
    o.probe("outcomes_compared", n);
    o
}
fn label(op: &TOp) -> String {
    match &op.what {
        TW::Typed { gram, input, edits } => { let mut t = render(input); for e in edits { t = edit(&t, e).0 } format!("{} on {:?}", GRAMS[*gram].name, t.chars().take(120).collect::<String>()) }
        TW::Dyn { rules, input, faults } => format!("{}, leaf faults {faults:?}", parsesim::show_plan(rules, &render(input))),
        TW::Fmt { how, doc } => format!("formatting {how} of {}", build(doc).map_or(String::new(), |t| t.to_string())),
    }
}
