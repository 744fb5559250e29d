//! C15: histories of reading many sources (whole, damaged, nested inside one another) and of resolving the
//! locations of nodes read before, against offsets known independently of parsel.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::str::FromStr;
use parsel::proc_macro2::TokenStream;
use parsel::util::{SpanDisplay, SpannedExt};
use parsel::{Span, ToTokens};
use serde::{Deserialize, Serialize};
use crate::damage::{edit, make, Ed};
use crate::dynast::*;
use crate::gen::*;
use crate::grams::*;
use crate::model::*;
use crate::out::*;
use crate::parsesim::{gen_grammar, run_a};
use crate::rng::{mix, Rng};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Text { pub input: Vec<IT>, #[serde(default)] pub edits: Vec<Ed>, #[serde(default)] pub crlf: bool, #[serde(default)] pub bom: bool, #[serde(default)] pub tail: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    Typed { gram: usize, text: Text },
    Dyn { rules: Vec<GN>, text: Text, #[serde(default)] nested: Vec<(usize, SOp)> },
    /// `n` other sources, read for nothing
    Noise { n: usize, text: Text },
    Check(usize), Clone(usize), Drop(usize),
    /// prints a tree to tokens and parses these
    Again(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SpanPlan { pub ops: Vec<SOp> }

fn exotic(rng: &mut Rng, ts: &mut [IT]) {
    for t in ts {
        if let Some(g) = &mut t.g { exotic(rng, g) }
        else if matches!(t.t.as_str(), "a" | "b" | "c" | "x") && rng.chance(30) { t.t = rng.pick(&["\u{e9}t\u{e9}", "na\u{ef}ve", "\u{53d8}\u{91cf}", "\u{3b1}_1", "long_identifier"]).to_string() }
        else if t.t == "\"s\"" && rng.chance(50) { t.t = rng.pick(&["\"\u{1F600}\"", "\"a\nb\u{20ac}\nc\"", "\"\u{e9}\\n\"", "\"\"", "\"x\ny\""]).to_string() }
    }
}
/// some token, at any depth
fn text(rng: &mut Rng, mut input: Vec<IT>) -> Text {
    if rng.chance(8) { pad(rng, &mut input, 12) }
    if rng.chance(15) { let _ = damage(rng, &mut input, &|r: &mut Rng| random_tok(r, 1)); }
    let n = render(&input).chars().count() + 1;
    let edits = if rng.chance(12) { vec![match rng.below(3) { 0 => Ed::Lose(rng.below(n)), 1 => Ed::Cut(rng.below(n)), _ => Ed::Put(rng.below(n), rng.pick(&["(", "\"", "\u{e9}", "}", "'"]).to_string()) }] } else { vec![] };
    Text { input, edits, crlf: rng.chance(25), bom: rng.chance(5), tail: rng.below(WS.len()) as u8 }
}
fn gen_op(rng: &mut Rng, nest: usize) -> SOp {
    match rng.weighted(&[45, if nest > 0 { 25 } else { 0 }, 6, 16, 4, 4, 8]) {
        0 => { let gram = rng.below(GRAMS.len()); let mut i = make(rng, gram); exotic(rng, &mut i); SOp::Typed { gram, text: text(rng, i) } }
        1 => {
            let p = *rng.pick(&["C01", "C04", "C05", "C06", "C07", "C16", ""]);
            let (rules, _) = gen_grammar(rng, p);
            let mut input = vec![];
            sentence(rng, &rules, &rules[0], &mut SC { hard: 4000, left: 30, long: 0, zoo: ZOO, tower: false }, 3, &mut input);
            relayout(rng, &mut input, false);
            let nested = (0..rng.weighted(&[40, 35, 20, 5])).map(|_| (rng.below(8), gen_op(rng, nest - 1))).collect();
            SOp::Dyn { rules, text: text(rng, input), nested }
        }
        2 => { let n = *rng.pick(&[1, 3, 20, 300]); let i = (0..rng.below(6)).map(|_| random_tok(rng, 1)).collect(); SOp::Noise { n, text: text(rng, i) } }
        3 => SOp::Check(rng.below(16)),
        4 => SOp::Clone(rng.below(16)),
        5 => SOp::Drop(rng.below(16)),
        _ => SOp::Again(rng.below(16)),
    }
}
pub fn generate(rng: &mut Rng) -> SpanPlan {
    let n = 1 + rng.weighted(&[20, 20, 15, 15, 10, 8, 5, 4, 3]);
    SpanPlan { ops: (0..n).map(|_| gen_op(rng, 2)).collect() }
}
pub fn realise(t: &Text) -> String {
    let mut s = render(&t.input);
    s.push_str(WS[t.tail as usize % WS.len()]);
    for e in &t.edits { s = edit(&s, e).0 }
    if t.crlf { s = s.replace("\r\n", "\n").replace('\n', "\r\n") }
    if t.bom { s.insert(0, '\u{feff}') }
    s
}

enum Kept { Typed(Box<dyn Tr>, usize), Dyn(Box<dyn Ast>) }
pub struct Src { text: String, want: Vec<Option<(usize, usize)>>, node: Kept, label: String }
struct AsTok<'a>(&'a dyn Ast);
impl ToTokens for AsTok<'_> { fn to_tokens(&self, ts: &mut TokenStream) { self.0.toks(ts) } }

type Srcs = Rc<RefCell<Vec<Option<Src>>>>;

/// the extents of the nodes of the tree the text stands for; None if it is not a sentence
fn expected(arena: &Arena, faults: &[LeafFault], text: &str) -> Option<(Vec<Option<(usize, usize)>>, Level, usize)> {
    let ts = TokenStream::from_str(text).ok()?;
    let level = lex_level(ts, None, &mut 0);
    if !sane(&level, text) { return None }
    let mut m = Model::new(arena, faults, 20_000);
    m.spans = Some(vec![]);
    let mo = m.parse(arena.rules[0], &level, 0).ok()?;
    if mo.poison.is_some() || mo.i < level.toks.len() { return None }
    let v = m.spans.unwrap().into_iter().map(|s| s.range).collect();
    Some((v, level, m.steps))
}
/// the offsets of the words in the text are where the words are
fn sane(l: &Level, text: &str) -> bool {
    l.toks.iter().all(|t| match &t.k {
        TK::Ident(s) => text.get(t.s..t.e) == Some(s),
        TK::Punct(c, _) => text.get(t.s..t.e) == Some(&c.to_string()[..]) || text[t.s..].starts_with("//") || text[t.s..].starts_with("/*"),
        TK::Lit(s) => text.get(t.s..t.e) == Some(s) || text[t.s..].starts_with("//") || text[t.s..].starts_with("/*"),
        TK::Group(_, g) => sane(g, text),
    })
}

fn location(text: &str, at: usize) -> (usize, usize, usize) {
    let head = &text[..at];
    let line = head.matches('\n').count() + 1;
    let col = head.rsplit('\n').next().unwrap().chars().count();
    (line, col, head.chars().count())
}
fn check_node(n: &dyn ToTokens, own: Option<Span>, want: Option<(usize, usize)>, text: &str) -> Result<(), String> {
    let br = n.byte_range(text);
    let cr = n.char_range(text);
    let Some((s, e)) = want else {
        if br.start != br.end || cr.start != cr.end { return Err(format!("a node without tokens has the byte range {br:?} and the char range {cr:?}")) }
        if !n.source_substring(text).is_empty() { return Err("a node without tokens has a substring".into()) }
        return Ok(());
    };
    let sub = &text[s..e];
    let ((l1, c1, o1), (l2, c2, o2)) = (location(text, s), location(text, e));
    if br != (s..e) { return Err(format!("byte range {br:?} instead of {:?} ({sub:?})", s..e)) }
    if cr != (o1..o2) { return Err(format!("char range {cr:?} instead of {:?} ({sub:?})", o1..o2)) }
    if n.source_substring(text) != sub { return Err(format!("substring {:?} instead of {sub:?}", n.source_substring(text))) }
    let want = format!("{l1}:{}..{l2}:{c2}", c1 + 1);
    if n.format_span().to_string() != want { return Err(format!("displayed as {} instead of {want} ({sub:?})", n.format_span())) }
    let sp = SpannedExt::span(n);
    for d in [SpanDisplay::new(sp), SpanDisplay::from(sp)] { if d.to_string() != want { return Err(format!("displayed as {d} instead of {want} ({sub:?})")) } }
    if let Some(sp) = own {
        let g = sp.byte_range();
        if g != (s..e) { return Err(format!("its own span() denotes bytes {g:?} instead of {:?} ({sub:?})", s..e)) }
    }
    Ok(())
}
impl Src {
    /// Ok(number of nodes checked)
    fn check(&self) -> Result<usize, String> {
        let mut k = 0;
        let mut r: Result<(), String> = Ok(());
        let next = |n: &dyn ToTokens, own: Option<Span>, k: &mut usize| -> Result<(), String> {
            let Some(w) = self.want.get(*k) else { return Err("has more nodes than its text stands for".into()) };
            *k += 1;
            check_node(n, own, *w, &self.text).map_err(|e| format!("node {} of the tree: {e}", *k - 1))
        };
        match &self.node {
            Kept::Typed(t, _) => {
                type Chain<'a> = (Vec<(&'a dyn ToTokens, usize, usize)>, Vec<usize>);
                let mut chains: Vec<Chain<'_>> = vec![];
                t.visit(&mut |v| {
                    if r.is_err() { return }
                    match v {
                        Vis::Node(n) => r = next(n, None, &mut k),
                        Vis::Leaf(n, s) => r = next(n, Some(s), &mut k),
                        Vis::Show(_) => {}
                        Vis::ChainStart => chains.push((vec![], vec![])),
                        Vis::Sub(n, i, j) => chains.last_mut().unwrap().0.push((n, i, j)),
                        Vis::Operand => chains.last_mut().unwrap().1.push(k),
                        Vis::ChainEnd => {
                            let (subs, ops) = chains.pop().unwrap();
                            for (n, i, j) in subs {
                                let w = match (self.want[ops[i]], self.want[ops[j]]) { (Some(a), Some(b)) => Some((a.0, b.1)), _ => continue };
                                r = check_node(n, None, w, &self.text).map_err(|e| format!("operands {i} to {j} of a chain: {e}"));
                                if r.is_err() { return }
                            }
                        }
                    }
                });
            }
            Kept::Dyn(a) => {
                fn go(a: &dyn Ast, next: &dyn Fn(&dyn ToTokens, Option<Span>, &mut usize) -> Result<(), String>, k: &mut usize) -> Result<(), String> {
                    next(&AsTok(a), None, k)?;
                    for x in a.kids().1 { go(x, next, k)? }
                    Ok(())
                }
                r = go(&**a, &next, &mut k);
            }
        }
        r?;
        if k != self.want.len() { return Err(format!("has {k} nodes, its text stands for {}", self.want.len())) }
        Ok(k)
    }
}

fn read(op: &SOp, srcs: &Srcs, bad: &Rc<RefCell<Option<String>>>, o: &Rc<RefCell<Out>>, depth: usize) {
    if bad.borrow().is_some() { return }
    let fail = |s: String| { let mut b = bad.borrow_mut(); if b.is_none() { *b = Some(s) } };
    match op {
        SOp::Typed { gram, text } => {
            let Some(g) = GRAMS.get(*gram) else { return };
            let t = realise(text);
            let gr = grammar(*gram);
            let arena = Arena::unchecked(&gr.rules, gr.zoo).unwrap();
            let want = expected(&arena, &[], &t);
            let r = catch_unwind(AssertUnwindSafe(|| (g.from_str)(&t)));
            o.borrow_mut().log(&format!("{t} {};", matches!(r, Ok(Ok(_)))));
            match (want, r) {
                (Some((want, _, _)), Ok(Ok(n))) => srcs.borrow_mut().push(Some(Src { label: format!("{} read from {:?}", g.name, t), text: t, want, node: Kept::Typed(n, *gram) })),
                _ => o.borrow_mut().fire("source_damaged", 1), // verdicts are C08's business
            }
        }
        SOp::Dyn { rules, text, nested } => {
            let t = realise(text);
            let (Some(arena), Some(arena2)) = (Arena::new(rules, ZOO), Arena::new(rules, ZOO)) else { return };
            let Some((want, level, steps)) = expected(&arena, &[], &t) else { let _ = TokenStream::from_str(&t); o.borrow_mut().fire("source_damaged", 1); return };
            let mut c = Ctx::new(arena2, &[], &level, steps * 30 + 3000);
            if !nested.is_empty() && depth < 3 {
                let (nested, srcs, bad, o) = (nested.clone(), srcs.clone(), bad.clone(), o.clone());
                c.hook = Some(Box::new(move |n| for (k, op) in &nested { if *k == n { o.borrow_mut().fire("read_inside_a_parse", 1); step(op, &srcs, &bad, &o, depth + 1) } }));
            }
            let g = enter(Rc::new(c));
            let (a, _) = run_a(&t);
            drop(g);
            if let Some(a) = a { if let Ok(Ok(root)) = a.res { srcs.borrow_mut().push(Some(Src { label: format!("{} read from {:?}", crate::parsesim::show_plan(rules, ""), t), text: t, want, node: Kept::Dyn(root.0) })) } }
        }
        SOp::Noise { n, text } => {
            let t = realise(text);
            for i in 0..*n { let _ = parsel::parse_str::<parsel::ast::Lit>(&format!("{}{t}", i)); }
            o.borrow_mut().fire("other_sources_read", *n as u64);
        }
        _ => fail("not a reading".into()),
    }
}
fn step(op: &SOp, srcs: &Srcs, bad: &Rc<RefCell<Option<String>>>, o: &Rc<RefCell<Out>>, depth: usize) {
    let pick = |k: usize| { let v = srcs.borrow(); let live: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_some()).collect(); if live.is_empty() { None } else { Some(live[k % live.len()]) } };
    match op {
        SOp::Check(k) => if let Some(i) = pick(*k) {
            let v = srcs.borrow();
            let s = v[i].as_ref().unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| s.check())).unwrap_or_else(|p| Err(format!("resolving its locations panicked: {}", panic_text(&*p))));
            match r {
                Ok(n) => { let mut o = o.borrow_mut(); o.probe("nodes_resolved", n as u64); o.steps += n as u64; if i + 1 < v.len() { o.probe("resolved_after_other_sources", 1) } if depth > 0 { o.probe("resolved_inside_a_parse", 1) } }
                Err(e) => { let mut b = bad.borrow_mut(); if b.is_none() { *b = Some(format!("source {i} of {} ({}): {e}", v.len(), s.label)) } }
            }
        },
        SOp::Clone(k) => if let Some(i) = pick(*k) {
            let c = {
                let v = srcs.borrow();
                let s = v[i].as_ref().unwrap();
                let node = match &s.node { Kept::Dyn(a) => Kept::Dyn(a.dup()), Kept::Typed(t, g) => Kept::Typed(t.dup(), *g) };
                Some(Src { text: s.text.clone(), want: s.want.clone(), node, label: format!("clone of {}", s.label) })
            };
            if let Some(c) = c { srcs.borrow_mut().push(Some(c)) }
        },
        SOp::Again(k) => if let Some(i) = pick(*k) {
            let c = {
                let v = srcs.borrow();
                let s = v[i].as_ref().unwrap();
                match &s.node {
                    Kept::Typed(t, g) => catch_unwind(AssertUnwindSafe(|| (GRAMS[*g].parse2)(t.toks()))).ok().and_then(|r| r.ok()).filter(|x| x.tree() == t.tree())
                        .map(|n| Src { text: s.text.clone(), want: s.want.clone(), node: Kept::Typed(n, *g), label: format!("the tokens printed for {}", s.label) }),
                    _ => None,
                }
            };
            if let Some(c) = c { o.borrow_mut().probe("printed_and_parsed_again", 1); srcs.borrow_mut().push(Some(c)) }
        },
        SOp::Drop(k) => if let Some(i) = pick(*k) { let s = srcs.borrow_mut()[i].take(); drop(s) },
        _ => read(op, srcs, bad, o, depth),
    }
}

pub fn exec(plan: &SpanPlan) -> Out {
    let o = Rc::new(RefCell::new(Out::default()));
    let srcs: Srcs = Rc::new(RefCell::new(vec![]));
    let bad = Rc::new(RefCell::new(None));
    for (k, op) in plan.ops.iter().enumerate() {
        step(op, &srcs, &bad, &o, 0);
        // one more that depends on nothing but the plan
        step(&SOp::Check(mix(k as u64) as usize % 97), &srcs, &bad, &o, 0);
    }
    let n = srcs.borrow().len();
    for i in 0..n {
        let live = srcs.borrow().iter().take(i + 1).filter(|s| s.is_some()).count();
        if srcs.borrow()[i].is_some() { step(&SOp::Check(live - 1), &srcs, &bad, &o, 0) }
    }
    let mut out = o.borrow().clone();
    out.nontrivial = n > 0;
    if let Some(b) = bad.borrow().clone() { out.bad("location", b) }
    out
}
