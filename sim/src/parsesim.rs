//! C01-C07, C16: random programs, damaged inputs and faulty sub-parsers, run by the real library under the
//! simulator and compared with the PEG model.
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::str::FromStr;
use parsel::proc_macro2::TokenStream;
use parsel::syn::parse::{ParseStream, Parser};
use parsel::{Parse, ToTokens};
use serde::{Deserialize, Serialize};
use crate::dynast::*;
use crate::gen::*;
use crate::model::*;
use crate::out::*;
use crate::rng::Rng;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ParsePlan {
    pub rules: Vec<GN>,
    pub input: Vec<IT>,
    #[serde(default)] pub faults: Vec<LeafFault>,
    /// names of the token faults the input was damaged by (informational)
    #[serde(default)] pub damaged: Vec<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")] pub big: Option<crate::bigsim::Big>,
}

fn weights(prop: &str) -> (W, Want) {
    let base = W { sim: 30, real: 6, either: 6, maybe: 6, any: 4, sep: 4, punct: 2, many: 2, assoc: 3, delim: 8, zs: 10, ze: 6, marks: 2 };
    match prop {
        "C01" => (W { zs: 30, ze: 10, ..base }, Want::Seq),
        "C02" => (W { either: 16, ze: 18, zs: 14, ..base }, Want::Alt),
        "C03" => (W { either: 16, ze: 18, zs: 16, real: 0, ..base }, Want::Alt),
        "C04" => (W { maybe: 24, zs: 12, ..base }, Want::Maybe),
        "C05" => (W { any: 12, sep: 12, punct: 8, many: 6, zs: 12, ..base }, Want::Rep),
        "C06" => (W { assoc: 16, zs: 10, ..base }, Want::Assoc),
        "C07" => (W { delim: 26, marks: 12, zs: 14, ..base }, Want::Delim),
        "C16" => (W { zs: 26, ze: 20, delim: 10, real: 10, ..base }, Want::Seq),
        _ => (base, Want::Free),
    }
}

pub fn gen_grammar(rng: &mut Rng, prop: &str) -> (Vec<GN>, GC) {
    let (w, want) = weights(prop);
    // swarm: switch some of the optional kinds off in this run
    let mut ww = w.clone();
    for x in [&mut ww.maybe, &mut ww.any, &mut ww.sep, &mut ww.punct, &mut ww.many, &mut ww.assoc, &mut ww.either, &mut ww.ze, &mut ww.zs, &mut ww.real, &mut ww.marks] {
        if rng.chance(25) { *x /= 6 }
    }
    let nrules = if rng.chance(25) { 2 } else { 1 };
    let mut c = GC { next: 0, rules: nrules, w: ww, budget: *rng.pick(&[8, 14, 22, 34]) };
    let depth = rng.range(2, 4);
    let rules = (0..nrules).map(|i| {
        c.budget = c.budget.max(6);
        let want = if i > 0 || rng.chance(15) { Want::Free } else { want };
        let want = if prop == "C07" && i == 0 && want != Want::Free && rng.chance(20) { Want::Seq } else if prop == "C16" && want == Want::Seq && rng.chance(40) { Want::Alt } else { want };
        gen_g(rng, &mut c, depth, false, want)
    }).collect();
    (rules, c)
}

pub fn generate(rng: &mut Rng, prop: &str) -> ParsePlan {
    if matches!(prop, "C05" | "C06") && rng.below(3000) == 0 { return ParsePlan { rules: vec![], input: vec![], faults: vec![], damaged: vec![], big: Some(crate::bigsim::generate(rng, prop)) } }
    let (rules, _) = gen_grammar(rng, prop);
    let mut input = vec![];
    let long = match prop { "C05" | "C06" if rng.chance(6) => *rng.pick(&[70, 70, 150, 150, 400, 400, 900, 1300]), "C05" | "C06" => 0, _ => if rng.chance(1) { 80 } else { 0 } };
    let tower = rng.chance(5);
    let mut s = SC { hard: if tower { if rng.chance(10) { 1500 } else { 300 } } else { 4000 }, left: *rng.pick(&[10, 25, 60]), long, zoo: ZOO, tower };
    let depth = if s.hard == 1500 { 300 } else if tower { 40 } else { 3 };
    sentence(rng, &rules, &rules[0], &mut s, depth, &mut input);
    let mut damaged = vec![];
    let nd = rng.weighted(&[42, 30, 18, 10]);
    for _ in 0..nd { if let Some(n) = damage(rng, &mut input, &|r| random_tok(r, 1)) { damaged.push(n.to_string()) } }
    let plain = rng.chance(50);
    relayout(rng, &mut input, plain);
    if rng.chance(3) { let huge = if prop == "C03" { 10 } else { 4 }; pad(rng, &mut input, huge) }
    let mut plan = ParsePlan { rules, input, faults: vec![], damaged, big: None };
    // place leaf faults where leaves are really attempted
    let nf = rng.weighted(&[45, 30, 15, 10]);
    if nf > 0 {
        let text = render(&plan.input);
        if let (Ok(ts), Some(a)) = (TokenStream::from_str(&text), Arena::new(&plan.rules, ZOO)) {
            let level = lex_level(ts, None, &mut 0);
            let mut starts = HashMap::new();
            ords(&level, &mut starts);
            for _ in 0..nf {
                // each fault is placed given the previous ones, so that later faults hit the code paths opened by earlier ones
                let mut m = Model::new(&a, &plan.faults, 20_000);
                let _ = m.parse(a.rules[0], &level, 0);
                let mut c: Vec<(u32, usize, usize)> = m.attempts.keys().filter_map(|(n, p)| match &a.n[*n].k {
                    K::Sim { id, pat } => starts.get(p).map(|o| (*id, *o, pat.len())),
                    _ => None,
                }).collect();
                c.sort();
                c.dedup();
                if c.is_empty() { break }
                let (leaf, tok, len) = *rng.pick(&c);
                let panics = matches!(prop, "C01" | "C02" | "C04" | "C05" | "C06" | "C07");
                let f = match rng.weighted(&[55, 15, 15, if panics { 6 } else { 0 }, 15]) { 0 => FK::FailAfter(rng.below(len + 1)), 1 => FK::Reject, 2 => FK::OverConsume, 3 => FK::Panic, _ => FK::RejectWide };
                plan.faults.retain(|x| (x.leaf, x.tok) != (leaf, tok));
                plan.faults.push(LeafFault { leaf, tok, f });
            }
        }
    }
    plan
}
pub fn ords(l: &Level, m: &mut HashMap<usize, usize>) {
    for t in &l.toks { m.insert(t.s, t.ord); if let TK::Group(_, g) = &t.k { ords(g, m) } }
}

pub struct RunA { pub res: Result<parsel::Result<Root>, String>, pub before: usize, pub after: usize }

/// Runs the root production once on `text`, observing the stream position; the outer verdict includes syn's own
/// check for tokens left over inside groups.
pub fn run_a(text: &str) -> (Option<RunA>, Result<parsel::Result<()>, String>) {
    let cell: RefCell<Option<RunA>> = RefCell::new(None);
    let outer = catch_unwind(AssertUnwindSafe(|| {
        Parser::parse_str(|input: ParseStream<'_>| {
            let before = pos(input);
            let res = catch_unwind(AssertUnwindSafe(|| Root::parse(input))).map_err(|p| panic_text(&*p));
            let after = pos(input);
            let _rest: TokenStream = input.parse()?;
            *cell.borrow_mut() = Some(RunA { res, before, after });
            Ok(())
        }, text)
    })).map_err(|p| panic_text(&*p));
    (cell.into_inner(), outer)
}

pub fn canon_all(v: Vec<String>) -> Vec<String> {
    v.iter().flat_map(|s| match s.strip_prefix('-') { Some(r) if !r.is_empty() => vec!["-".to_string(), canon(r)], _ => vec![canon(s)] }).collect()
}

pub fn show_plan(rules: &[GN], text: &str) -> String {
    let g: Vec<String> = rules.iter().map(show_g).collect();
    format!("grammar [{}] on input {:?}", g.join(" ; "), text)
}
pub fn show_g(g: &GN) -> String {
    let head = match &g.g {
        K::Sim { id, pat } => return format!("leaf{}{:?}", id, pat),
        K::Zoo(z) => ZOO[*z].name.to_string(),
        K::Ref(r) => return format!("@{r}"),
        k => format!("{k:?}"),
    };
    if g.kids.is_empty() { head } else { format!("{}<{}>", head, g.kids.iter().map(show_g).collect::<Vec<_>>().join(", ")) }
}
fn short<T: std::fmt::Debug>(t: &T) -> String { let s = format!("{t:?}"); if s.len() > 400 { format!("{}...", s.chars().take(400).collect::<String>()) } else { s } }

/// position of the next occurrence of `w` as a whole word
fn find_word(hay: &str, from: usize, w: &str) -> Option<usize> {
    let ok = |c: Option<char>| c.map_or(true, |c| !(c.is_alphanumeric() || c == '_' || c == '#'));
    let mut at = from;
    while let Some(i) = hay[at..].find(w) {
        let s = at + i;
        let e = s + w.len();
        if ok(hay[..s].chars().last()) && ok(hay[e..].chars().next()) { return Some(e) }
        at = s + w.chars().next().unwrap().len_utf8();
    }
    None
}

thread_local! { static ZOO_NAMES: std::collections::HashSet<&'static str> = ZOO.iter().map(|m| m.name).collect(); }
pub fn chain_ok(msg: &str, chain: &[(usize, usize, usize)], cause: &str) -> bool {
    // outermost first
    let Some(head) = msg.strip_suffix(cause) else { return false };
    let (mut at, mut expect) = (0, 0);
    for (z, v, f) in chain.iter().rev() {
        let m = &ZOO[*z];
        let var = &m.variants[*v];
        let field = var.fields[*f].0;
        let names = if m.is_enum { vec![m.name, var.name, field] } else { vec![m.name, field] };
        for n in names {
            // a raw name counts with and without its prefix
            let Some(e) = [Some(n), n.strip_prefix("r#")].into_iter().flatten().filter_map(|n| find_word(head, at, n)).min() else { return false };
            at = e;
            if ZOO_NAMES.with(|z| z.contains(n)) { expect += 1 }
        }
    }
    // no other production is named
    let named: usize = ZOO.iter().map(|m| { let (mut n, mut at) = (0, 0); while let Some(e) = find_word(head, at, m.name) { n += 1; at = e } n }).sum();
    named == expect
}

fn marks() -> Result<(), String> {
    macro_rules! each { ($($t:ident: $at_end:expr;)*) => {$( for x in [$t::new(), $t, $t::default(), $t.clone()] {
        if !format!("{x}{x:#}").is_empty() { return Err(format!("{} prints {x:?} {x:#}", stringify!($t))) }
        let mut ts = TokenStream::from_str("a ,").unwrap();
        x.to_tokens(&mut ts);
        if ts.to_string() != "a ," || !x.to_token_stream().is_empty() { return Err(format!("{} prints tokens: {ts}", stringify!($t))) }
        for (text, want) in [("", $at_end), (" // c", $at_end), ("\n", $at_end), ("x", false), ("()", false), (",", false), ("1 2", false)] {
            if text.parse::<$t>().is_ok() != want || parsel::parse_str::<$t>(text).is_ok() != want { return Err(format!("{} is read from {text:?}: {:?} instead of {want}", stringify!($t), text.parse::<$t>().is_ok())) }
        }
        for (text, want) in [("()", $at_end), ("( /* c */ )", $at_end), ("(x)", false), ("(())", false)] {
            if parsel::parse_str::<parsel::ast::Paren<$t>>(text).is_ok() != want { return Err(format!("{} inside a group, in {text:?}, gives {} instead of {want}", stringify!($t), !want)) }
        }
    } )*} }
    use parsel::ast::{Empty, Eof, NotEof};
    each! { Empty: true; Eof: true; NotEof: false; }
    Ok(())
}

pub fn exec(plan: &ParsePlan, prop: &str) -> Out {
    if let Some(b) = &plan.big { let mut o = Out::default(); crate::bigsim::exec(b, &mut o); return o }
    let text = render(&plan.input);
    let Some(arena) = Arena::new(&plan.rules, ZOO) else { return Out::skip() };
    let Ok(ts) = TokenStream::from_str(&text) else { return Out::skip() };
    let level = lex_level(ts, None, &mut 0);
    let mut o = Out::default();
    let mut m = Model::new(&arena, &plan.faults, if count(&plan.input) > 300 { 30_000 } else { 6_000 });
    let mr = m.parse(arena.rules[0], &level, 0);
    if matches!(mr, Err(MFail::Budget)) { return Out::skip() }
    let Model { attempts, steps, probes, .. } = m;
    let root_alt = match &plan.rules[0].g { K::Either => true, K::Zoo(z) => ZOO[*z].is_enum, _ => false };
    for (k, n) in probes { o.probe(k, n) }
    for d in &plan.damaged { o.fire(d, 1) }

    let root = arena.rules[0];
    let _ = root;
    let ctx = Rc::new(Ctx::new(arena, &plan.faults, &level, steps * 30 + 3000));
    let g = enter(ctx.clone());
    let (a, outer) = run_a(&text);
    drop(g);
    let desc = || format!("{}{}", show_plan(&plan.rules, &text), if plan.faults.is_empty() { String::new() } else { format!(" with leaf faults {:?}", plan.faults) });
    for (k, n) in ctx.fired.borrow().iter() { o.fire(k, *n) }
    o.steps = ctx.steps.get() as u64;
    {
        let log = ctx.log.borrow();
        for e in log.iter() { o.log(&format!("{} {} {:?};", e.node, e.start, e.end)) }
        o.nontrivial = log.len() >= 6 || !o.fired.is_empty();
    }
    let Some(a) = a else {
        o.bad("panic", format!("{}: parsing did not come back: {:?}", desc(), outer.map(|_| ())));
        return o;
    };
    match &a.res {
        Ok(Ok(_)) => o.log(&format!("ok {}", a.after)),
        Ok(Err(e)) => o.log(&format!("err {:?} {}", brange(e.span()), e)),
        Err(p) => o.log(&format!("panic {p}")),
    }
    let strict_err = matches!(prop, "C03" | "C16");
    match (&mr, &a.res) {
        (Err(MFail::Panic), Err(p)) => {
            if p != SIM_PANIC { o.bad("panic", format!("{}: panicked with {p:?} instead of passing on the sub-parser's panic", desc())) }
            if root_alt && a.after != a.before { o.bad("rollback", format!("{}: aborted alternation moved the stream from {} to {}", desc(), a.before, a.after)) }
            o.probe("panic_unwound", 1);
        }
        (Err(MFail::Panic), Ok(_)) => o.bad("panic_swallowed", format!("{}: a sub-parser panicked but the parse returned", desc())),
        (_, Err(p)) if p == RUNAWAY => o.bad("runaway", format!("{}: sub-parsers attempted more than {} times (model: {})", desc(), ctx.budget, steps)),
        (_, Err(p)) => o.bad("panic", format!("{}: panicked: {p}", desc())),
        (Ok(mo), Ok(Ok(root))) => {
            o.probe("accepted", 1);
            let t = root.0.tree();
            if t != mo.tree { o.bad("tree", format!("{}: got tree {} instead of {}", desc(), short(&t), short(&mo.tree))) }
            let end = pos_at(&level, mo.i);
            if a.after != end { o.bad("position", format!("{}: stream left at byte {} instead of {}", desc(), a.after as isize, end as isize)) }
            match (&outer, mo.poison) {
                (Ok(Ok(())), Some(p)) => o.bad("leftover", format!("{}: tokens left over inside a group at byte {p} were ignored", desc())),
                (Ok(Err(e)), None) => o.bad("leftover", format!("{}: rejected for leftover tokens although there are none: {e}", desc())),
                _ => {}
            }
            let mut got = vec![];
            stream_texts(root.to_token_stream(), &mut got);
            let mut want = vec![];
            mo.tree.flat(&mut want);
            let (got, want) = (canon_all(got), canon_all(want));
            // printing adds to what is there already, and can be done again
            if got == want && prop == "C01" {
                for before in ["a , ( b ; )", "+ [", "0 -", "r#fn ,"].iter().filter_map(|p| TokenStream::from_str(p).ok()) {
                    let mut ts = before.clone();
                    ToTokens::to_tokens(root, &mut ts);
                    ToTokens::to_tokens(root, &mut ts);
                    let (mut all, mut w) = (vec![], vec![]);
                    stream_texts(ts, &mut all);
                    stream_texts(before, &mut w);
                    let n = w.len();
                    let all: Vec<String> = all[..n.min(all.len())].iter().cloned().chain(canon_all(all[n.min(all.len())..].to_vec())).collect();
                    w.extend(canon_all({ let mut v = vec![]; mo.tree.flat(&mut v); mo.tree.flat(&mut v); v }));
                    if all != w { o.bad("print_appends", format!("{}: printed twice after other tokens, gives {} instead of {}", desc(), short(&all), short(&w))); break }
                }
            }
            if got != want { o.bad("print", format!("{}: prints {} instead of {}", desc(), short(&got), short(&want))) }
        }
        (Ok(_), Ok(Err(e))) => o.bad("rejected", format!("{}: a sentence of the grammar was rejected: {e}", desc())),
        (Err(MFail::Err(_)), Ok(Ok(r))) => o.bad("accepted", format!("{}: accepted as {} although no production matches", desc(), short(&r.0.tree()))),
        (Err(MFail::Err(set)), Ok(Err(e))) => {
            o.probe("rejected", 1);
            if root_alt && a.after != a.before { o.bad("rollback", format!("{}: failed alternation moved the stream from {} to {}", desc(), a.before, a.after as isize)) }
            let br = brange(e.span());
            let msg = e.to_string();
            let errs = ctx.errs.borrow();
            let at: Vec<&MErr> = set.iter().filter(|m| if m.eof { br == (0, 0) } else { br == m.span }).collect();
            if set.len() > 1 { o.probe("error_tie", 1) }
            if set.iter().any(|m| m.eof) { o.probe("error_at_eof", 1) }
            if set.iter().any(|m| m.chain.len() > 2) { o.probe("deep_chain", 1) }
            let via_alt = set.iter().any(|m| m.alt);
            if strict_err || !via_alt {
                if at.is_empty() {
                    o.bad("error_location", format!("{}: error {:?} located at bytes {:?}, expected one of {:?}", desc(), msg, br, set.iter().map(|m| if m.eof { "end of input".to_string() } else { format!("{:?}", m.span) }).collect::<Vec<_>>()));
                } else {
                    let causes = |m: &MErr| errs.get(&m.origin).cloned().unwrap_or_default();
                    if !at.iter().any(|m| causes(m).iter().any(|c| msg.ends_with(c.as_str()))) {
                        o.bad("error_cause", format!("{}: error {:?} does not end with the innermost message {:?}", desc(), msg, at.iter().map(|m| causes(m)).collect::<Vec<_>>()));
                    } else if prop == "C16" && !at.iter().any(|m| causes(m).iter().any(|c| chain_ok(&msg, &m.chain, c))) {
                        o.bad("error_chain", format!("{}: error {:?} does not name the productions {:?}", desc(), msg, at.iter().map(|m| m.chain.iter().rev().map(|(z, v, f)| format!("{}::{}::{}", ZOO[*z].name, ZOO[*z].variants[*v].name, ZOO[*z].variants[*v].fields[*f].0)).collect::<Vec<_>>()).collect::<Vec<_>>()));
                    }
                }
            }
        }
        (Err(MFail::Budget), _) => unreachable!(),
    }
    // the markers print nothing in any form
    if prop == "C07" && o.viol.is_none() && (text.len() < 3 || text.len() % 16 == 5) { if let Err(e) = marks() { o.bad("marker", e) } }
    // fields are attempted only where the fields before them have been parsed
    if prop == "C01" {
        let log = ctx.log.borrow();
        for e in log.iter() {
            if e.parent == u32::MAX { continue }
            if let K::Zoo(_) = ctx.arena.n[log[e.parent as usize].node as usize].k {
                if !attempts.contains_key(&(e.node as usize, e.start)) {
                    o.bad("attempt", format!("{}: a field (node {}) was parsed at byte {} although a field before it had failed or ended elsewhere", desc(), e.node, e.start as isize));
                }
            }
        }
    }
    if prop == "C06" {
        let log = ctx.log.borrow();
        let mut per: HashMap<(u32, u32), Vec<usize>> = HashMap::new();
        let mut tries: HashMap<(u32, u32, usize), usize> = HashMap::new();
        let mut all: HashMap<(u32, usize), usize> = HashMap::new();
        for e in log.iter() {
            if e.parent == u32::MAX { continue }
            let p = log[e.parent as usize].node as usize;
            if !matches!(ctx.arena.n[p].k, K::LA | K::RA) { continue }
            per.entry((e.parent, e.node)).or_default().push(e.addr);
            *tries.entry((e.parent, e.node, e.start)).or_insert(0) += 1;
            *all.entry((e.node, e.start)).or_insert(0) += 1;
        }
        // chains within chains must not multiply their attempts
        let mut all: Vec<_> = all.into_iter().map(|(k, n)| (n / attempts.get(&(k.0 as usize, k.1)).copied().unwrap_or(1), n, k)).collect();
        all.sort();
        if let Some((r, n, (node, p))) = all.last() { if *r > 4 { o.bad("attempts", format!("{}: sub-parser {node} was run {n} times at byte {p}, {r} times as often as needed", desc())) } }
        let mut v: Vec<_> = per.into_iter().collect();
        v.sort();
        for ((_, n), at) in v {
            let c = at.len();
            if c < 100 { continue }
            o.probe("chain_of_100_or_more", 1);
            // the stack grows downwards: the deepest of the first half and the deepest of the last quarter
            let (early, late) = (at[..c / 2].iter().min().unwrap(), at[c - c / 4..].iter().min().unwrap());
            if late + 512 < *early { o.bad("depth", format!("{}: the call depth of sub-parser {n} grows with its index in the chain (the last quarter of {c} calls runs {} bytes deeper than the first half)", desc(), early - late)) }
        }
        let mut worst: Vec<_> = tries.into_iter().map(|(k, n)| (n, k)).collect();
        worst.sort();
        if let Some((n, (_, node, p))) = worst.last() { if *n > 4 { o.bad("attempts", format!("{}: sub-parser {node} was run {n} times at byte {p}", desc())) } }
    }
    // the entry point users call: FromStr of the root type
    let want = match &mr { Ok(mo) => Some(mo.poison.is_none() && mo.i == level.toks.len()), Err(MFail::Err(_)) => Some(false), _ => None };
    if let (Some(want), None) = (want, &o.viol) {
        let Some(arena) = Arena::new(&plan.rules, ZOO) else { return o };
        let c2 = Rc::new(Ctx::new(arena, &plan.faults, &level, steps * 30 + 3000));
        let g = enter(c2.clone());
        let r = catch_unwind(AssertUnwindSafe(|| root_from_str(&c2, &text).unwrap()));
        drop(g);
        if !want && matches!(mr, Ok(_)) { o.probe("leftover_rejected", 1) }
        match r {
            Err(p) => o.bad("panic", format!("{}: FromStr panicked: {}", desc(), panic_text(&*p))),
            Ok(Ok(t)) => if !want { o.bad("leftover", format!("{}: FromStr accepted input with tokens left over, as {}", desc(), short(&t.tree()))) }
                else if let Ok(mo) = &mr { if t.tree() != mo.tree { o.bad("entry", format!("{}: FromStr gives another tree", desc())) } },
            Ok(Err(e)) => {
                if want { o.bad("entry", format!("{}: FromStr rejected a sentence of the grammar: {e}", desc())) }
                o.log(&e.to_string());
                if let (Err(_), Ok(Err(e1))) = (&mr, &a.res) {
                    if e1.to_string() != e.to_string() && strict_err { o.bad("entry", format!("{}: FromStr reports {:?}, Parse reports {:?}", desc(), e.to_string(), e1.to_string())) }
                }
            }
        }
    }
    o
}
