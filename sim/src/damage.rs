//! C08: sources of fixed typed grammars, damaged by characters and by tokens, against the reference grammar.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use parsel::proc_macro2::TokenStream;
use serde::{Deserialize, Serialize};
use crate::gen::*;
use crate::grams::*;
use crate::model::*;
use crate::out::*;
use crate::parsesim::canon_all;
use crate::rng::Rng;

/// a fault of the text: at character `at` (modulo the length)
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ed { Lose(usize), Dup(usize, usize), Swap(usize), Put(usize, String), Over(usize, String), Cut(usize), Move(usize, usize, usize) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DmgPlan { pub gram: usize, pub input: Vec<IT>, #[serde(default)] pub damaged: Vec<String>, #[serde(default)] pub edits: Vec<Ed> }

/// unusual spellings of literals and other tokens a grammar may or may not want
pub const WILD: &[&str] = &["0", "-0", "0x1F", "0xffff_ffff_ffff_ffff", "0b1010", "0o17", "1_000", "9223372036854775807", "9223372036854775808", "18446744073709551615",
    "18446744073709551616", "99999999999999999999999999999999999999999999", "1u8", "7i64", "3usize", "1f32", "2f64", "0.0", "1.", "1.5e3", "1E-7", "1e400", "1e308", "0.1_2", "5e-324",
    "1.7976931348623157e308", "123456789012345678901234567890.0", "1.0f64", "\"\"", "\"a\\n\\t\\\"q\\\\\"", "\"\\u{1F600}\u{20ac}\"", "r\"raw\\\"", "r#\"ra\"w\"#", "\"two\nlines\"", "\"cont\\\n   inued\"", "b\"\\x00\\xff\"", "br\"by\\\"",
    "b\"a\\\"\\\\\"", "b'\\x7f'", "b'\\''", "b'\\\\'", "b' '", "'\\''", "'\\u{20AC}'", "'\"'", "'\\\\'", "'\u{e9}'", "'\\0'", "c\"c\"", "true", "false", "r#fn", "r#alpha", "_", "alpha", "beta",
    "fn", "let", "self", "'life", "\u{e9}t\u{e9}", "Self", "return", "::", "->", "==", "&&", "||", "<-", "=>", "..", "...", "+=", "-", "- 5", "- 1.5", "- 9223372036854775808", "- 9223372036854775809", "#", "$", "?", "@", "~", "^", "%"];
const CHARS: &[&str] = &["(", ")", "[", "]", "{", "}", "\"", "'", "\\", "/", "*", "//", "/*", "*/", "-", "0", "9", "e", ".", "_", "r", "b", "#", "r#", ",", ";", ":", "::", "<", ">", "=", "!", "&", "|", "+",
    " ", "\n", "\r", "\t", "\0", "\u{e9}", "\u{20ac}", "\u{1F600}", "\u{a0}", "\u{feff}", "\u{200b}", "a", "alpha", "true", "fn", "1", "1.", "x\"", "b'", "///", "//!"];

fn wild(rng: &mut Rng) -> IT { if rng.chance(35) { tok(&rand_lit(rng)) } else { tok(*rng.pick(WILD)) } }
fn any_tok(rng: &mut Rng) -> IT { if rng.chance(50) { wild(rng) } else { random_tok(rng, 1) } }
fn respell(rng: &mut Rng, ts: &mut [IT], pct: u32) {
    for t in ts {
        if let Some(g) = &mut t.g { respell(rng, g, pct) }
        else if (t.t.starts_with(|c: char| c.is_ascii_digit()) || t.t.contains(['"', '\''])) && rng.chance(pct) {
            // same kind of literal most of the time
            let kind = std::mem::discriminant(&decode(&t.t));
            for _ in 0..40 { let w = if rng.chance(50) { rand_lit(rng) } else { rng.pick(WILD).to_string() }; if std::mem::discriminant(&decode(&w)) == kind || rng.chance(3) { t.t = w; break } }
            if matches!(decode(&t.t), LV::Int(_) | LV::Float(_)) && rng.chance(25) { t.t = format!("- {}", t.t) }
        }
    }
}

/// a sentence of GRAMS[gram]
pub fn make(rng: &mut Rng, gram: usize) -> Vec<IT> {
    let g = grammar(gram);
    let mut input = vec![];
    let tower = rng.chance(4);
    let depth = if tower { rng.range(6, 60) } else { rng.range(2, 6) };
    let mut sc = SC { hard: if tower { 600 } else { 4000 }, left: *rng.pick(&[6, 15, 40, 120]), long: if !tower && rng.chance(3) { *rng.pick(&[150, 300, 40]) } else { 0 }, zoo: g.zoo, tower };
    sentence(rng, &g.rules, &g.rules[0], &mut sc, depth, &mut input);
    let pct = *rng.pick(&[0, 30, 90]);
    respell(rng, &mut input, pct);
    let plain = rng.chance(30);
    relayout(rng, &mut input, plain);
    if rng.chance(1) { pad(rng, &mut input, 3) }
    input
}
pub fn generate(rng: &mut Rng) -> DmgPlan {
    let gram = rng.below(GRAMS.len());
    let mut input = make(rng, gram);
    let mut damaged = vec![];
    for _ in 0..rng.weighted(&[45, 30, 15, 7, 3]) {
        if let Some(n) = damage(rng, &mut input, &any_tok) { damaged.push(n.to_string()) }
    }
    let n = render(&input).chars().count() + 1;
    let edits = (0..rng.weighted(&[45, 30, 15, 7, 3])).map(|_| {
        let at = rng.below(n);
        match rng.weighted(&[25, 10, 10, 25, 20, 5, 5]) {
            0 => Ed::Lose(at), 1 => Ed::Dup(at, 1 + rng.below(6)), 2 => Ed::Swap(at), 3 => Ed::Put(at, rng.pick(CHARS).to_string()),
            4 => Ed::Over(at, rng.pick(CHARS).to_string()), 5 => Ed::Cut(at), _ => Ed::Move(at, 1 + rng.below(8), rng.below(n)),
        }
    }).collect();
    DmgPlan { gram, input, damaged, edits }
}
pub fn edit(s: &str, e: &Ed) -> (String, &'static str) {
    let mut c: Vec<char> = s.chars().collect();
    let n = c.len();
    let at = |i: usize| i % (n + 1);
    let name = match e {
        Ed::Lose(i) => { if at(*i) < n { c.remove(at(*i)); } "byte_lost" }
        Ed::Dup(i, k) => { let i = at(*i); let j = (i + k).min(n); let d: Vec<char> = c[i..j].to_vec(); c.splice(j..j, d); "byte_duplicated" }
        Ed::Swap(i) => { let i = at(*i); if i + 1 < n { c.swap(i, i + 1) } "byte_reordered" }
        Ed::Put(i, t) => { let i = at(*i); c.splice(i..i, t.chars()); "byte_inserted" }
        Ed::Over(i, t) => { let i = at(*i); let j = (i + 1).min(n); c.splice(i..j, t.chars()); "byte_replaced" }
        Ed::Cut(i) => { c.truncate(at(*i)); "text_cut_off" }
        Ed::Move(i, k, to) => { let i = at(*i); let j = (i + k).min(n); let d: Vec<char> = c.drain(i..j).collect(); let to = to % (c.len() + 1); c.splice(to..to, d); "bytes_moved" }
    };
    (c.into_iter().collect(), name)
}

fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> { catch_unwind(AssertUnwindSafe(f)).map_err(|p| panic_text(&*p)) }
fn cut(s: &str) -> String { if s.chars().count() > 600 { format!("{}...", s.chars().take(600).collect::<String>()) } else { s.to_string() } }

pub fn exec(plan: &DmgPlan) -> Out {
    let Some(gram) = GRAMS.get(plan.gram) else { return Out::skip() };
    let mut o = Out::default();
    for d in &plan.damaged { o.fire(d, 1) }
    let mut text = render(&plan.input);
    for e in &plan.edits { let (t, n) = edit(&text, e); text = t; o.fire(n, 1) }
    if text.len() > 20_000 { return Out::skip() }
    o.nontrivial = !text.is_empty();
    o.log(&text);
    let desc = || format!("{} on {:?}", gram.name, cut(&text));
    let entries: [(&str, Result<Res, String>); 2] = [("FromStr", call(|| (gram.from_str)(&text))), ("parse_str", call(|| (gram.parse_str)(&text)))];
    o.steps += 2;
    let lexed = match call(|| TokenStream::from_str(&text)) { Ok(r) => r.ok(), Err(_) => return Out::skip() };
    let Some(ts) = lexed else {
        o.probe("not_lexable", 1);
        for (n, r) in entries {
            match r {
                Err(p) => o.bad("panic", format!("{}: {n} panicked: {p}", desc())),
                Ok(Ok(t)) => o.bad("accepted", format!("{}: {n} accepts text that has no tokens, as {:?}", desc(), cut(&t.plain()))),
                Ok(Err(e)) => o.log(&e.to_string()),
            }
        }
        return o;
    };
    let g = grammar(plan.gram);
    let Some(arena) = Arena::unchecked(&g.rules, g.zoo) else { return Out::skip() };
    let level = lex_level(ts.clone(), None, &mut 0);
    let mut m = Model::new(&arena, &[], 200_000);
    let want = match m.parse(arena.rules[0], &level, 0) {
        Err(MFail::Budget | MFail::Panic) => return Out::skip(),
        Err(MFail::Err(_)) => None,
        Ok(mo) => if mo.poison.is_some() || mo.i < level.toks.len() { o.probe("leftover_rejected", 1); None } else { Some(mo.tree) },
    };
    // an integer zero has no sign: a grammar that tells `LitUint` from `LitInt` may read its print differently
    let signless_any = m.probes.keys().any(|k| k.starts_with("signed_zero"));
    let signless = m.probes.contains_key("signed_zero_int");
    for (k, n) in m.probes { o.probe(k, n) }
    o.steps += m.steps as u64;
    let damaged = !plan.damaged.is_empty() || !plan.edits.is_empty();
    o.probe(match (&want, damaged) { (Some(_), true) => "damaged_yet_sentence", (Some(_), false) => "intact_sentence", (None, true) => "damaged_rejected", _ => "not_a_sentence" }, 1);
    let all = entries.into_iter().chain([
        ("parse2", call(|| (gram.parse2)(ts.clone()))),
        ("try_parse_quote!", call(|| (gram.quoted)(ts.clone()))),
        ("try_parse_quote_spanned!", call(|| (gram.spanned)(ts.clone()))),
    ]);
    let mut first: Option<Box<dyn Tr>> = None;
    for (n, r) in all {
        o.steps += 1;
        match (r, &want) {
            (Err(p), _) => return { o.bad("panic", format!("{}: {n} panicked: {p}", desc())); o },
            (Ok(Ok(t)), None) => return { o.bad("accepted", format!("{}: {n} accepts it, as {:?}, although it is no sentence of the grammar", desc(), cut(&t.plain()))); o },
            (Ok(Err(e)), Some(_)) => return { o.bad("rejected", format!("{}: {n} rejects a sentence of the grammar: {e}", desc())); o },
            (Ok(Err(e)), None) => o.log(&e.to_string()),
            (Ok(Ok(t)), Some(w)) => {
                let got = match call(|| t.tree()) { Ok(t) => t, Err(p) => { o.bad("panic", format!("{}: printing the tree panicked: {p}", desc())); return o } };
                if got != *w { return { o.bad("tree", format!("{}: {n} reads it as {} instead of {}", desc(), cut(&format!("{got:?}")), cut(&format!("{w:?}")))); o } }
                match &first { None => first = Some(t), Some(f) => if !f.same(&*t) { return { o.bad("tree", format!("{}: {n} gives a tree that differs from FromStr's", desc())); o } } }
            }
        }
    }
    let (Some(tree), Some(w)) = (first, want) else { return o };
    let mut want = vec![];
    w.flat(&mut want);
    let want = canon_all(want);
    // the damaged text itself, up to the spelling of literals
    let mut src = vec![];
    stream_texts(ts, &mut src);
    let src = canon_all(src);
    if !signless_any && src != want { o.probe("model_fault", 1); return o } // the model, not the code
    let printed = match call(|| (tree.toks(), tree.plain(), tree.alt(), { let mut s = String::new(); tree.pretty(&mut s).map(|_| s) })) {
        Ok((t, a, b, Ok(c))) => (t, [("{}", a), ("{:#}", b), ("format_ast_node_pretty", c)]),
        Ok(_) => { o.bad("print", format!("{}: formatting into a String reports an error", desc())); return o }
        Err(p) => { o.bad("panic", format!("{}: printing the tree panicked: {p}", desc())); return o }
    };
    let mut got = vec![];
    stream_texts(printed.0.clone(), &mut got);
    let got = canon_all(got);
    if got != want { o.bad("print", format!("{}: prints tokens {} instead of {}", desc(), cut(&got.join(" ")), cut(&want.join(" ")))); return o }
    if !signless { match call(|| (gram.parse2)(printed.0)) {
        Err(p) => o.bad("panic", format!("{}: parsing its tokens again panicked: {p}", desc())),
        Ok(Err(e)) => o.bad("reparse", format!("{}: its tokens {:?} do not parse again: {e}", desc(), cut(&printed.1[0].1))),
        Ok(Ok(t)) => if !t.same(&*tree) || t.tree() != w { o.bad("reparse", format!("{}: its tokens {:?} parse as another tree", desc(), cut(&printed.1[0].1))) },
    } }
    for (n, s) in &printed.1 {
        o.log(s);
        let mut got = vec![];
        match TokenStream::from_str(s) { Ok(t) => stream_texts(t, &mut got), Err(_) => { o.bad("print", format!("{}: printed with {n}, {:?} has no tokens", desc(), cut(s))); return o } }
        let got = canon_all(got);
        if got != want { o.bad("print", format!("{}: printed with {n}, it is {:?}, which does not have the tokens {}", desc(), cut(s), cut(&want.join(" ")))); return o }
        if !signless { match call(|| (gram.from_str)(s)) {
            Err(p) => o.bad("panic", format!("{}: parsing {:?} panicked: {p}", desc(), cut(s))),
            Ok(Err(e)) => o.bad("reparse", format!("{}: printed with {n}, {:?} does not parse again: {e}", desc(), cut(s))),
            Ok(Ok(t)) => if !t.same(&*tree) || t.tree() != w { o.bad("reparse", format!("{}: printed with {n}, {:?} parses as another tree", desc(), cut(s))) },
        } }
    }
    o
}
