//! C09, C10: histories of formatting operations into a simulated output sink that fails, recovers or panics.
use std::cell::RefCell;
use std::fmt::{self, Display, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::str::FromStr;
use parsel::proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, TokenStream, TokenTree};
use parsel::util::*;
use parsel::{Span, ToTokens};
use serde::{Deserialize, Serialize};
use crate::dynast::*;
use crate::gen::*;
use crate::damage::make;
use crate::grams::*;
use crate::model::*;
use crate::out::*;
use crate::parsesim::{canon_all, gen_grammar};
use crate::rng::Rng;

// ---------------------------------------------------------------- documents
/// one token of a document; `j`: joint to the next punctuation; `g`: contents of a group ("(", "[", "{" or "~")
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DT { pub t: String, #[serde(default)] pub j: bool, #[serde(default, skip_serializing_if = "Option::is_none")] pub g: Option<Vec<DT>> }

const WORDS: &[&str] = &["a", "foo", "r#type", "x1", "fn", "_", "true", "self", "r#match", "\u{e4}b"];
const LITS: &[&str] = &["1", "0xFFu8", "2.50", "1e3", "-5", "-2.5", "\"s\"", "\"two\\nlines\"", "\"real\nnewline\"", "r#\"raw \" \n  x\"#", "b\"by\\x00te\"", "b'q'",
    "'c'", "'\\''", "'\u{20ac}'", "br\"a\nb\"", "c\"cs\"", "r\"\"", "\"{}\"", "\"( [ , ;\"", "' '", "\"a\\\n   b\"", "9223372036854775808", "1_000i64", "\"\\\"\\\\\""];
const OPS: &[&str] = &["+", "-", "*", "/", "=", "<", ">", ",", ";", "&", "|", "!", ":", "#", "$", "?", "@", "^", "%", "~", ".", ",", ";", ","];

pub fn gen_doc(rng: &mut Rng, depth: usize, left: &mut i32) -> Vec<DT> {
    let n = rng.weighted(&[10, 18, 20, 16, 10, 8, 6, 4, 3, 2]);
    let mut v: Vec<DT> = vec![];
    for _ in 0..n {
        if *left <= 0 { break }
        *left -= 1;
        match rng.weighted(&[26, 18, 30, 4, if depth > 0 { 24 } else { 0 }]) {
            1 if rng.chance(30) => v.push(DT { t: rand_lit(rng), j: false, g: None }),
            0 if rng.chance(2) => v.push(DT { t: crate::gen::long_word(rng), j: false, g: None }),
            0 => v.push(DT { t: rng.pick(WORDS).to_string(), j: false, g: None }),
            1 => v.push(DT { t: rng.pick(LITS).to_string(), j: false, g: None }),
            2 => v.push(DT { t: rng.pick(OPS).to_string(), j: rng.chance(45), g: None }),
            3 => { v.push(DT { t: "'".into(), j: true, g: None }); v.push(DT { t: rng.pick(&["a", "static", "b2"]).to_string(), j: false, g: None }) }
            _ => { let d = *rng.pick(&["(", "[", "{", "~", "(", "{"]); let g = gen_doc(rng, depth - 1, left); v.push(DT { t: d.into(), j: false, g: Some(g) }) }
        }
    }
    v
}
/// groups in groups
fn gen_tower(rng: &mut Rng, depth: usize) -> Vec<DT> {
    let some = |rng: &mut Rng| { let mut left = 3; if rng.chance(25) { gen_doc(rng, 1, &mut left) } else { vec![] } };
    let mut v = some(rng);
    for _ in 0..depth {
        let mut w = some(rng);
        w.push(DT { t: rng.pick(&["(", "[", "{", "{", "("]).to_string(), j: false, g: Some(v) });
        w.extend(some(rng));
        v = w;
    }
    v
}
fn is_long_word(t: &str) -> bool { t.starts_with("lw_") && t.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') }
fn is_group(d: &DT) -> bool { d.g.is_some() }
fn is_punct(d: &DT) -> bool { d.g.is_none() && d.t.chars().count() == 1 && d.t.chars().all(|c| OPS.iter().any(|o| o.starts_with(c)) || c == '\'') }
/// is this token joint, given what follows?
fn joint(v: &[DT], i: usize) -> bool {
    if v[i].t == "'" { return true }
    // the last of its stream may be joint to what the stream is put in front of
    let Some(n) = v.get(i + 1) else { return v[i].j };
    if n.t == "~" && n.g.is_some() { return false }
    v[i].j && (is_punct(n) || is_group(n) || WORDS.contains(&&n.t[..])) && !(v[i].t == "/" && (n.t == "/" || n.t == "*")) && n.t != "'"
}
pub fn build(v: &[DT]) -> Option<TokenStream> {
    let mut out = vec![];
    for (i, d) in v.iter().enumerate() {
        let tt: TokenTree = if let Some(g) = &d.g {
            let dl = match d.t.as_str() { "(" => Delimiter::Parenthesis, "[" => Delimiter::Bracket, "{" => Delimiter::Brace, _ => Delimiter::None };
            Group::new(dl, build(g)?).into()
        } else if is_punct(d) {
            if d.t == "'" && !v.get(i + 1).is_some_and(|n| n.g.is_none() && n.t.chars().all(|c| c.is_ascii_alphanumeric()) && n.t.starts_with(|c: char| c.is_ascii_lowercase())) { return None }
            Punct::new(d.t.chars().next()?, if joint(v, i) { Spacing::Joint } else { Spacing::Alone }).into()
        } else if let Some(r) = d.t.strip_prefix("r#").filter(|r| r.chars().all(char::is_alphanumeric)) {
            if !["type", "match"].contains(&r) { return None }
            Ident::new_raw(r, Span::call_site()).into()
        } else if is_long_word(&d.t) || WORDS.contains(&d.t.as_str()) || ["a", "static", "b2"].contains(&d.t.as_str()) {
            Ident::new(&d.t, Span::call_site()).into()
        } else {
            let l = Literal::from_str(&d.t).ok()?;
            if l.to_string() != d.t || d.t.trim() != d.t { return None }
            l.into()
        };
        out.push(tt);
    }
    Some(out.into_iter().collect())
}
/// flattened expected tokens: text, and whether it must be joint / alone / either to the next
fn flatten(v: &[DT], out: &mut Vec<(String, Option<bool>)>) {
    for (i, d) in v.iter().enumerate() {
        if let Some(g) = &d.g {
            if d.t == "~" { flatten(g, out); continue }
            out.push((d.t.clone(), None));
            flatten(g, out);
            out.push((close_ch(d.t.chars().next().unwrap()).to_string(), None));
        } else if is_punct(d) {
            // spacing is meaningful only directly before another punctuation of the same stream
            let j = match v.get(i + 1) { Some(n) if is_punct(n) => Some(joint(v, i)), _ => None };
            out.push((d.t.clone(), j));
        } else if let Some(r) = d.t.strip_prefix('-') {
            out.push(("-".into(), None));
            out.push((r.into(), None));
        } else { out.push((d.t.clone(), None)) }
    }
}
/// what the text lexes to: tokens with spacing, and (start, end, depth, is_literal) of each piece
fn relex(s: &str) -> Result<(Vec<(String, bool)>, Vec<(usize, usize, usize, bool)>), String> {
    fn go(ts: TokenStream, depth: usize, t: &mut Vec<(String, bool)>, p: &mut Vec<(usize, usize, usize, bool)>) {
        for tt in ts {
            let (s, e) = brange(tt.span());
            match tt {
                TokenTree::Group(g) => {
                    let d = delim_ch(g.delimiter());
                    let (os, oe) = brange(g.span_open());
                    let (cs, ce) = brange(g.span_close());
                    t.push((d.to_string(), false));
                    p.push((os, oe, depth, false));
                    go(g.stream(), depth + 1, t, p);
                    t.push((close_ch(d).to_string(), false));
                    p.push((cs, ce, depth, false));
                }
                TokenTree::Punct(x) => { t.push((x.as_char().to_string(), x.spacing() == Spacing::Joint)); p.push((s, e, depth, false)) }
                TokenTree::Ident(x) => { t.push((x.to_string(), false)); p.push((s, e, depth, false)) }
                TokenTree::Literal(x) => { t.push((x.to_string(), false)); p.push((s, e, depth, true)) }
            }
        }
    }
    let ts = TokenStream::from_str(s).map_err(|e| e.to_string())?;
    let (mut t, mut p) = (vec![], vec![]);
    go(ts, 0, &mut t, &mut p);
    Ok((t, p))
}
fn check_tokens(want: &[(String, Option<bool>)], s: &str) -> Result<Vec<(usize, usize, usize, bool)>, String> {
    let (t, p) = relex(s).map_err(|e| format!("output {s:?} does not lex: {e}"))?;
    for i in 0..want.len().max(t.len()) {
        match (want.get(i), t.get(i)) {
            (Some((w, j)), Some((g, k))) if w == g && j.map_or(true, |j| j == *k) => {}
            (w, g) => return Err(format!("output {s:?} lexes to other tokens: number {i} is {g:?} instead of {w:?}")),
        }
    }
    Ok(p)
}
/// which bytes are inside literals
fn lit_mask(s: &str, pieces: &[(usize, usize, usize, bool)]) -> Vec<bool> {
    let mut m = vec![false; s.len()];
    for p in pieces.iter().filter(|p| p.3) { for b in &mut m[(p.0 + 1).min(p.1)..p.1] { *b = true } }
    m
}
/// pretty layout: every line starts with depth * indent; no indent string: one line only
fn check_layout(s: &str, pieces: &[(usize, usize, usize, bool)], indent: Option<&str>) -> Result<(), String> {
    let mask = lit_mask(s, pieces);
    let in_lit = |o: usize| mask[o];
    let mut starts = vec![0];
    for (i, c) in s.char_indices() { if c == '\n' && !in_lit(i) { starts.push(i + 1) } }
    match indent {
        None => {
            if starts.len() > 1 { return Err(format!("compact output {s:?} has a line break")) }
            if s.starts_with(char::is_whitespace) { return Err(format!("compact output {s:?} is indented")) }
        }
        Some(ind) => for (k, st) in starts.iter().enumerate() {
            let end = starts.get(k + 1).map_or(s.len(), |e| e - 1);
            let (a, b) = (pieces.partition_point(|p| p.0 < *st), pieces.partition_point(|p| p.0 < end));
            let Some(p) = pieces[a..b].first() else { continue };
            let lead = &s[*st..p.0];
            let opens = pieces[a..b].windows(2).find(|w| w[1].2 > w[0].2);
            if let Some(w) = opens { return Err(format!("line {} of {s:?} goes on inside the group opened at byte {}", k + 1, w[0].0)) }
            if lead != ind.repeat(p.2) { return Err(format!("line {} of {s:?} is indented by {lead:?} at nesting depth {} (indent {ind:?})", k + 1, p.2)) }
        },
    }
    Ok(())
}

// ---------------------------------------------------------------- the sink
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum WF { FailAtByte(usize), FailAtCall(usize), PanicAtByte(usize), PanicAtCall(usize) }
#[derive(Default)]
pub struct SinkState { pub buf: String, pub calls: usize, pub fault: Option<WF>, pub permanent: bool, pub fired: Option<&'static str>, pub after: usize }
#[derive(Clone, Default)]
pub struct Sink(pub Rc<RefCell<SinkState>>);
pub const SINK_PANIC: &str = "SIMULATED SINK PANIC";
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut st = self.0.borrow_mut();
        if st.fired.is_some() {
            // the destination has failed within this operation; whoever goes on writing is caught here
            if !s.is_empty() { st.after += 1 }
            if st.permanent { return Err(fmt::Error) }
            st.buf.push_str(s);
            return Ok(());
        }
        let call = st.calls;
        st.calls += 1;
        let (hit, part, panics, name) = match st.fault {
            Some(WF::FailAtByte(n)) if st.buf.len() + s.len() > n => (true, n - st.buf.len(), false, "sink_error_at_byte"),
            Some(WF::PanicAtByte(n)) if st.buf.len() + s.len() > n => (true, n - st.buf.len(), true, "sink_panic_at_byte"),
            Some(WF::FailAtCall(n)) if call == n => (true, 0, false, "sink_error_at_call"),
            Some(WF::PanicAtCall(n)) if call == n => (true, 0, true, "sink_panic_at_call"),
            _ => (false, 0, false, ""),
        };
        if !hit { st.buf.push_str(s); return Ok(()) }
        let mut k = part;
        while !s.is_char_boundary(k) { k -= 1 }
        st.buf.push_str(&s[..k]);
        st.fired = Some(name);
        drop(st);
        if panics { std::panic::panic_any(SINK_PANIC) }
        Err(fmt::Error)
    }
}

// ---------------------------------------------------------------- plans
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    /// through the persistent formatter; how: 0 write, 1 write_ast_node, 2 write on a clone of the formatter
    Fw { how: usize },
    /// 0/1 format_ast_node_pretty/compact, 2/3 format_tokens_pretty/compact, 4/5 format_ast_node through Display {} / {:#}, 6/7 format_tokens likewise
    /// from 8 on: 4-7 with a precision, a width, a sign and so on
    Helper { h: usize },
    /// Display of a parsed tree of library and derived nodes; outer: inside a longer write!
    Node { rules: Vec<GN>, input: Vec<IT>, alt: bool, outer: bool, #[serde(default)] spec: usize },
    /// a tree of ordinary derived types; how: 0 {}, 1 {:#}, 2 format_ast_node_pretty, 3 format_ast_node_compact, 4 write_ast_node, 5 its location, 6 all of its literals and words
    Typed { gram: usize, input: Vec<IT>, how: usize },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FOp { pub what: What, #[serde(default)] pub doc: Vec<DT>, #[serde(default)] pub fault: Option<WF>, #[serde(default)] pub permanent: bool }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FmtPlan { pub mode: usize, pub ops: Vec<FOp> }
const INDENTS: &[Option<&str>] = &[Some("    "), None, Some("\t"), Some(""), Some("  "), Some(" \t"), Some("        "), Some("                 "), Some("\u{2003}"), Some(" ")];

/// the further indentation strings: any white space but line breaks
static MORE: std::sync::LazyLock<Vec<String>> = std::sync::LazyLock::new(|| {
    let mut rng = Rng::new(77);
    (0..512).map(|_| {
        let n = *rng.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 31, 32, 33, 64]);
        let one = *rng.pick(WS);
        let mixed = rng.chance(60);
        (0..n).map(|_| if mixed { *rng.pick(WS) } else { one }).collect()
    }).collect()
});
const WS: &[char] = &[' ', ' ', ' ', '\t', '\t', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2003}', '\u{2009}', '\u{202f}', '\u{205f}', '\u{3000}'];
fn indent_of(mode: usize) -> Option<&'static str> { if mode < INDENTS.len() { INDENTS[mode] } else { Some(&MORE[mode - INDENTS.len()]) } }
/// an indentation with something visible (or at least not white space) in it
fn bad_indent(h: u64) -> String {
    let mut rng = Rng::new(h);
    let mut v: Vec<char> = (0..rng.below(4)).map(|_| *rng.pick(WS)).collect();
    let at = rng.below(v.len() + 1);
    v.insert(at, *rng.pick(&['x', '.', '|', '_', '-', '\u{200b}', '\u{feff}', '\u{2060}', '\0', '\u{1b}', '\u{7f}', '\u{b7}', '\u{e9}', '\u{2192}', '\u{1F600}', '\u{200d}', '\u{180e}', '/', '#', '\u{8}']));
    v.into_iter().collect()
}

pub fn generate(rng: &mut Rng, prop: &str) -> FmtPlan {
    let mode = if rng.chance(12) { INDENTS.len() + rng.below(512) } else { rng.weighted(&[40, 20, 10, 4, 10, 8, 8, 3, 3, 4]) };
    let n = 1 + rng.weighted(&[25, 30, 20, 12, 8, 5]);
    let mut ops = vec![];
    for _ in 0..n {
        let what = match rng.weighted(&[60, 20, if prop == "C09" { 25 } else { 10 }, if prop == "C09" { 16 } else { 6 }]) {
            0 => What::Fw { how: rng.weighted(&[60, 30, 10]) },
            1 => { let n = if rng.chance(30) { 8 + 4 * SPECS.len() } else { 8 }; What::Helper { h: rng.below(n) } }
            3 => { let gram = rng.below(GRAMS.len()); What::Typed { gram, input: make(rng, gram), how: rng.below(7) } }
            _ => {
                let rules = if rng.chance(20) { vec![gen_real(rng)] } else { gen_grammar(rng, *rng.clone().pick(&["C01", "C05", "C06", "C16", "C04", ""])).0 };
                let mut input = vec![];
                sentence(rng, &rules, &rules[0], &mut SC { hard: 4000, left: 20, long: 0, zoo: ZOO, tower: false }, 3, &mut input);
                What::Node { rules, input, alt: rng.chance(35), outer: rng.chance(50), spec: if rng.chance(15) { 1 + rng.below(SPECS.len()) } else { 0 } }
            }
        };
        let mut left = if rng.chance(2) { 300 } else { *rng.pick(&[3, 8, 16, 40]) };
        let depth = rng.range(1, 5);
        let doc = if let What::Node { .. } | What::Typed { .. } = what { vec![] } else if rng.chance(3) { let d = if rng.chance(3) { *rng.pick(&[130, 260, 300]) } else { *rng.pick(&[6, 12, 20, 40, 70]) }; gen_tower(rng, d) } else { gen_doc(rng, depth, &mut left) };
        let size = build(&doc).map_or(20, |t| t.to_string().len() * 2 + 10);
        let fault = match rng.weighted(&[if prop == "C09" { 30 } else { 45 }, 35, 15, 8, 5]) {
            0 => None,
            1 => Some(WF::FailAtByte(rng.below(size))),
            2 => Some(WF::FailAtCall(rng.below(size / 3 + 1))),
            3 => Some(WF::PanicAtByte(rng.below(size))),
            _ => Some(WF::PanicAtCall(rng.below(size / 3 + 1))),
        };
        ops.push(FOp { what, doc, fault, permanent: rng.chance(50) });
    }
    FmtPlan { mode, ops }
}

struct NodeDisp<'a>(&'a TokenStream);
impl Display for NodeDisp<'_> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { format_ast_node(self.0, f) } }
struct TokDisp<'a>(&'a TokenStream);
impl Display for TokDisp<'_> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { format_tokens(self.0.clone(), f) } }
struct RootDisp<'a>(&'a dyn Ast);
impl Display for RootDisp<'_> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.show(f) } }

/// further flags of a format: whether they may add white space
const SPECS: &[(&str, bool)] = &[("{:.2}", false), ("{:.0}", false), ("{:+}", false), ("{:.1000}", false), ("{:9}", true), ("{:>40}", true), ("{:^30.3}", true), ("{:09}", true), ("{:<+70.1}", true)];
fn flagged<D: Display>(k: usize, alt: bool, d: &D, w: &mut dyn Write) -> fmt::Result {
    match (k % SPECS.len(), alt) {
        (0, false) => write!(w, "{d:.2}"), (1, false) => write!(w, "{d:.0}"), (2, false) => write!(w, "{d:+}"), (3, false) => write!(w, "{d:.1000}"),
        (4, false) => write!(w, "{d:9}"), (5, false) => write!(w, "{d:>40}"), (6, false) => write!(w, "{d:^30.3}"), (7, false) => write!(w, "{d:09}"), (_, false) => write!(w, "{d:<+70.1}"),
        (0, _) => write!(w, "{d:#.2}"), (1, _) => write!(w, "{d:#.0}"), (2, _) => write!(w, "{d:+#}"), (3, _) => write!(w, "{d:#.1000}"),
        (4, _) => write!(w, "{d:#9}"), (5, _) => write!(w, "{d:>#40}"), (6, _) => write!(w, "{d:^#30.3}"), (7, _) => write!(w, "{d:#09}"), _ => write!(w, "{d:<+#70.1}"),
    }
}
fn helper(h: usize, ts: &TokenStream, w: &mut dyn Write) -> fmt::Result {
    if h >= 8 { let (a, k) = (h % 2 == 1, h / 4 - 2); return if h % 4 < 2 { flagged(k, a, &NodeDisp(ts), w) } else { flagged(k, a, &TokDisp(ts), w) } }
    match h {
        0 => format_ast_node_pretty(ts, w),
        1 => format_ast_node_compact(ts, w),
        2 => format_tokens_pretty(ts.clone(), w),
        3 => format_tokens_compact(ts.clone(), w),
        4 => write!(w, "{}", NodeDisp(ts)),
        5 => write!(w, "{:#}", NodeDisp(ts)),
        6 => write!(w, "{}", TokDisp(ts)),
        _ => write!(w, "{:#}", TokDisp(ts)),
    }
}
fn node_out(r: &dyn Ast, alt: bool, outer: bool, spec: usize, w: &mut dyn Write) -> fmt::Result {
    let d = RootDisp(r);
    if spec > 0 { return flagged(spec - 1, alt, &d, w) }
    match (alt, outer) {
        (false, false) => write!(w, "{}", d),
        (true, false) => write!(w, "{:#}", d),
        (false, true) => write!(w, "{} , {}", d, d),
        (true, true) => write!(w, "{:#} , {:#}", d, d),
    }
}
/// the leaves of a typed tree
struct LeavesOf<'a>(&'a dyn Tr);
impl Display for LeavesOf<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut r = Ok(());
        self.0.visit(&mut |v| if let Vis::Show(d) = v { if r.is_ok() { r = d.fmt(f) } if r.is_ok() { r = f.write_str(" ") } });
        r
    }
}
struct AsNode<'a>(&'a dyn Tr);
impl ToTokens for AsNode<'_> { fn to_tokens(&self, t: &mut TokenStream) { t.extend(self.0.toks()) } }
fn typed_out(t: &dyn Tr, how: usize, w: &mut dyn Write) -> fmt::Result {
    match how % 7 {
        0 => t.show(false, w),
        1 => t.show(true, w),
        2 => t.pretty(w),
        3 => format_ast_node_compact(&AsNode(t), w),
        4 => TokenStreamFormatter::pretty(w).write_ast_node(&AsNode(t)),
        5 => write!(w, "{}", AsNode(t).format_span()),
        _ => write!(w, "{}", LeavesOf(t)),
    }
}
/// the output without its indentation
fn unindented(s: &str, pieces: &[(usize, usize, usize, bool)]) -> String {
    let mask = lit_mask(s, pieces);
    let in_lit = |o: usize| mask[o];
    let mut out = String::new();
    let mut lead = true;
    for (i, c) in s.char_indices() {
        if in_lit(i) { out.push(c); lead = false; continue }
        if c == '\n' { lead = true; out.push(c); continue }
        if lead && c.is_whitespace() { continue }
        lead = false;
        out.push(c);
    }
    out
}
fn fresh(mode: usize, ts: &TokenStream) -> (Result<fmt::Result, String>, String) {
    let mut s = String::new();
    let r = catch_unwind(AssertUnwindSafe(|| match indent_of(mode) {
        None => TokenStreamFormatter::compact(&mut s).write(ts.clone()),
        Some("    ") => TokenStreamFormatter::pretty(&mut s).write(ts.clone()),
        Some(i) => TokenStreamFormatter::with_indent(i, &mut s).map_err(|_| fmt::Error)?.write(ts.clone()),
    })).map_err(|p| panic_text(&*p));
    (r, s)
}

/// tokens read from a text print the same however that text was laid out
fn stable(full: &str, mode: usize) -> Result<(), String> {
    let once = |mode: usize, text: &str| -> Option<String> {
        let ts = TokenStream::from_str(text).ok()?;
        let (r, s) = fresh(mode, &ts);
        (r == Ok(Ok(()))).then_some(s)
    };
    let mode = if indent_of(mode).is_none() { 0 } else { mode };
    let (Some(wide), Some(flat)) = (once(mode, full), once(1, full)) else { return Err(format!("what {full:?} is read as cannot be formatted")) };
    // the same with the lines broken elsewhere
    let other = format!("\n\n  /* a */{}", wide.trim_start());
    for (how, m, text, want) in [("pretty output, formatted again,", mode, &wide, &wide), ("compact output, formatted again,", 1, &flat, &flat), ("compact output, formatted prettily,", mode, &flat, &wide), ("pretty output, formatted compactly,", 1, &wide, &flat), ("pretty output moved down, formatted again,", mode, &other, &wide)] {
        let got = once(m, text);
        if got.as_ref() != Some(want) { return Err(format!("{how} gives {got:?} instead of {want:?}")) }
    }
    Ok(())
}

pub fn exec(plan: &FmtPlan, prop: &str) -> Out {
    let mut o = Out::default();
    let mode = plan.mode % (INDENTS.len() + 512);
    let sink = Sink::default();
    let mut f = match indent_of(mode) {
        None => TokenStreamFormatter::compact(sink.clone()),
        Some("    ") => TokenStreamFormatter::pretty(sink.clone()),
        Some(i) => match TokenStreamFormatter::with_indent(i, sink.clone()) {
            Ok(f) => f,
            Err(e) => { o.bad("indent_refused", format!("with_indent({i:?}) is refused: {e}")); return o }
        },
    };
    let bad = bad_indent(plan.ops.len() as u64 ^ (plan.mode as u64) << 4 ^ plan.ops.iter().map(|o| o.doc.len() as u64).sum::<u64>() << 8);
    let sink2 = Sink::default();
    if TokenStreamFormatter::with_indent(bad.as_str(), sink2.clone()).is_ok() { o.bad("indent_accepted", format!("with_indent accepts {bad:?}, which is not just white space")) }
    let mut done = 0u64;
    for (k, op) in plan.ops.iter().enumerate() {
        let Some(ts) = build(&op.doc) else { continue };
        let mut want = vec![];
        flatten(&op.doc, &mut want);
        // what a fault-free run of the same operation delivers
        let mut node: Option<Box<dyn Ast>> = None;
        let mut node_spec = 0;
        let mut typed: Option<Box<dyn Tr>> = None;
        let (full_res, full, ind): (Result<fmt::Result, String>, String, Option<&str>) = match &op.what {
            What::Fw { .. } => { let (r, s) = fresh(mode, &ts); (r, s, indent_of(mode)) }
            What::Helper { h } => {
                let h = &(*h % (8 + 4 * SPECS.len()));
                let mut s = String::new();
                let r = catch_unwind(AssertUnwindSafe(|| helper(*h, &ts, &mut s))).map_err(|p| panic_text(&*p));
                (r, s, if h % 2 == 0 { Some("    ") } else { None })
            }
            What::Node { rules, input, alt, outer, spec } => {
                // a leaf may heed them, and `Either` passes them on
                let spec = if matches!(rules.first().map(|g| &g.g), Some(K::Zoo(_) | K::Maybe | K::Any | K::Sep | K::Punct | K::Many | K::Paren | K::Bracket | K::Brace | K::LA | K::RA)) { *spec } else { 0 };
                let outer = &(*outer && spec == 0);
                let mut input = input.clone();
                relayout(&mut Rng::new(7), &mut input, true);
                let text = render(&input);
                let (Some(a), Ok(lts)) = (Arena::new(rules, ZOO), TokenStream::from_str(&text)) else { continue };
                let level = lex_level(lts, None, &mut 0);
                let c = Rc::new(Ctx::new(a, &[], &level, 5000));
                let g = enter(c);
                let r = catch_unwind(|| parsel::parse_str::<Root>(&text));
                drop(g);
                let Ok(Ok(root)) = r else { continue };
                want = vec![];
                let mut flat = vec![];
                root.0.tree().flat(&mut flat);
                for _ in 0..if *outer { 2 } else { 1 } {
                    if !want.is_empty() || (*outer && want.is_empty() && flat.is_empty()) { if *outer && want.len() == flat.len() { want.push((",".to_string(), None)) } }
                    want.extend(flat.iter().map(|t| (t.clone(), None)));
                }
                let mut s = String::new();
                let r = catch_unwind(AssertUnwindSafe(|| node_out(&*root.0, *alt, *outer, spec, &mut s))).map_err(|p| panic_text(&*p));
                node = Some(root.0);
                node_spec = spec;
                (r, s, None)
            }
            What::Typed { gram, input, how } => {
                let Some(g) = GRAMS.get(*gram) else { continue };
                let text = render(input);
                let Ok(Ok(t)) = catch_unwind(|| (g.from_str)(&text)) else { continue };
                let mut flat = vec![];
                t.tree().flat(&mut flat);
                want = flat.into_iter().map(|t| (t, None)).collect();
                let mut s = String::new();
                let r = catch_unwind(AssertUnwindSafe(|| typed_out(&*t, *how, &mut s))).map_err(|p| panic_text(&*p));
                typed = Some(t);
                (r, s, None)
            }
        };
        done += 1;
        let desc = || format!("operation {k} of {}: {} with sink fault {:?}", plan.ops.len(), show_op(op, mode), op.fault);
        match &full_res {
            Ok(Ok(())) => {}
            Ok(Err(_)) => { o.bad("spurious_error", format!("{}: formatting fails although the sink does not", desc())); break }
            Err(p) => { o.bad("panic", format!("{}: formatting panics: {p}", desc())); break }
        }
        // the complete output holds exactly the tokens, laid out by depth
        let pieces = if let What::Typed { how: 5 | 6, .. } = op.what { Ok(vec![]) } else if let What::Node { .. } | What::Typed { .. } = op.what {
            match relex(&full) {
                Err(e) => Err(format!("output {full:?} does not lex: {e}")),
                Ok((t, p)) => {
                    let got = canon_all(t.into_iter().map(|x| x.0).collect());
                    let w = canon_all(want.iter().map(|x| x.0.clone()).collect());
                    if got == w { Ok(p) } else { Err(format!("output {full:?} lexes to {got:?} instead of {w:?}")) }
                }
            }
        } else { check_tokens(&want, &full) };
        match pieces {
            Err(e) => { o.bad("tokens", format!("{}: {e}", desc())); break }
            Ok(p) => if prop == "C10" {
                let r = match &op.what {
                    What::Typed { how: 5 | 6, .. } => Ok(()),
                    What::Typed { how, .. } => check_layout(&full, &p, if matches!(how % 7, 1 | 3) { None } else { Some("    ") }),
                    What::Node { .. } if node_spec > 0 && SPECS[(node_spec - 1) % SPECS.len()].1 => Ok(()),
                    What::Helper { h } if *h >= 8 && SPECS[(h / 4 - 2) % SPECS.len()].1 => Ok(()),
                    What::Node { alt, outer, .. } => if *outer && node_spec == 0 { Ok(()) } else { check_layout(&full, &p, if *alt { None } else { Some("    ") }) },
                    _ => check_layout(&full, &p, ind),
                };
                // the choice of the indentation changes nothing else
                let r = r.and_then(|()| {
                    if !matches!(op.what, What::Fw { .. }) || matches!(indent_of(mode), None | Some("    ")) { return Ok(()) }
                    let (Ok(Ok(())), other) = fresh(0, &ts) else { return Ok(()) };
                    let Ok((_, q)) = relex(&other) else { return Ok(()) };
                    let (a, b) = (unindented(&full, &p), unindented(&other, &q));
                    if a == b { Ok(()) } else { Err(format!("without its indentation, the output is {a:?} with indent {:?} and {b:?} with four spaces", indent_of(mode))) }
                });
                if let Err(e) = r { o.bad("layout", format!("{}: {e}", desc())); break }
                // the layout of what is read back has no influence, nor has its location
                if !matches!(op.what, What::Typed { how: 5 | 6, .. }) {
                    if let Err(e) = stable(&full, mode) { o.bad("stability", format!("{}: {e}", desc())); break }
                }
            },
        }
        // the same through the history's formatter and the simulated sink
        let local = Sink::default();
        let target = if let What::Fw { .. } = op.what { sink.clone() } else { local.clone() };
        *target.0.borrow_mut() = SinkState { fault: op.fault.clone(), permanent: op.permanent, ..SinkState::default() };
        let res = catch_unwind(AssertUnwindSafe(|| match &op.what {
            What::Fw { how: 0 } => f.write(ts.clone()),
            What::Fw { how: 1 } => f.write_ast_node(&ts),
            What::Fw { .. } => f.clone().write(ts.clone()),
            What::Helper { h } => helper(*h % (8 + 4 * SPECS.len()), &ts, &mut target.clone()),
            What::Typed { how, .. } => typed_out(&**typed.as_ref().unwrap(), *how, &mut target.clone()),
            What::Node { alt, outer, .. } => node_out(&**node.as_ref().unwrap(), *alt, *outer && node_spec == 0, node_spec, &mut target.clone()),
        }));
        let st = std::mem::take(&mut *target.0.borrow_mut());
        o.steps += st.calls as u64;
        o.log(&format!("{:?} {:?} {};", res.as_ref().map_err(|p| panic_text(&**p)), st.fired, st.buf));
        if let Some(n) = st.fired {
            o.fire(n, 1);
            if st.permanent { o.fire("sink_stays_broken", 1) } else { o.fire("sink_recovers", 1) }
            let depth = full[..st.buf.len().min(full.len())].matches(['(', '[', '{']).count().saturating_sub(full[..st.buf.len().min(full.len())].matches([')', ']', '}']).count());
            if depth > 0 { o.probe("fault_inside_a_group", 1) }
        }
        if k > 0 && plan.ops[k - 1].fault.is_some() { o.probe("write_after_a_fault_was_planned", 1) }
        let wrote = &st.buf;
        match (&res, st.fired) {
            (Err(p), Some(n)) if n.starts_with("sink_panic") && panic_text(&**p) == SINK_PANIC => {}
            (Err(p), _) => { o.bad("panic", format!("{}: formatting panics: {}", desc(), panic_text(&**p))); break }
            (Ok(_), Some(n)) if n.starts_with("sink_panic") => { o.bad("panic_swallowed", format!("{}: the sink panicked but formatting returned", desc())); break }
            (Ok(Ok(())), Some(_)) => { o.bad("error_swallowed", format!("{}: the sink failed after {:?} but formatting returned Ok", desc(), wrote)); break }
            (Ok(Err(_)), None) => { o.bad("spurious_error", format!("{}: formatting fails although the sink did not; it wrote {:?}", desc(), wrote)); break }
            (Ok(_), _) => {}
        }
        if st.after > 0 { o.bad("write_after_error", format!("{}: {} more writes after the sink had failed; it holds {:?}", desc(), st.after, wrote)); break }
        if st.fired.is_none() && *wrote != full {
            o.bad("history", format!("{}: delivers {:?}, a fresh formatter {:?}", desc(), wrote, full));
            break;
        }
        if !full.starts_with(wrote.as_str()) { o.bad("not_a_prefix", format!("{}: wrote {:?}, which is not a prefix of {:?}", desc(), wrote, full)); break }
    }
    o.nontrivial = done >= 3 || !o.fired.is_empty();
    if done == 0 { return Out { skipped: o.viol.is_none(), ..o } }
    o
}
fn show_op(op: &FOp, mode: usize) -> String {
    let ts = build(&op.doc).unwrap_or_default();
    match &op.what {
        What::Fw { how } => format!("{} of `{}` through a formatter with indent {:?}", ["write", "write_ast_node", "write (on a clone)"][*how % 3], show_doc(&op.doc), indent_of(mode)),
        What::Helper { h } => format!("{} of `{}`", ["format_ast_node_pretty", "format_ast_node_compact", "format_tokens_pretty", "format_tokens_compact", "format_ast_node {}", "format_ast_node {:#}", "format_tokens {}", "format_tokens {:#}"][if *h < 8 { *h } else { 4 + h % 4 }].to_string() + &if *h < 8 { String::new() } else { format!(" with the flags of {}", SPECS[(h / 4 - 2) % SPECS.len()].0) }, ts),
        What::Typed { gram, input, how } => format!("{} of {} {:?}", ["{}", "{:#}", "format_ast_node_pretty", "format_ast_node_compact", "write_ast_node", "location {}", "leaves {}"][*how % 7], GRAMS[*gram % GRAMS.len()].name, render(input)),
        What::Node { rules, input, alt, spec, .. } => format!("Display ({}{}) of {}", if *alt { "{:#}" } else { "{}" }, if *spec > 0 { format!(" with the flags of {}", SPECS[(spec - 1) % SPECS.len()].0) } else { String::new() }, crate::parsesim::show_plan(rules, &render(input))),
    }
}
fn show_doc(v: &[DT]) -> String {
    v.iter().map(|d| match &d.g {
        Some(g) if d.t == "~" => format!("\u{ab}{}\u{bb}", show_doc(g)),
        Some(g) => format!("{}{}{}", d.t, show_doc(g), close_ch(d.t.chars().next().unwrap())),
        None => d.t.clone(),
    }).collect::<Vec<_>>().join(" ")
}
#[allow(dead_code)]
fn _t<T: ToTokens>(_: T) {}
