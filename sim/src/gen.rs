//! Random programs (grammars), inputs (sentences of them) and token faults.
use std::str::FromStr;
use parsel::proc_macro2::TokenStream;
use serde::{Deserialize, Serialize};
use crate::dynast::ZOO;
use crate::model::*;
use crate::rng::Rng;

// ---------------------------------------------------------------- inputs
/// one input token; a group if `g` is present; `w`/`cw`: layout before the token / before the closing delimiter
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct IT {
    pub t: String,
    #[serde(default)] pub w: u8,
    #[serde(default, skip_serializing_if = "Option::is_none")] pub g: Option<Vec<IT>>,
    #[serde(default)] pub cw: u8,
}
pub fn tok(t: &str) -> IT { IT { t: t.to_string(), w: 1, g: None, cw: 0 } }
pub fn group(d: char, g: Vec<IT>) -> IT { IT { t: d.to_string(), w: 1, g: Some(g), cw: 0 } }

pub const WS: &[&str] = &["", " ", "\n", "\t", " /* c\u{f6}mm\u{20ac}nt */ ", " // \u{fc}n\u{ef}\n", "\r\n", "   ", "\n\n    ", " /* a\n b */ "];

fn wordish(c: char) -> bool { c.is_alphanumeric() || c == '_' || c == '"' || c == '\'' }
/// layouts of unusual size: very long lines, very many lines, very big sources
pub const PADS: std::ops::Range<u8> = 240..250;
/// one token, at any depth
pub fn some_tok<'a>(rng: &mut Rng, ts: &'a mut Vec<IT>) -> Option<&'a mut IT> {
    if ts.is_empty() { return None }
    let i = rng.below(ts.len());
    if ts[i].g.as_ref().is_some_and(|g| !g.is_empty()) && rng.chance(60) { return some_tok(rng, ts[i].g.as_mut().unwrap()) }
    Some(&mut ts[i])
}
/// puts layout of unusual size before one or two tokens: of a few hundred, or of 65 thousand characters or lines
pub fn pad(rng: &mut Rng, input: &mut Vec<IT>, huge: u32) {
    for _ in 0..1 + rng.below(2) {
        let w = PADS.start + if rng.chance(huge) { 5 + rng.below(5) } else { rng.below(5) } as u8;
        if let Some(t) = some_tok(rng, input) { if t.g.is_some() && rng.chance(40) { t.cw = w } else { t.w = w } }
    }
}
/// makes what is made on first use
pub fn warm() { ws_of(PADS.start); ws_of(ODD_WS.start); }
pub fn ws_of(w: u8) -> &'static str {
    static BIG: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    if ODD_WS.contains(&w) { return odd_ws(w) }
    if !PADS.contains(&w) { return WS[w as usize % WS.len()] }
    &BIG.get_or_init(|| vec![
        " ".repeat(256), format!(" /* {} */ ", "\u{e9}".repeat(250)), "\n".repeat(260), format!("\n{}", "\t".repeat(1023)), "\r\n".repeat(1030),
        " ".repeat(66_000), "\n".repeat(65_540), format!("// {}\n", "\u{20ac} ".repeat(700)).repeat(24), format!(" /* {} */", "x\u{1F600}".repeat(17_000)), format!("/*{}*/", "\u{fc}\n".repeat(10_000)),
    ])[(w - PADS.start) as usize]
}
/// comments with unusual characters
pub const ODD_WS: std::ops::Range<u8> = 100..230;
fn odd_ws(w: u8) -> &'static str {
    static ODD: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let v = ODD.get_or_init(|| ODD_CHARS.iter().filter(|c| !matches!(c, '\r' | '/' | '*')).enumerate().map(|(i, c)| match i % 3 {
        0 => format!(" /*{c}*/ "), 1 => format!(" // {c}{c} a\n"), _ => format!("\n/* a\n{c} b{c} */"),
    }).filter(|s| TokenStream::from_str(s).is_ok()).collect());
    &v[(w - ODD_WS.start) as usize % v.len()]
}
pub fn render(ts: &[IT]) -> String {
    fn go(ts: &[IT], out: &mut String) {
        for t in ts {
            let ws = ws_of(t.w);
            let prev = out.chars().last();
            let next = t.t.chars().next().unwrap_or(' ');
            let clash = prev.is_some_and(|p| (wordish(p) && (wordish(next) || next == '.' || next == '#')) || (p == '.' && next.is_ascii_digit())
                || (p == '/' && (next == '/' || next == '*')) || p == '\'' || p == '#' );
            if ws.is_empty() && clash { out.push(' ') } else { out.push_str(ws) }
            match &t.g {
                Some(g) => {
                    out.push_str(&t.t);
                    go(g, out);
                    out.push_str(ws_of(t.cw));
                    out.push_str(close_ch(next));
                }
                None => out.push_str(&t.t),
            }
        }
    }
    let mut s = String::new();
    go(ts, &mut s);
    s
}
pub fn relayout(rng: &mut Rng, ts: &mut [IT], plain: bool) {
    for t in ts {
        t.w = if plain { 1 } else if rng.chance(3) { ODD_WS.start + rng.below(ODD_WS.len()) as u8 } else { rng.weighted(&[30, 40, 8, 2, 4, 3, 4, 3, 3, 3]) as u8 };
        t.cw = if plain { 0 } else { rng.weighted(&[50, 20, 8, 2, 3, 3, 4, 3, 3, 1]) as u8 };
        if let Some(g) = &mut t.g { relayout(rng, g, plain) }
    }
}
pub fn count(ts: &[IT]) -> usize { ts.iter().map(|t| 1 + t.g.as_ref().map_or(0, |g| count(g))).sum() }

pub const IDS: &[&str] = &["a", "b", "c", "alpha", "beta", "x"];
pub const INTS: &[&str] = &["1", "2", "37"];
pub const PUNCTS: &[&str] = &["+", "*", "=", ";", ",", "<", ">", "!", "&", "|", ":"];

/// everything else the tokenizer knows
pub const WIDE: &[&str] = &["+", "-", "*", "/", "%", "^", "!", "&", "|", "=", "<", ">", "@", ".", ",", ";", ":", "#", "$", "?", "~",
    "->", "=>", "==", "!=", "::", "..", "...", "..=", "&&", "||", "<<", ">>", "<=", ">=", "+=", "-=", "<<=", "#!", "<-",
    "'a", "'static", "'_", "_", "r#fn", "r#a", "fn", "let", "mut", "self", "Self", "super", "crate", "static", "pub", "if", "else", "return", "true", "false", "union", "dyn",
    "é", "\u{65e5}\u{672c}", "__x", "A1", "1.5", "0.0", "1e3", "0xff", "1u8", "1_000", "0", "-1", "340282366920938463463374607431768211456", "'c'", "'\\n'", "b'x'", "b\"b\"", "c\"c\"", "\"\"", "\"\u{e9}\\u{1F600}\"", "r\"raw\"", "r#\"q\"#", "br\"b\""];
pub const WIDE_P: &[char] = &['-', '/', '%', '^', '&', '|', '>', '@', '.', ':', '#', '$', '?', '~', '!', '<'];

pub fn long_word(rng: &mut Rng) -> String {
    let n = *rng.pick(&[20, 33, 60, 64, 65, 100, 127, 130, 255, 260, 600, 1100]);
    let mut w = String::from("lw_");
    while w.len() < n { w += *rng.pick(&["a", "alpha", "B", "7", "_", "__"]) }
    w
}
pub fn random_tok(rng: &mut Rng, depth: usize) -> IT {
    if rng.below(300) == 0 { return tok(&long_word(rng)) }
    if rng.chance(22) { return if rng.chance(12) { tok(&rand_lit(rng)) } else { tok(*rng.pick(WIDE)) } }
    match rng.weighted(&[30, 15, 5, 30, if depth > 0 { 12 } else { 0 }]) {
        0 => tok(*rng.pick(IDS)),
        1 => tok(*rng.pick(INTS)),
        2 => tok("\"s\""),
        3 => tok(*rng.pick(PUNCTS)),
        _ => { let n = rng.below(3); let d = *rng.pick(&['(', '[', '{']); group(d, (0..n).map(|_| random_tok(rng, depth - 1)).collect()) }
    }
}

// ---------------------------------------------------------------- literals
const ODD_CHARS: &[char] = &['\u{200c}', '\u{200e}', '\u{61c}', '\u{2060}', '\u{ad}', '\u{3000}', '\u{1680}', '\u{ff11}', '\u{e000}', '\u{1F468}', '\u{FE0F}', '\u{20e3}', '\n', '\r', '\t', '\0', '\u{1}', '\u{7}', '\u{b}', '\u{1b}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{ad}', '\u{df}', '\u{e9}', '\u{fe}', '\u{ff}', '\u{100}', '\u{131}', '\u{149}', '\u{301}', '\u{37e}',
    '\u{5d0}', '\u{7ff}', '\u{800}', '\u{200b}', '\u{200d}', '\u{2028}', '\u{2029}', '\u{202e}', '\u{20ac}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1F600}', '\u{1F1E6}', '\u{E0100}', '\u{10FFFF}',
    '"', '"', '\'', '\'', '\\', '\\', '#', '{', '}', '(', ')', '/', '*', ' ', ',', ';', '$', '%', '_', '-', '.'];
fn some_char(rng: &mut Rng) -> char {
    match rng.below(10) {
        0..=3 => (0x20 + rng.below(0x5f)) as u8 as char,
        4..=8 => *rng.pick(ODD_CHARS),
        _ => char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('x'),
    }
}
/// a spelling of `c` between the quotes `q`
fn spell(rng: &mut Rng, c: char, q: char, bytes: bool, out: &mut String) {
    let v = c as u32;
    let plain = !c.is_control() && c != q && c != '\\' && (c.is_ascii() || !bytes) && !('\u{202a}'..='\u{202e}').contains(&c);
    if plain && rng.chance(80) { out.push(c); return }
    // line breaks as they are, in strings
    if (c == '\n' || c == '\t') && q == '"' && rng.chance(30) { out.push(c); return }
    match (rng.below(4), c) {
        (0..=2, '\n') => out.push_str("\\n"), (0..=2, '\r') => out.push_str("\\r"), (0..=2, '\t') => out.push_str("\\t"), (0..=1, '\0') => out.push_str("\\0"),
        (_, '\\') => out.push_str("\\\\"), (0..=2, '"') => out.push_str("\\\""), (0..=2, '\'') => out.push_str("\\'"),
        _ if v < 0x80 || bytes => out.push_str(&if rng.chance(50) { format!("\\x{v:02x}") } else { format!("\\x{v:02X}") }),
        (0, _) => out.push_str(&format!("\\u{{{v:06x}}}")), (1, _) => out.push_str(&format!("\\u{{{v:X}}}")), _ => out.push_str(&format!("\\u{{{v:x}}}")),
    }
}
fn some_len(rng: &mut Rng) -> usize { match rng.weighted(&[10, 40, 30, 14, 4, 2]) { 0 => 0, 1 => 1 + rng.below(3), 2 => 3 + rng.below(8), 3 => 11 + rng.below(25), 4 => 36 + rng.below(100), _ => 130 + rng.below(400) } }
fn digits(rng: &mut Rng, radix: u32, n: usize, out: &mut String) {
    for i in 0..n {
        if i > 0 && rng.chance(8) { out.push('_') }
        let d = std::char::from_digit(rng.below(radix as usize) as u32, radix).unwrap();
        out.push(if rng.chance(50) { d.to_ascii_uppercase() } else { d });
    }
}
/// the kinds: 0 str, 1 raw str, 2 byte str, 3 raw byte str, 4 char, 5 byte, 6 int, 7 float
pub fn rand_lit_of(rng: &mut Rng, kind: usize) -> String {
    let mut s = String::new();
    match kind {
        0 => { s.push('"'); for _ in 0..some_len(rng) { let c = some_char(rng); spell(rng, c, '"', false, &mut s) } if rng.chance(6) { s.push_str("\\\n   ") } s.push('"') }
        2 => { s.push_str("b\""); for _ in 0..some_len(rng) { let c = if rng.chance(40) { rng.below(256) as u8 as char } else { Some(some_char(rng)).filter(|c| (*c as u32) < 256).unwrap_or('z') }; spell(rng, c, '"', true, &mut s) } s.push('"') }
        1 | 3 => {
            let body: String = (0..some_len(rng)).map(|_| some_char(rng)).filter(|c| *c != '\r' && *c != '\0' && (kind == 1 || c.is_ascii()) && !('\u{202a}'..='\u{202e}').contains(c)).collect();
            let mut h = if rng.chance(50) { 0 } else { rng.below(4) };
            while body.contains(&format!("\"{}", "#".repeat(h))) { h += 1 }
            let h = "#".repeat(h);
            s = format!("{}{h}\"{body}\"{h}", if kind == 1 { "r" } else { "br" });
        }
        4 => { s.push('\''); let c = some_char(rng); spell(rng, c, '\'', false, &mut s); s.push('\'') }
        5 => { s.push_str("b'"); let c = rng.below(256) as u8 as char; spell(rng, c, '\'', true, &mut s); s.push('\'') }
        6 => {
            match rng.below(6) {
                0 => { s.push_str("0x"); let n = 1 + rng.below(33); digits(rng, 16, n, &mut s) }
                1 => { s.push_str("0b"); let n = 1 + rng.below(70); digits(rng, 2, n, &mut s) }
                2 => { s.push_str("0o"); let n = 1 + rng.below(24); digits(rng, 8, n, &mut s) }
                3 => { let k = rng.below(128); let near = 1u128 << k; s = (match rng.below(3) { 0 => near, 1 => near - 1, _ => near + 1 }).to_string() }
                _ => { let n = 1 + rng.below(42); digits(rng, 10, n, &mut s) }
            }
            if rng.chance(15) { if rng.chance(30) { s.push('_') } s.push_str(*rng.pick(&["u8", "i8", "u16", "i32", "u64", "i64", "u128", "i128", "usize", "isize"])) }
        }
        _ => {
            let n = 1 + { let m = if rng.chance(10) { 60 } else { 8 }; rng.below(m) };
            digits(rng, 10, n, &mut s);
            let dot = rng.chance(80);
            if dot { s.push('.'); let n = 1 + { let m = if rng.chance(10) { 60 } else { 8 }; rng.below(m) }; digits(rng, 10, n, &mut s) }
            if !dot || rng.chance(50) { s.push(*rng.pick(&['e', 'E'])); s.push_str(*rng.pick(&["", "+", "-", "-"])); let n = 1 + rng.below(3); digits(rng, 10, n, &mut s) }
            if rng.chance(10) { s.push_str(*rng.pick(&["f32", "f64", "_f64"])) }
        }
    }
    s
}
pub fn rand_lit(rng: &mut Rng) -> String { let k = rng.below(8); rand_lit_of(rng, k) }

// ---------------------------------------------------------------- grammars
#[derive(Clone, Default)]
pub struct W { pub sim: u32, pub real: u32, pub either: u32, pub maybe: u32, pub any: u32, pub sep: u32, pub punct: u32, pub many: u32, pub assoc: u32, pub delim: u32, pub zs: u32, pub ze: u32, pub marks: u32 }
pub struct GC { pub next: u32, pub rules: usize, pub w: W, pub budget: i32 }

fn gen_tc(rng: &mut Rng) -> TC {
    match rng.weighted(&[8, 40, 12, 6, 30, 8, 2]) {
        0 => TC::Id,
        1 if rng.chance(6) => TC::Kw(rng.pick(&["fn", "_", "self", "true", "r#fn", "é"]).to_string()),
        1 => TC::Kw(rng.pick(&IDS[..4]).to_string()),
        2 => TC::Int,
        3 => TC::Str,
        4 if rng.chance(10) => TC::P(*rng.pick(WIDE_P)),
        4 => TC::P(rng.pick(&PUNCTS[..7]).chars().next().unwrap()),
        5 => TC::Grp(*rng.pick(&['(', '[', '{'])),
        _ => TC::Any,
    }
}
pub fn gen_sim(rng: &mut Rng, c: &mut GC, max: usize) -> GN {
    let n = 1 + rng.below(max);
    c.next += 1;
    GN::new(K::Sim { id: c.next, pat: (0..n).map(|_| gen_tc(rng)).collect() }, vec![])
}
pub fn gen_real(rng: &mut Rng) -> GN {
    if rng.chance(20) {
        return GN::new(K::Real(*rng.pick(&[RL::CIdent2, RL::CIdent2, RL::CIdent3, RL::CIdent3, RL::CIdent4, RL::Kw2Fn, RL::Kw2X, RL::Kw2Gamma, RL::Kw2Type, RL::Kw2True, RL::Kw2Self,
            RL::Kw2Upper, RL::Kw2Longer, RL::Kw3Beta, RL::Kw3X, RL::Kw3Gap, RL::Kw4A])), vec![])
    }
    if rng.chance(12) { return GN::new(K::Real(*rng.pick(&[RL::Rest, RL::Rest, RL::OneTree, RL::OnePunct, RL::OneLit, RL::OneGroup, RL::Life, RL::OptSemi, RL::OptFn])), vec![]) }
    let r = *rng.pick(&[RL::Bool, RL::Int, RL::Uint, RL::Float, RL::Char, RL::Byte, RL::Str, RL::ByteStr, RL::Lit, RL::Word, RL::Word, RL::CIdent, RL::CIdent,
        RL::KwAlpha, RL::KwBeta, RL::KwUnder, RL::Ident, RL::Comma, RL::Semi, RL::Plus, RL::AndAnd, RL::EqEq, RL::Fn, RL::Let]);
    GN::new(K::Real(r), vec![])
}
fn fresh_ids(g: &mut GN, c: &mut GC) {
    if let K::Sim { id, .. } = &mut g.g { c.next += 1; *id = c.next }
    for k in &mut g.kids { fresh_ids(k, c) }
}
/// a copy of `g` that differs in one place
fn variation(rng: &mut Rng, c: &mut GC, g: &GN) -> GN {
    let mut v = g.clone();
    fresh_ids(&mut v, c);
    let n = v.size();
    let mut target = rng.below(n);
    fn nth<'a>(g: &'a mut GN, t: &mut usize) -> Option<&'a mut GN> {
        if *t == 0 { return Some(g) }
        *t -= 1;
        for k in &mut g.kids { if let Some(x) = nth(k, t) { return Some(x) } }
        None
    }
    if let Some(x) = nth(&mut v, &mut target) {
        match &mut x.g {
            K::Sim { pat, .. } => match rng.below(3) {
                0 => pat.push(gen_tc(rng)),
                1 if pat.len() > 1 => { pat.pop(); }
                _ => { let i = rng.below(pat.len()); pat[i] = gen_tc(rng) }
            },
            K::Either | K::Punct => x.kids.swap(0, 1),
            K::Paren | K::Bracket | K::Brace => x.g = rng.pick(&[K::Paren, K::Bracket, K::Brace]).clone(),
            K::LA => x.g = K::RA,
            K::RA => x.g = K::LA,
            _ => {}
        }
    }
    c.budget -= n as i32;
    v
}
pub fn nullable(g: &GN) -> bool {
    match &g.g {
        K::Sim { .. } => false,
        K::Real(r) => matches!(r, RL::Empty | RL::Eof | RL::NotEof | RL::Rest | RL::OptSemi | RL::OptFn),
        K::Either => nullable(&g.kids[0]) || nullable(&g.kids[1]),
        K::Maybe | K::Any | K::Punct | K::Many => true,
        K::Sep => nullable(&g.kids[0]),
        K::LA | K::RA => nullable(&g.kids[1]),
        K::Paren | K::Bracket | K::Brace => false,
        K::Zoo(z) | K::Prod(z) => ZOO[*z].variants.iter().any(|v| v.fields.iter().all(|f| nullable(&g.kids[f.1]))),
        K::Ref(_) => true, // unknown: treated as nullable by the generator
    }
}
/// kinds a root may be forced to
#[derive(Clone, Copy, PartialEq)]
pub enum Want { Free, Seq, Alt, Maybe, Rep, Assoc, Delim, Mark }

pub fn gen_g(rng: &mut Rng, c: &mut GC, depth: usize, nn: bool, want: Want) -> GN {
    for _ in 0..8 {
        let g = gen_g1(rng, c, depth, want);
        if !nn || !nullable(&g) { return g }
    }
    gen_sim(rng, c, 2)
}
fn gen_g1(rng: &mut Rng, c: &mut GC, depth: usize, want: Want) -> GN {
    c.budget -= 1;
    let w = c.w.clone();
    if want == Want::Free && (depth == 0 || c.budget <= 0) {
        return match rng.weighted(&[w.sim, w.real, w.marks]) { 0 => gen_sim(rng, c, 3), 1 => gen_real(rng), _ => gen_mark(rng) };
    }
    let d = depth.saturating_sub(1);
    let pick = match want {
        Want::Free => rng.weighted(&[w.sim, w.real, w.either, w.maybe, w.any, w.sep, w.punct, w.many, w.assoc, w.delim, w.zs, w.ze, w.marks]),
        Want::Seq => if rng.chance(70) { 10 } else { 11 },
        Want::Alt => if rng.chance(40) { 2 } else { 11 },
        Want::Maybe => 3,
        Want::Rep => 4 + rng.below(4),
        Want::Assoc => 8,
        Want::Delim => 9,
        Want::Mark => 12,
    };
    let f = Want::Free;
    match pick {
        0 => gen_sim(rng, c, 3),
        1 => gen_real(rng),
        2 => {
            let a = gen_g(rng, c, d, false, f);
            let b = if rng.chance(45) { variation(rng, c, &a) } else { gen_g(rng, c, d, false, f) };
            let mut k = vec![a, b];
            if rng.chance(30) { k.swap(0, 1) }
            GN::new(K::Either, k)
        }
        3 => {
            let nn = rng.chance(80);
            let p = gen_g(rng, c, d, nn, f);
            let b = gen_g(rng, c, d, false, f);
            GN::new(K::Maybe, vec![p, b])
        }
        4 => { let x = gen_g(rng, c, d, true, f); GN::new(K::Any, vec![x]) }
        5 | 6 => {
            let x = gen_g(rng, c, d, true, f);
            let p = if rng.chance(70) { gen_sim(rng, c, 2) } else { gen_g(rng, c, d.min(2), false, f) };
            GN::new(if pick == 5 { K::Sep } else { K::Punct }, vec![x, p])
        }
        7 => { let x = gen_g(rng, c, d, true, f); GN::new(K::Many, vec![x]) }
        8 => {
            let x = gen_g(rng, c, d, true, f);
            let o = if rng.chance(70) { gen_sim(rng, c, 2) } else { gen_g(rng, c, d.min(2), false, f) };
            GN::new(if rng.chance(50) { K::LA } else { K::RA }, vec![o, x])
        }
        9 => {
            let x = if c.rules > 0 && rng.chance(25) { GN::new(K::Ref(rng.below(c.rules)), vec![]) } else { gen_g(rng, c, d, false, f) };
            GN::new(rng.pick(&[K::Paren, K::Bracket, K::Brace]).clone(), vec![x])
        }
        10 | 11 => {
            let lim = if rng.chance(55) { 36 } else { ZOO.len() };
            let cands: Vec<usize> = (0..lim).filter(|z| ZOO[*z].is_enum == (pick == 11)).collect();
            let mut z = *rng.pick(&cands);
            for _ in 0..2 { if ZOO[z].nslots as i32 > c.budget.max(3) { z = *rng.pick(&cands) } }
            let ns = ZOO[z].nslots;
            let mut kids: Vec<GN> = vec![];
            for i in 0..ns {
                let g = if i > 0 && pick == 11 && rng.chance(35) { let j = rng.below(i); let b = kids[j].clone(); variation(rng, c, &b) } else { gen_g(rng, c, if ns > 5 { d.min(1) } else { d }, false, f) };
                kids.push(g);
            }
            GN::new(K::Zoo(z), kids)
        }
        _ => gen_mark(rng),
    }
}
fn gen_mark(rng: &mut Rng) -> GN { GN::new(K::Real(*rng.pick(&[RL::Empty, RL::Eof, RL::NotEof])), vec![]) }

// ---------------------------------------------------------------- sentences
pub fn sample_tc(rng: &mut Rng, tc: &TC) -> IT {
    match tc {
        TC::Any => random_tok(rng, 1),
        TC::Id => tok(*rng.pick(IDS)),
        TC::Kw(k) => tok(k),
        TC::Int => tok(*rng.pick(INTS)),
        TC::Str => tok("\"s\""),
        TC::P(c) => tok(&c.to_string()),
        TC::Grp(d) => { let n = rng.below(3); group(*d, (0..n).map(|_| random_tok(rng, 1)).collect()) }
    }
}
pub fn sample_real(rng: &mut Rng, r: RL) -> Vec<IT> {
    let mut v = sample_plain(rng, r);
    // the sign is a token of its own, and may stand on another line
    if matches!(r, RL::Int | RL::Float | RL::Lit) && v.len() == 1 && v[0].t.starts_with(|c: char| c.is_ascii_digit()) && rng.chance(25) { v.insert(0, tok("-")) }
    v
}
fn sample_plain(rng: &mut Rng, r: RL) -> Vec<IT> {
    if let Some(p) = rl_punct(r) { return vec![tok(p)] }
    if let Some(k) = rl_kw(r) { return vec![tok(k)] }
    match r {
        RL::Rest => { let n = rng.below(4); return (0..n).map(|_| random_tok(rng, 1)).collect() }
        RL::OneTree => return vec![random_tok(rng, 1)],
        RL::OptSemi | RL::OptFn if rng.chance(50) => return vec![],
        RL::OptSemi => return vec![tok(";")],
        RL::OptFn => return vec![tok("fn")],
        RL::Life => return vec![tok(*rng.pick(&["'a", "'static", "'_", "'fn"]))],
        RL::OnePunct => return vec![tok(*rng.pick(PUNCTS))],
        RL::OneGroup => { let n = rng.below(3); return vec![group(*rng.pick(&['(', '[', '{']), (0..n).map(|_| random_tok(rng, 1)).collect())] }
        _ => {}
    }
    if rng.chance(30) {
        let k = match r {
            RL::Byte => 5, RL::Int | RL::Uint => { if rng.chance(50) { let n = 1 + rng.below(17); let mut s = String::new(); digits(rng, 10, n, &mut s); return vec![tok(&s)] } 6 }
            RL::Float => 7, RL::Char => 4, RL::Str => rng.below(2), RL::ByteStr => 2 + rng.below(2), RL::Lit => rng.below(8), _ => 99,
        };
        if k < 99 { return vec![tok(&rand_lit_of(rng, k))] }
    }
    vec![tok(match r {
        RL::OneLit => *rng.pick(&["1", "1.5", "\"s\"", "'c'", "b'x'", "c\"c\"", "1u8"]),
        RL::Empty | RL::Eof | RL::NotEof => return vec![],
        RL::Bool => *rng.pick(&["true", "false"]),
        RL::Byte => "b'x'",
        RL::Int | RL::Uint => *rng.pick(INTS),
        RL::Float => *rng.pick(&["1.5", "0.25"]),
        RL::Char => "'c'",
        RL::Str => "\"s\"",
        RL::ByteStr => "b\"bs\"",
        RL::Lit => *rng.pick(&["1", "\"s\"", "true", "1.5", "'c'"]),
        RL::Word => *rng.pick(&["a", "b", "alpha", "fn", "_", "r#fn", "r#type", "\u{e9}"]),
        RL::CIdent => *rng.pick(&["a", "b", "c", "fn", "r#fn", "r#alpha", "alphabet", "\u{e9}"]),
        RL::CIdent2 | RL::CIdent3 | RL::CIdent4 => *rng.pick(&["a", "b", "x", "fn", "alpha", "beta", "gamma", "type", "r#type", "r#x", "_", "true", "Alpha", "alpha_", "ALPHA", "Self", "self"]),
        _ => *rng.pick(&["a", "b", "c", "x"]),
    })]
}
/// `tower`: choose what leads deeper; `left`: size after which the choices turn minimal; `hard`: size after which nothing more is written
pub struct SC { pub hard: i32, pub left: i32, pub long: usize, pub zoo: &'static [ZooMeta], pub tower: bool }
fn refs(g: &GN) -> usize { matches!(g.g, K::Ref(_)) as usize + g.kids.iter().map(refs).sum::<usize>() }
pub fn sentence(rng: &mut Rng, rules: &[GN], g: &GN, s: &mut SC, depth: usize, out: &mut Vec<IT>) {
    s.left -= 1;
    s.hard -= 1;
    if s.hard < 0 { return }
    let rep = |rng: &mut Rng, s: &mut SC| -> usize {
        if s.long > 0 { let n = s.long; s.long = 0; return n }
        if s.tower { return 1 }
        if s.left < 0 { return 0 }
        rng.weighted(&[15, 25, 30, 15, 10, 5])
    };
    match &g.g {
        K::Sim { pat, .. } => for tc in pat { let t = sample_tc(rng, tc); out.push(t) },
        K::Real(r) => out.extend(sample_real(rng, *r)),
        K::Either => { let i = if s.tower && refs(&g.kids[0]) != refs(&g.kids[1]) { (refs(&g.kids[1]) > refs(&g.kids[0])) as usize } else { rng.below(2) }; sentence(rng, rules, &g.kids[i], s, depth, out) }
        K::Maybe => if if s.tower { refs(g) > 0 && rng.chance(40) } else { s.left > 0 && rng.chance(65) } {
            sentence(rng, rules, &g.kids[0], s, depth, out);
            sentence(rng, rules, &g.kids[1], s, depth, out);
        },
        K::Any | K::Many => for _ in 0..rep(rng, s) { sentence(rng, rules, &g.kids[0], s, depth, out) },
        K::Sep | K::LA | K::RA => {
            let (x, p) = if g.g == K::Sep { (0, 1) } else { (1, 0) };
            let n = rep(rng, s).max(1);
            for i in 0..n {
                if i > 0 { sentence(rng, rules, &g.kids[p], s, depth, out) }
                sentence(rng, rules, &g.kids[x], s, depth, out)
            }
        }
        K::Punct => {
            let n = rep(rng, s);
            for i in 0..n {
                sentence(rng, rules, &g.kids[0], s, depth, out);
                if i + 1 < n || rng.chance(30) { sentence(rng, rules, &g.kids[1], s, depth, out) }
            }
        }
        K::Paren | K::Bracket | K::Brace => {
            let mut inner = vec![];
            if depth > 0 { sentence(rng, rules, &g.kids[0], s, depth - 1, &mut inner) }
            out.push(group(match g.g { K::Paren => '(', K::Bracket => '[', _ => '{' }, inner))
        }
        K::Zoo(z) | K::Prod(z) => {
            let vs = s.zoo[*z].variants;
            let mut v = &vs[if vs.len() > 40 && rng.chance(30) { vs.len() - 1 - rng.below(16) } else { rng.below(vs.len()) }];
            if s.tower && depth > 1 {
                let deep: Vec<&VarMeta> = vs.iter().filter(|v| v.fields.iter().any(|f| refs(&g.kids[f.1]) > 0)).collect();
                if !deep.is_empty() { v = *rng.pick(&deep) }
            } else if depth <= 1 || s.left < 0 {
                // run out: the variant with the fewest references to other productions
                v = vs.iter().min_by_key(|v| v.fields.iter().map(|f| refs(&g.kids[f.1])).sum::<usize>()).unwrap();
            }
            for f in v.fields { sentence(rng, rules, &g.kids[f.1], s, depth, out) }
        }
        K::Ref(r) => if depth > 0 { sentence(rng, rules, &rules[*r], s, depth - 1, out) },
    }
}

// ---------------------------------------------------------------- token faults
pub const TOKEN_FAULTS: &[&str] = &["tok_lost", "tok_duplicated", "tok_reordered", "tok_replaced", "tok_inserted", "input_cut", "group_unwrapped", "tok_wrapped", "tok_misspelled", "delim_changed"];

/// a token like `t`, but not quite
pub fn misspell(rng: &mut Rng, t: &str) -> String {
    let c: Vec<char> = t.chars().collect();
    let i = rng.below(c.len());
    let flip = |c: &char| if c.is_uppercase() { c.to_lowercase().next().unwrap() } else { c.to_uppercase().next().unwrap() };
    match rng.below(9) {
        0 => t.to_uppercase(),
        1 | 2 => c.iter().enumerate().map(|(j, x)| if i == j { flip(x) } else { *x }).collect(),
        3 => c.iter().enumerate().filter(|(j, _)| i != *j).map(|(_, x)| *x).collect(),
        4 => c.iter().enumerate().flat_map(|(j, x)| if i == j { vec![*x, *x] } else { vec![*x] }).collect(),
        5 => match t.strip_prefix("r#") { Some(r) => r.into(), None => format!("r#{t}") },
        6 => format!("{t}{}", rng.pick(&["_", "1", "s", if t.starts_with(char::is_alphabetic) { "\u{301}" } else { "_" }, "=", "u8", "'"])),
        7 => format!("{}{t}", rng.pick(&["_", "b", "r", "x", "-", "'"])),
        _ => { let mut d = c.clone(); if d.len() > 1 { let j = i.min(d.len() - 2); d.swap(j, j + 1) } d.into_iter().collect() }
    }
}

fn levels(ts: &[IT], path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(path.clone());
    for (i, t) in ts.iter().enumerate() {
        if let Some(g) = &t.g { path.push(i); levels(g, path, out); path.pop(); }
    }
}
fn level_mut<'a>(ts: &'a mut Vec<IT>, path: &[usize]) -> &'a mut Vec<IT> {
    let mut l = ts;
    for i in path { l = l[*i].g.as_mut().unwrap() }
    l
}
/// damage the input once; returns the name of the fault
pub fn damage(rng: &mut Rng, ts: &mut Vec<IT>, alphabet: &dyn Fn(&mut Rng) -> IT) -> Option<&'static str> {
    let mut ls = vec![];
    levels(ts, &mut vec![], &mut ls);
    let p = rng.pick(&ls).clone();
    let l = level_mut(ts, &p);
    let n = l.len();
    let k = rng.below(TOKEN_FAULTS.len());
    let name = TOKEN_FAULTS[k];
    if n == 0 && !matches!(name, "tok_inserted") { return None }
    let i = rng.below(n.max(1));
    match name {
        "tok_lost" => { l.remove(i); }
        "tok_duplicated" => { let t = l[i].clone(); l.insert(i, t) }
        "tok_reordered" => { if n < 2 { return None } let j = if i + 1 < n { i + 1 } else { i - 1 }; l.swap(i, j) }
        "tok_replaced" => l[i] = alphabet(rng),
        "tok_inserted" => { let j = rng.below(n + 1); let t = alphabet(rng); l.insert(j, t) }
        "input_cut" => l.truncate(i),
        "group_unwrapped" => { let t = l.remove(i); match t.g { Some(g) => { l.splice(i..i, g); } None => { l.insert(i, t); return None } } }
        "tok_misspelled" => {
            let words: Vec<usize> = (0..n).filter(|i| l[*i].g.is_none()).collect();
            if words.is_empty() { return None }
            let i = *rng.pick(&words);
            let t = misspell(rng, &l[i].t);
            // it must stay one lexable piece
            if TokenStream::from_str(&t).is_err() { return None }
            l[i].t = t;
        }
        "tok_wrapped" => { let t = l.remove(i); let d = *rng.pick(&['(', '[', '{']); l.insert(i, group(d, vec![t])) }
        _ => {
            let gs: Vec<usize> = (0..n).filter(|i| l[*i].g.is_some()).collect();
            if gs.is_empty() { return None }
            let i = *rng.pick(&gs);
            l[i].t = rng.pick(&["(", "[", "{"]).to_string()
        }
    }
    Some(name)
}
