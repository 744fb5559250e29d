//! Reference model: tokens, grammars (plain data), and a small PEG interpreter over them.
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use parsel::proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use parsel::Span;

pub const EOF: usize = usize::MAX;

// ---------------------------------------------------------------- tokens
#[derive(Clone, Debug, PartialEq)]
pub enum TK { Ident(String), Punct(char, bool), Lit(String), Group(char, Box<Level>) }
#[derive(Clone, Debug, PartialEq)]
pub struct Tok { pub k: TK, pub s: usize, pub e: usize, pub ord: usize }
#[derive(Clone, Debug, PartialEq)]
pub struct Level { pub toks: Vec<Tok>, pub close: Option<(usize, usize)> }

pub fn delim_ch(d: Delimiter) -> char {
    match d { Delimiter::Parenthesis => '(', Delimiter::Bracket => '[', Delimiter::Brace => '{', Delimiter::None => '~' }
}
pub fn close_ch(c: char) -> &'static str { match c { '(' => ")", '[' => "]", '{' => "}", _ => "" } }

/// byte range of a span, reliable for spans of the thread's own source map
pub fn brange(sp: Span) -> (usize, usize) { let r = sp.byte_range(); (r.start, r.end) }

pub fn lex_level(ts: TokenStream, close: Option<(usize, usize)>, ord: &mut usize) -> Level {
    let mut toks = vec![];
    for tt in ts {
        let (s, e) = brange(tt.span());
        let o = *ord;
        *ord += 1;
        let k = match tt {
            TokenTree::Ident(i) => TK::Ident(i.to_string()),
            TokenTree::Punct(p) => TK::Punct(p.as_char(), p.spacing() == Spacing::Joint),
            TokenTree::Literal(l) => TK::Lit(l.to_string()),
            TokenTree::Group(g) => {
                let c = brange(g.span_close());
                TK::Group(delim_ch(g.delimiter()), Box::new(lex_level(g.stream(), Some(c), ord)))
            }
        };
        toks.push(Tok { k, s, e, ord: o });
    }
    Level { toks, close }
}

impl Tok {
    /// the extent that a syntax error at this token is expected to have
    pub fn err_span(&self) -> (usize, usize) {
        match self.k { TK::Group(..) => (self.s, self.s + 1), _ => (self.s, self.e) }
    }
    pub fn text(&self, out: &mut Vec<String>) {
        match &self.k {
            TK::Ident(s) => out.push(s.clone()),
            TK::Lit(s) => out.push(s.clone()),
            TK::Punct(c, _) => out.push(c.to_string()),
            TK::Group(d, l) => {
                out.push(d.to_string());
                for t in &l.toks { t.text(out) }
                out.push(close_ch(*d).to_string());
            }
        }
    }
}
pub fn texts(toks: &[Tok]) -> Vec<String> {
    let mut v = vec![];
    for t in toks { t.text(&mut v) }
    v
}
pub fn stream_texts(ts: TokenStream, out: &mut Vec<String>) {
    for tt in ts {
        match tt {
            TokenTree::Group(g) => {
                let d = delim_ch(g.delimiter());
                if d != '~' { out.push(d.to_string()); }
                stream_texts(g.stream(), out);
                if d != '~' { out.push(close_ch(d).to_string()); }
            }
            TokenTree::Ident(i) => out.push(i.to_string()),
            TokenTree::Punct(p) => out.push(p.as_char().to_string()),
            TokenTree::Literal(l) => out.push(l.to_string()),
        }
    }
}

// ---------------------------------------------------------------- literals (independent decoder)
#[derive(Clone, Debug, PartialEq)]
pub enum LV { Int(i128), Big, Float(u64), Str(String), Bytes(Vec<u8>), Char(char), Byte(u8), CStr, Odd }

fn unescape(body: &str, bytes: bool) -> Option<Vec<u8>> {
    // returns UTF-8 (or raw) bytes of the content of a cooked literal
    let mut out = vec![];
    let cs: Vec<char> = body.chars().collect();
    let mut i = 0;
    let put = |out: &mut Vec<u8>, c: char| { let mut b = [0; 4]; out.extend_from_slice(c.encode_utf8(&mut b).as_bytes()); };
    while i < cs.len() {
        let c = cs[i];
        if c == '\r' && i + 1 < cs.len() && cs[i + 1] == '\n' { out.push(b'\n'); i += 2; continue; }
        if c != '\\' { put(&mut out, c); i += 1; continue; }
        i += 1;
        match *cs.get(i)? {
            'n' => out.push(b'\n'), 'r' => out.push(b'\r'), 't' => out.push(b'\t'), '\\' => out.push(b'\\'),
            '0' => out.push(0), '\'' => out.push(b'\''), '"' => out.push(b'"'),
            'x' => {
                let h: String = cs.get(i + 1..i + 3)?.iter().collect();
                let v = u8::from_str_radix(&h, 16).ok()?;
                if bytes || v < 0x80 { out.push(v) } else { return None }
                i += 2;
            }
            'u' => {
                let mut h = String::new();
                i += 2;
                while *cs.get(i)? != '}' { if cs[i] != '_' { h.push(cs[i]); } i += 1; }
                put(&mut out, char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            '\n' | '\r' => {
                while i < cs.len() && matches!(cs[i], ' ' | '\t' | '\n' | '\r') { i += 1; }
                continue;
            }
            _ => return None,
        }
        i += 1;
    }
    Some(out)
}

/// Decode the text of one literal token (no sign).
pub fn decode(t: &str) -> LV {
    let (pre, rest) = if let Some(r) = t.strip_prefix("br") { ("br", r) } else if let Some(r) = t.strip_prefix("cr") { ("cr", r) }
        else if t.starts_with("b\"") || t.starts_with("b'") { ("b", &t[1..]) } else if t.starts_with("c\"") { ("c", &t[1..]) }
        else if t.starts_with("r\"") || t.starts_with("r#") { ("r", &t[1..]) } else { ("", t) };
    if pre.starts_with('c') { return LV::CStr; }
    if pre.ends_with('r') {
        let hashes = rest.chars().take_while(|c| *c == '#').count();
        let close = format!("\"{}", "#".repeat(hashes));
        let body = &rest[hashes + 1..];
        let Some(end) = body.rfind(&close) else { return LV::Odd };
        let b = body[..end].to_string();
        return if pre == "br" { LV::Bytes(b.into_bytes()) } else { LV::Str(b) };
    }
    if let Some(r) = rest.strip_prefix('"') {
        // find the closing quote
        let mut esc = false;
        let mut end = None;
        for (i, c) in r.char_indices() {
            if esc { esc = false } else if c == '\\' { esc = true } else if c == '"' { end = Some(i); break }
        }
        let Some(end) = end else { return LV::Odd };
        return match (unescape(&r[..end], pre == "b"), pre) {
            (Some(b), "b") => LV::Bytes(b),
            (Some(b), _) => String::from_utf8(b).map_or(LV::Odd, LV::Str),
            _ => LV::Odd,
        };
    }
    if let Some(r) = rest.strip_prefix('\'') {
        let end = if r.starts_with('\\') { 1 + r[2..].find('\'').map_or(0, |i| i + 1) } else { r.chars().next().map_or(0, char::len_utf8) };
        return match (unescape(&r[..end], pre == "b"), pre) {
            (Some(b), "b") if b.len() == 1 => LV::Byte(b[0]),
            (Some(b), "") => std::str::from_utf8(&b).ok().and_then(|s| { let mut c = s.chars(); c.next().filter(|_| c.next().is_none()) }).map_or(LV::Odd, LV::Char),
            _ => LV::Odd,
        };
    }
    // numbers
    let (radix, digits) = if let Some(r) = t.strip_prefix("0x") { (16, r) } else if let Some(r) = t.strip_prefix("0o") { (8, r) }
        else if let Some(r) = t.strip_prefix("0b") { (2, r) } else { (10, t) };
    if !t.starts_with(|c: char| c.is_ascii_digit()) { return LV::Odd; }
    if radix == 10 {
        // split mantissa/exponent from suffix
        let b: Vec<char> = digits.chars().collect();
        let mut i = 0;
        let (mut dot, mut exp) = (false, false);
        let mut num = String::new();
        while i < b.len() {
            match b[i] {
                '0'..='9' => num.push(b[i]),
                '_' => {}
                '.' if !dot && !exp => { dot = true; num.push('.') }
                'e' | 'E' if !exp => {
                    let mut j = i + 1;
                    while j < b.len() && b[j] == '_' { j += 1 }
                    let sign = j;
                    if j < b.len() && (b[j] == '+' || b[j] == '-') { j += 1 }
                    while j < b.len() && b[j] == '_' { j += 1 }
                    if j < b.len() && b[j].is_ascii_digit() { exp = true; num.push('e'); if matches!(b[sign], '+' | '-') { num.push(b[sign]); i = sign; } } else { break }
                }
                _ => break,
            }
            i += 1;
        }
        let suffix: String = b[i..].iter().collect();
        // as in syn, "1f32" is an integer with a suffix
        let _ = suffix;
        if dot || exp {
            return num.parse::<f64>().map_or(LV::Odd, |f| LV::Float(f.to_bits()));
        }
        return num.parse::<u128>().ok().and_then(|v| i128::try_from(v).ok()).map_or(LV::Big, LV::Int);
    }
    let mut v: u128 = 0;
    for c in digits.chars() {
        if c == '_' { continue }
        let Some(d) = c.to_digit(radix) else { break };
        v = match v.checked_mul(radix as u128).and_then(|x| x.checked_add(d as u128)) { Some(x) => x, None => return LV::Big };
    }
    i128::try_from(v).map_or(LV::Big, LV::Int)
}

/// Canonical form of a token text: literals by value, everything else verbatim.
pub fn canon(t: &str) -> String {
    if t.starts_with(|c: char| c.is_ascii_digit()) || t.contains(['"', '\'']) {
        match decode(t) { LV::Odd | LV::CStr | LV::Big => t.to_string(), v => format!("<{:?}>", v) }
    } else { t.to_string() }
}

// ---------------------------------------------------------------- grammars
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum TC { Any, Id, Kw(String), Int, Str, P(char), Grp(char) }

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum RL {
    Empty, Eof, NotEof, Bool, Byte, Int, Uint, Float, Char, Str, ByteStr, Lit, Word, CIdent, KwAlpha, KwBeta, KwUnder,
    CIdent2, CIdent3, CIdent4, Kw2Fn, Kw2X, Kw2Gamma, Kw2Type, Kw2True, Kw2Self, Kw2Upper, Kw2Longer, Kw3Beta, Kw3X, Kw3Gap, Kw4A,
    Ident, Comma, Semi, Plus, Minus, Arrow, AndAnd, EqEq, Colon2, Fn, Let,
    OrOr, Not, Colon, Eq, Lt, Gt, Dot, Star, Slash, Pub, Mut, If, Else, Return,
    /// raw token types: everything up to the end of the level, any one token, any punctuation mark, literal or group
    Rest, OneTree, OnePunct, OneLit, OneGroup,
    /// a lifetime; a token or nothing
    Life, OptSemi, OptFn,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum K {
    Sim { id: u32, pat: Vec<TC> },
    Real(RL),
    Either, Maybe, Any, Sep, Punct, Many, LA, RA, Paren, Bracket, Brace,
    Zoo(usize),
    /// a derived production of a fixed grammar: index into the caller's table (model only)
    Prod(usize),
    /// model-only sequence/choice used for fixed grammars (`Box<T>`, type aliases)
    Ref(usize),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct GN { pub g: K, #[serde(default, skip_serializing_if = "Vec::is_empty")] pub kids: Vec<GN> }

impl GN {
    pub fn new(g: K, kids: Vec<GN>) -> GN { GN { g, kids } }
    pub fn size(&self) -> usize { 1 + self.kids.iter().map(GN::size).sum::<usize>() }
    pub fn max_ref(&self) -> usize {
        let own = if let K::Ref(r) = self.g { r + 1 } else { 0 };
        self.kids.iter().map(GN::max_ref).fold(own, usize::max)
    }
}

pub struct VarMeta { pub name: &'static str, pub fields: &'static [(&'static str, usize)] }
pub struct ZooMeta { pub name: &'static str, pub is_enum: bool, pub nslots: usize, pub variants: &'static [VarMeta] }

pub struct Node { pub k: K, pub kids: Vec<usize> }
pub struct Arena { pub n: Vec<Node>, pub rules: Vec<usize>, pub zoo: &'static [ZooMeta] }

impl Arena {
    pub fn new(rules: &[GN], zoo: &'static [ZooMeta]) -> Option<Arena> { Arena::unchecked(rules, zoo).filter(Arena::valid) }
    /// without the check for unbounded recursion
    pub fn unchecked(rules: &[GN], zoo: &'static [ZooMeta]) -> Option<Arena> {
        fn add(a: &mut Vec<Node>, g: &GN) -> usize {
            let id = a.len();
            a.push(Node { k: g.g.clone(), kids: vec![] });
            let kids = g.kids.iter().map(|k| add(a, k)).collect();
            a[id].kids = kids;
            id
        }
        let mut n = vec![];
        let mut roots = vec![];
        for r in rules { roots.push(add(&mut n, r)); }
        // resolve references to rule roots
        for i in 0..n.len() {
            let kids = n[i].kids.clone();
            let nk = kids.into_iter().map(|k| match n[k].k { K::Ref(r) => roots.get(r).copied(), _ => Some(k) }).collect::<Option<Vec<_>>>()?;
            n[i].kids = nk;
        }
        for r in &roots { if let K::Ref(_) = n[*r].k { return None } }
        Some(Arena { n, rules: roots, zoo })
    }
    pub fn arity(&self, k: &K) -> usize {
        match k {
            K::Sim { .. } | K::Real(_) | K::Ref(_) => 0,
            K::Any | K::Many | K::Paren | K::Bracket | K::Brace => 1,
            K::Either | K::Maybe | K::Sep | K::Punct | K::LA | K::RA => 2,
            K::Zoo(z) | K::Prod(z) => self.zoo.get(*z).map_or(usize::MAX, |m| m.nslots),
        }
    }
    fn nullable_all(&self) -> Vec<bool> {
        let mut v = vec![false; self.n.len()];
        loop {
            let mut changed = false;
            for i in 0..self.n.len() {
                let x = &self.n[i];
                let k = |j: usize| v[x.kids[j]];
                let r = match &x.k {
                    K::Sim { .. } => false,
                    K::Real(r) => matches!(r, RL::Empty | RL::Eof | RL::NotEof | RL::Rest | RL::OptSemi | RL::OptFn),
                    K::Either => k(0) || k(1),
                    K::Maybe | K::Any | K::Punct | K::Many => true,
                    K::Sep => k(0),
                    K::LA | K::RA => k(1),
                    K::Paren | K::Bracket | K::Brace => false,
                    K::Zoo(z) | K::Prod(z) => self.zoo[*z].variants.iter().any(|vm| vm.fields.iter().all(|f| k(f.1))),
                    K::Ref(_) => false,
                };
                if r && !v[i] { v[i] = true; changed = true; }
            }
            if !changed { return v; }
        }
    }
    /// no left recursion, every repetition item consumes input, arities match
    fn valid(&self) -> bool {
        for x in &self.n {
            if let K::Ref(_) = x.k { continue }
            if self.arity(&x.k) != x.kids.len() { return false; }
            if let K::Sim { pat, .. } = &x.k { if pat.is_empty() { return false; } }
        }
        let nul = self.nullable_all();
        for x in &self.n {
            let bad = match x.k {
                K::Any | K::Many => nul[x.kids[0]],
                K::Sep | K::Punct => nul[x.kids[0]],
                K::LA | K::RA => nul[x.kids[1]],
                _ => false,
            };
            if bad { return false; }
        }
        // cycles that do not pass a delimiter
        let mut state = vec![0u8; self.n.len()];
        fn dfs(a: &Arena, i: usize, st: &mut [u8]) -> bool {
            if st[i] == 1 { return false }
            if st[i] == 2 { return true }
            st[i] = 1;
            let ok = match a.n[i].k {
                K::Paren | K::Bracket | K::Brace => true,
                _ => a.n[i].kids.iter().all(|k| dfs(a, *k, st)),
            };
            st[i] = 2;
            ok
        }
        (0..self.n.len()).all(|i| dfs(self, i, &mut state))
    }
}

// ---------------------------------------------------------------- trees
#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Leaf(Vec<String>),
    Seq(usize, Vec<Tree>),
    Left(Box<Tree>),
    Right(Box<Tree>),
    None,
    Some(Box<(Tree, Tree)>),
    /// items, separators (a trailing one included)
    List(Vec<Tree>, Vec<Tree>),
    /// operand/operator chain
    Chain(bool, Vec<Tree>, Vec<Tree>),
    Delim(char, Box<Tree>),
}
impl Tree {
    /// the token texts the tree stands for
    pub fn flat(&self, out: &mut Vec<String>) {
        match self {
            Tree::Leaf(v) => out.extend(v.iter().cloned()),
            Tree::Seq(_, v) => v.iter().for_each(|t| t.flat(out)),
            Tree::Left(t) | Tree::Right(t) => t.flat(out),
            Tree::None => {}
            Tree::Some(b) => { b.0.flat(out); b.1.flat(out) }
            Tree::List(a, b) | Tree::Chain(_, a, b) => for i in 0..a.len() {
                a[i].flat(out);
                if let Some(s) = b.get(i) { s.flat(out) }
            },
            Tree::Delim(c, t) => { out.push(c.to_string()); t.flat(out); out.push(close_ch(*c).to_string()) }
        }
    }
}

// ---------------------------------------------------------------- faults
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FK { FailAfter(usize), Reject, OverConsume, Panic,
    /// rejects after parsing, with an error that covers all of what was parsed
    RejectWide }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct LeafFault { pub leaf: u32, pub tok: usize, pub f: FK }

// ---------------------------------------------------------------- the PEG interpreter
#[derive(Clone, Debug)]
pub struct MErr {
    pub span: (usize, usize),
    pub eof: bool,
    pub origin: (usize, usize),
    pub chain: Vec<(usize, usize, usize)>, // production, variant, field; innermost first while building
    pub alt: bool,
}
impl MErr { fn rank(&self) -> usize { if self.eof { EOF } else { self.span.1 } } }
pub struct MOk { pub tree: Tree, pub i: usize, pub poison: Option<usize> }
pub enum MFail { Err(Vec<MErr>), Panic, Budget }
pub type MRes = Result<MOk, MFail>;

#[derive(Default)]
pub struct Probes { pub fired: HashMap<&'static str, u64>, pub events: HashMap<&'static str, u64> }

pub struct Model<'a> {
    pub a: &'a Arena,
    pub faults: HashMap<(u32, usize), FK>,
    pub steps: usize,
    pub budget: usize,
    pub attempts: HashMap<(usize, usize), usize>,
    /// (node, start) -> end token index reached there: extents of successfully parsed nodes (last one wins)
    pub fired: HashMap<&'static str, u64>,
    pub probes: HashMap<&'static str, u64>,
    pub spans: Option<Vec<SpanNode>>,
}
/// extent of a node of the accepted tree, in pre-order (only with `spans`)
#[derive(Clone, Debug)]
pub struct SpanNode { pub range: Option<(usize, usize)> }

pub fn tc_match(tc: &TC, t: &Tok) -> bool {
    match (tc, &t.k) {
        (TC::Any, _) => true,
        (TC::Id, TK::Ident(_)) => true,
        (TC::Kw(k), TK::Ident(s)) => k == s,
        (TC::Int, TK::Lit(l)) => l.starts_with(|c: char| c.is_ascii_digit()),
        (TC::Str, TK::Lit(l)) => l.starts_with('"'),
        (TC::P(c), TK::Punct(d, _)) => c == d,
        (TC::Grp(c), TK::Group(d, _)) => c == d,
        _ => false,
    }
}

pub fn pos_at(lv: &Level, i: usize) -> usize {
    match lv.toks.get(i) { Some(t) => t.s, None => lv.close.map_or(EOF, |c| c.0) }
}

const RUST_KW: &[&str] = &["abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do", "dyn", "else",
    "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override",
    "priv", "pub", "ref", "return", "Self", "self", "static", "struct", "super", "trait", "true", "try", "type", "typeof", "unsafe",
    "unsized", "use", "virtual", "where", "while", "yield", "_"];

pub fn rl_punct(r: RL) -> Option<&'static str> {
    Some(match r {
        RL::Comma => ",", RL::Semi => ";", RL::Plus => "+", RL::Minus => "-", RL::Arrow => "->", RL::AndAnd => "&&", RL::EqEq => "==",
        RL::Colon2 => "::", RL::OrOr => "||", RL::Not => "!", RL::Colon => ":", RL::Eq => "=", RL::Lt => "<", RL::Gt => ">", RL::Dot => ".",
        RL::Star => "*", RL::Slash => "/",
        _ => return None,
    })
}
pub fn rl_kw(r: RL) -> Option<&'static str> {
    Some(match r {
        RL::Fn => "fn", RL::Let => "let", RL::KwAlpha => "alpha", RL::KwBeta => "beta", RL::KwUnder => "_",
        RL::Kw2Fn => "fn", RL::Kw2X | RL::Kw3X => "x", RL::Kw2Gamma => "gamma", RL::Kw2Type => "r#type", RL::Kw2True => "true", RL::Kw2Self => "self",
        RL::Kw2Upper => "Alpha", RL::Kw2Longer => "alpha_", RL::Kw3Beta => "beta", RL::Kw3Gap => "_", RL::Kw4A => "a",
        RL::Pub => "pub", RL::Mut => "mut",
        RL::If => "if", RL::Else => "else", RL::Return => "return",
        _ => return None,
    })
}

/// outcome of a real leaf: Ok(tokens consumed) or Err(extent of the error in tokens: None = at the current token)
pub fn real_leaf(r: RL, lv: &Level, i: usize) -> Result<usize, Option<(usize, usize)>> {
    let t = lv.toks.get(i);
    let at = |j: usize| lv.toks.get(j).map(|t| &t.k);
    if let Some(p) = rl_punct(r) {
        let cs: Vec<char> = p.chars().collect();
        for (j, c) in cs.iter().enumerate() {
            match at(i + j) {
                Some(TK::Punct(d, joint)) if d == c && (*joint || j + 1 == cs.len()) => {}
                _ => return Err(None),
            }
        }
        return Ok(cs.len());
    }
    if let Some(k) = rl_kw(r) {
        return match at(i) { Some(TK::Ident(s)) if s == k => Ok(1), _ => Err(None) };
    }
    // literals, possibly signed
    let signed = |j: usize| -> Option<(bool, LV, usize)> {
        match at(j) {
            Some(TK::Lit(s)) => Some((false, decode(s), 1)),
            Some(TK::Punct('-', _)) => match at(j + 1) {
                Some(TK::Lit(s)) => match decode(s) { v @ (LV::Int(_) | LV::Big | LV::Float(_)) => Some((true, v, 2)), _ => None },
                _ => None,
            },
            _ => None,
        }
    };
    let ext = |n: usize| Some((lv.toks[i].s, lv.toks[i + n - 1].e));
    match r {
        RL::Empty => Ok(0),
        RL::Rest => Ok(lv.toks.len().saturating_sub(i)),
        RL::OptSemi => Ok(matches!(at(i), Some(TK::Punct(';', _))) as usize),
        RL::OptFn => Ok(matches!(at(i), Some(TK::Ident(s)) if s == "fn") as usize),
        RL::Life => (matches!(at(i), Some(TK::Punct('\'', true))) && matches!(at(i + 1), Some(TK::Ident(_)))).then_some(2).ok_or(None),
        RL::OneTree => t.is_some().then_some(1).ok_or(None),
        RL::OnePunct => matches!(at(i), Some(TK::Punct(c, _)) if *c != '\'').then_some(1).ok_or(None),
        RL::OneLit => matches!(at(i), Some(TK::Lit(_))).then_some(1).ok_or(None),
        RL::OneGroup => matches!(at(i), Some(TK::Group(..))).then_some(1).ok_or(None),
        RL::Eof => if t.is_none() { Ok(0) } else { Err(None) },
        RL::NotEof => if t.is_some() { Ok(0) } else { Err(None) },
        RL::Word => matches!(at(i), Some(TK::Ident(_))).then_some(1).ok_or(None),
        RL::Ident => match at(i) { Some(TK::Ident(s)) if !RUST_KW.contains(&s.as_str()) => Ok(1), _ => Err(None) },
        RL::CIdent | RL::CIdent2 | RL::CIdent3 | RL::CIdent4 => match at(i) {
            Some(TK::Ident(s)) if match r {
                RL::CIdent => &["alpha", "beta", "_"][..],
                RL::CIdent2 => &["fn", "x", "gamma", "r#type", "true", "self", "Alpha", "alpha_"],
                RL::CIdent3 => &["beta", "x", "_"],
                _ => &["a"],
            }.contains(&s.as_str()) => Err(ext(1)),
            Some(TK::Ident(_)) => Ok(1),
            _ => Err(None),
        },
        RL::Bool => match at(i) { Some(TK::Ident(s)) if s == "true" || s == "false" => Ok(1), _ => Err(None) },
        RL::Int => match signed(i) {
            Some((neg, LV::Int(v), n)) => { let v = if neg { -v } else { v }; if i64::try_from(v).is_ok() { Ok(n) } else { Err(ext(n)) } }
            Some((_, LV::Big, n)) => Err(ext(n)),
            _ => Err(None),
        },
        RL::Uint => match signed(i) {
            Some((false, LV::Int(v), n)) if u64::try_from(v).is_ok() => Ok(n),
            Some((_, LV::Int(_) | LV::Big, n)) => Err(ext(n)),
            _ => Err(None),
        },
        RL::Float => match signed(i) {
            Some((_, LV::Float(b), n)) => if f64::from_bits(b).is_finite() { Ok(n) } else { Err(ext(n)) },
            _ => Err(None),
        },
        RL::Char => match signed(i) { Some((false, LV::Char(_), n)) => Ok(n), _ => Err(None) },
        RL::Byte => match signed(i) { Some((false, LV::Byte(_), n)) => Ok(n), _ => Err(None) },
        RL::Str => match signed(i) { Some((false, LV::Str(_), n)) => Ok(n), _ => Err(None) },
        RL::ByteStr => match signed(i) { Some((false, LV::Bytes(_), n)) => Ok(n), _ => Err(None) },
        RL::Lit => match at(i) {
            Some(TK::Ident(s)) if s == "true" || s == "false" => Ok(1),
            _ => match signed(i) {
                Some((neg, LV::Int(v), n)) => { let ok = if neg { i64::try_from(-v).is_ok() } else { u64::try_from(v).is_ok() }; if ok { Ok(n) } else { Err(ext(n)) } }
                Some((_, LV::Float(b), n)) => if f64::from_bits(b).is_finite() { Ok(n) } else { Err(ext(n)) },
                Some((_, LV::Big | LV::CStr | LV::Odd, n)) => Err(ext(n)),
                Some((false, _, n)) => Ok(n),
                _ => Err(None),
            },
        },
        _ => unreachable!(),
    }
}

impl<'a> Model<'a> {
    pub fn new(a: &'a Arena, faults: &[LeafFault], budget: usize) -> Self {
        Model {
            a, faults: faults.iter().map(|f| ((f.leaf, f.tok), f.f.clone())).collect(), steps: 0, budget,
            attempts: HashMap::new(), fired: HashMap::new(), probes: HashMap::new(), spans: None,
        }
    }
    fn err_at(&self, n: usize, start: usize, lv: &Level, i: usize) -> MFail {
        let (span, eof) = match lv.toks.get(i) {
            Some(t) => (t.err_span(), false),
            None => match lv.close { Some(c) => (c, false), None => ((EOF, EOF), true) },
        };
        MFail::Err(vec![MErr { span, eof, origin: (n, start), chain: vec![], alt: false }])
    }
    fn hit(&mut self, p: &'static str) { *self.probes.entry(p).or_insert(0) += 1; }

    pub fn parse(&mut self, n: usize, lv: &Level, i: usize) -> MRes {
        self.steps += 1;
        if self.steps > self.budget { return Err(MFail::Budget); }
        let start = pos_at(lv, i);
        *self.attempts.entry((n, start)).or_insert(0) += 1;
        let slot = self.spans.as_mut().map(|v| { v.push(SpanNode { range: None }); v.len() - 1 });
        let r = self.parse_inner(n, lv, i, start);
        if let Some(s) = slot {
            match &r {
                Ok(ok) if ok.i > i => self.spans.as_mut().unwrap()[s].range = Some((lv.toks[i].s, lv.toks[ok.i - 1].e)),
                Ok(_) => {}
                Err(_) => self.spans.as_mut().unwrap().truncate(s),
            }
        }
        r
    }

    fn parse_inner(&mut self, n: usize, lv: &Level, i: usize, start: usize) -> MRes {
        let a = self.a;
        let node = &a.n[n];
        let kids = &node.kids;
        match &node.k {
            K::Sim { id, pat } => {
                let f = lv.toks.get(i).and_then(|t| self.faults.get(&(*id, t.ord))).cloned();
                if let Some(FK::Panic) = f { *self.fired.entry("leaf_panic").or_insert(0) += 1; return Err(MFail::Panic); }
                let lim = if let Some(FK::FailAfter(k)) = f { k.min(pat.len()) } else { pat.len() };
                for j in 0..lim {
                    match lv.toks.get(i + j) {
                        Some(t) if tc_match(&pat[j], t) => {}
                        _ => return Err(self.err_at(n, start, lv, i + j)),
                    }
                }
                let mut end = i + pat.len();
                match f {
                    Some(FK::FailAfter(_)) => {
                        *self.fired.entry("leaf_fail_after_k").or_insert(0) += 1;
                        return Err(self.err_at(n, start, lv, i + lim));
                    }
                    Some(FK::Reject) => {
                        *self.fired.entry("leaf_reject_after_parse").or_insert(0) += 1;
                        return Err(self.err_at(n, start, lv, i));
                    }
                    Some(FK::RejectWide) => {
                        *self.fired.entry("leaf_reject_whole_text").or_insert(0) += 1;
                        let MFail::Err(mut e) = self.err_at(n, start, lv, i) else { unreachable!() };
                        e[0].span = (lv.toks[i].s, lv.toks[i + pat.len() - 1].e);
                        return Err(MFail::Err(e));
                    }
                    Some(FK::OverConsume) => {
                        if lv.toks.get(end).is_some() { end += 1; *self.fired.entry("leaf_over_consume").or_insert(0) += 1; }
                    }
                    _ => {}
                }
                Ok(MOk { tree: Tree::Leaf(texts(&lv.toks[i..end])), i: end, poison: None })
            }
            K::Real(r) => match real_leaf(*r, lv, i) {
                Ok(c) => {
                    let mut t: Vec<String> = texts(&lv.toks[i..i + c]).iter().map(|s| canon(s)).collect();
                    // a negative zero is the integer zero
                    if matches!(r, RL::Int | RL::Lit) && t.len() == 2 && t[1] == canon("0") { t.remove(0); self.hit(if *r == RL::Int { "signed_zero_int" } else { "signed_zero_lit" }); }
                    Ok(MOk { tree: Tree::Leaf(t), i: i + c, poison: None })
                }
                Err(None) => Err(self.err_at(n, start, lv, i)),
                Err(Some(span)) => Err(MFail::Err(vec![MErr { span, eof: false, origin: (n, start), chain: vec![], alt: false }])),
            },
            K::Either => {
                let e1 = match self.parse(kids[0], lv, i) {
                    Ok(o) => return Ok(MOk { tree: Tree::Left(Box::new(o.tree)), ..o }),
                    Err(MFail::Err(e)) => e,
                    Err(x) => return Err(x),
                };
                match self.parse(kids[1], lv, i) {
                    Ok(o) => { self.hit("alt_backtracked"); Ok(MOk { tree: Tree::Right(Box::new(o.tree)), ..o }) }
                    Err(MFail::Err(e2)) => { self.hit("alt_all_failed"); Err(MFail::Err(farthest(vec![e1, e2]))) }
                    Err(x) => Err(x),
                }
            }
            K::Maybe => match self.parse(kids[0], lv, i) {
                Err(MFail::Err(e)) => {
                    if e.iter().any(|e| e.rank() != EOF && e.span.0 > start) { self.hit("maybe_prefix_failed_midway") }
                    Ok(MOk { tree: Tree::None, i, poison: None })
                }
                Err(x) => Err(x),
                Ok(p) => {
                    let b = self.parse(kids[1], lv, p.i);
                    if b.is_err() { self.hit("maybe_body_failed") } else { self.hit("maybe_present") }
                    let b = b?;
                    Ok(MOk { tree: Tree::Some(Box::new((p.tree, b.tree))), i: b.i, poison: p.poison.or(b.poison) })
                }
            },
            K::Any => {
                let (mut items, mut i, mut poison) = (vec![], i, None);
                loop {
                    match self.parse(kids[0], lv, i) {
                        Ok(o) => { items.push(o.tree); i = o.i; poison = poison.or(o.poison); }
                        Err(MFail::Err(e)) => {
                            if e.iter().any(|e| e.rank() != EOF && e.span.0 > pos_at(lv, i)) { self.hit("any_item_failed_midway") }
                            break;
                        }
                        Err(x) => return Err(x),
                    }
                }
                Ok(MOk { tree: Tree::List(items, vec![]), i, poison })
            }
            K::Sep | K::LA | K::RA => {
                let (item, sep) = if node.k == K::Sep { (kids[0], kids[1]) } else { (kids[1], kids[0]) };
                let o = self.parse(item, lv, i)?;
                let (mut items, mut seps, mut i, mut poison) = (vec![o.tree], vec![], o.i, o.poison);
                loop {
                    match self.parse(sep, lv, i) {
                        Ok(s) => {
                            poison = poison.or(s.poison);
                            let o = match self.parse(item, lv, s.i) { Ok(o) => o, Err(e) => { self.hit("item_failed_after_separator"); return Err(e) } };
                            items.push(o.tree);
                            seps.push(s.tree);
                            i = o.i;
                            poison = poison.or(o.poison);
                        }
                        Err(MFail::Err(_)) => break,
                        Err(x) => return Err(x),
                    }
                }
                if items.len() > 64 { self.hit("long_chain") }
                let tree = match node.k { K::Sep => Tree::List(items, seps), K::LA => Tree::Chain(true, items, seps), _ => Tree::Chain(false, items, seps) };
                Ok(MOk { tree, i, poison })
            }
            K::Punct | K::Many => {
                let (mut items, mut seps, mut i, mut poison) = (vec![], vec![], i, None);
                while i < lv.toks.len() {
                    let o = self.parse(kids[0], lv, i)?;
                    items.push(o.tree);
                    i = o.i;
                    poison = poison.or(o.poison);
                    if i >= lv.toks.len() { break }
                    if node.k == K::Punct {
                        let s = self.parse(kids[1], lv, i)?;
                        seps.push(s.tree);
                        i = s.i;
                        poison = poison.or(s.poison);
                    } else {
                        seps.push(Tree::Leaf(vec![]));
                    }
                }
                if items.len() > 64 { self.hit("long_chain") }
                Ok(MOk { tree: Tree::List(items, seps), i, poison })
            }
            K::Paren | K::Bracket | K::Brace => {
                let d = match node.k { K::Paren => '(', K::Bracket => '[', _ => '{' };
                match lv.toks.get(i).map(|t| &t.k) {
                    Some(TK::Group(c, inner)) if *c == d => {
                        let o = self.parse(kids[0], inner, 0)?;
                        let mut poison = o.poison;
                        if poison.is_none() && o.i < inner.toks.len() { poison = Some(inner.toks[o.i].s); self.hit("group_leftover") }
                        Ok(MOk { tree: Tree::Delim(d, Box::new(o.tree)), i: i + 1, poison })
                    }
                    _ => Err(self.err_at(n, start, lv, i)),
                }
            }
            K::Zoo(z) | K::Prod(z) => {
                let m = &a.zoo[*z];
                let mut errs = vec![];
                'v: for (vi, v) in m.variants.iter().enumerate() {
                    let (mut j, mut ts, mut poison) = (i, vec![], None);
                    let mark = self.spans.as_ref().map(Vec::len);
                    for (fi, (_, slot)) in v.fields.iter().enumerate() {
                        match self.parse(kids[*slot], lv, j) {
                            Ok(o) => { ts.push(o.tree); j = o.i; poison = poison.or(o.poison); }
                            Err(MFail::Err(mut e)) => {
                                if fi > 0 { self.hit("field_failed_after_others") }
                                for x in &mut e { x.chain.push((*z, vi, fi)) }
                                errs.push(e);
                                if let Some(v) = &mut self.spans { v.truncate(mark.unwrap()) }
                                continue 'v;
                            }
                            Err(x) => return Err(x),
                        }
                    }
                    if vi > 0 { self.hit("alt_backtracked") }
                    return Ok(MOk { tree: Tree::Seq(vi, ts), i: j, poison });
                }
                if m.is_enum && m.variants.len() > 1 {
                    self.hit("alt_all_failed");
                    Err(MFail::Err(farthest(errs)))
                } else {
                    Err(MFail::Err(errs.pop().unwrap()))
                }
            }
            K::Ref(_) => unreachable!("unresolved reference"),
        }
    }
}

fn farthest(alts: Vec<Vec<MErr>>) -> Vec<MErr> {
    let all: Vec<MErr> = alts.into_iter().flatten().collect();
    let best = all.iter().map(MErr::rank).max().unwrap();
    all.into_iter().filter(|e| e.rank() == best).map(|mut e| { e.alt = true; e }).collect()
}
