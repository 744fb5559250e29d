//! C19: words delivered to many languages (keyword lists) in one process, as text, as tokens, as identifiers, alone and in
//! sequences, near misses of keywords among them, with keyword-list markers whose construction panics.
use std::cell::Cell;
use std::convert::TryFrom;
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use parsel::ast::*;
use parsel::proc_macro2::{TokenStream, TokenTree};
use parsel::{syn, Parse, Span, ToTokens};
use serde::{Deserialize, Serialize};
use crate::coll::{some_spans, USER_PANIC};
use crate::model::{brange, lex_level, TK};
use crate::out::*;
use crate::rng::Rng;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KOp { pub op: usize, #[serde(default)] pub lang: usize, #[serde(default)] pub k: usize, #[serde(default)] pub h: usize, pub words: Vec<String>, #[serde(default)] pub abort: Option<usize> }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KwPlan { pub ops: Vec<KOp> }

/// what is done with one list of words
pub struct Job<'a> { op: usize, h: usize, words: &'a [String], spans: &'a [Span], list: &'static [&'static str], own: &'static str }
pub struct Lang { words: &'static [&'static str], ident: fn(&Job) -> Result<u64, String>, kws: &'static [fn(&Job) -> Result<u64, String>] }

pub trait Kw: Copy + Parse + FromStr<Err = parsel::Error> + ToTokens + Display + Debug + Default + AsRef<str> + Into<TokenTree> + Ord + Hash + PartialEq<&'static str> {
    fn mk(s: Span) -> Self;
    fn at(&self) -> Span;
    fn put(&mut self, s: Span);
    fn name(&self) -> &'static str;
    fn tok(&self) -> Ident;
}
macro_rules! kw { ($t:ty) => { impl Kw for $t {
    fn mk(s: Span) -> Self { <$t>::new(s) }
    fn at(&self) -> Span { self.span() }
    fn put(&mut self, s: Span) { self.set_span(s) }
    fn name(&self) -> &'static str { self.as_str() }
    fn tok(&self) -> Ident { self.token() }
} } }
mod langs { use super::*; include!(concat!(env!("OUT_DIR"), "/languages.rs")); }
use langs::{LANGS, POOL};

pub fn generate(rng: &mut Rng) -> KwPlan {
    let home = rng.below(LANGS.len());
    let nops = 1 + rng.weighted(&[5, 8, 10, 12, 12, 10, 10, 8, 6, 6, 4, 4]);
    let ops = (0..nops).map(|_| {
        let lang = if rng.chance(60) { home } else { rng.below(LANGS.len()) };
        let op = rng.below(24);
        let k = rng.below(64);
        let n = if op % 8 == 6 || op % 8 == 7 { rng.below(7) } else { 1 };
        let words = (0..n).map(|_| {
            let list = LANGS[if rng.chance(75) { lang } else { rng.below(LANGS.len()) }].words;
            let own: &str = if list.is_empty() { "foo" } else if rng.chance(50) { list[k % list.len()] } else { *rng.pick(list) };
            match rng.weighted(&[40, 25, 20, 5, 4, 2]) { 0 => own.to_string(), 1 => crate::gen::misspell(rng, own), 2 => rng.pick(POOL).to_string(), 3 => { let c = rng.pick(POOL).to_string(); crate::gen::misspell(rng, &c) } 4 => rng.pick(crate::gen::WIDE).to_string(), _ => format!("{}{}", rng.pick(POOL), rng.pick(POOL)) }
        }).collect();
        KOp { op, lang, k, h: rng.below(4096), words, abort: if rng.chance(40) { Some(rng.below(3)) } else { None } }
    }).collect();
    KwPlan { ops }
}

fn word_of(ts: TokenStream) -> Option<String> { let lv = lex_level(ts, None, &mut 0); match &lv.toks[..] { [t] => match &t.k { TK::Ident(s) => Some(s.clone()), _ => None }, _ => None } }
fn ident_of(w: &str, s: Span) -> Ident { match w.strip_prefix("r#") { Some(r) => Ident::new_raw(r, s), None => Ident::new(w, s) } }
fn show(r: &Result<String, parsel::Error>) -> String { match r { Ok(w) => format!("accepted as {w:?}"), Err(e) => format!("refused: {e}") } }

/// an identifier of the language, followed through what can be done with it
fn follow<K: Clone>(x: CustomIdent<K>, w: &str, at: Option<(usize, usize)>, sp: Span) -> Result<(), String> {
    let see = |x: &CustomIdent<K>, at: Option<(usize, usize)>| -> Result<(), String> {
        if x.to_string() != w { return Err(format!("the identifier {w:?} prints as {:?}", x.to_string())) }
        if x.token().to_string() != w || Ident::from(x.clone()).to_string() != w { return Err(format!("the identifier {w:?} gives the token {:?}", x.token().to_string())) }
        if word_of(x.to_token_stream()).as_deref() != Some(w) { return Err(format!("the identifier {w:?} gives the tokens {}", x.to_token_stream())) }
        if *x != w || *x != w.to_string() || *x == format!("{w}_") { return Err(format!("the identifier {w:?} does not equal its word")) }
        if format!("{x:?}") != format!("{:?}", x.token()) { return Err(format!("the identifier {w:?} is shown as {x:?}")) }
        if let Some(at) = at {
            let all = [("span()", brange(x.span())), ("token()", brange(x.token().span())), ("Ident", brange(Ident::from(x.clone()).span())), ("to_tokens()", brange(x.to_token_stream().into_iter().next().unwrap().span()))];
            for (what, r) in all { if r != at { return Err(format!("the location of the identifier {w:?} by {what} is {r:?} instead of {at:?}")) } }
        }
        Ok(())
    };
    see(&x, at)?;
    let mut y = x.clone();
    y.set_span(sp);
    see(&y, Some(brange(sp)))?;
    see(&x, at)
}
fn identifier<K: KeywordList + Default + Clone + PartialEq>(j: &Job) -> Result<u64, String> {
    type I<K> = CustomIdent<K>;
    let is_kw = |w: &str| j.list.contains(&w);
    let sp = j.spans[j.h % j.spans.len()];
    if K::KEYWORDS != j.list { return Err(format!("the list of keywords is {:?} instead of {:?}", K::KEYWORDS, j.list)) }
    let text = j.words.join(if j.h % 3 == 0 { "  " } else { " " });
    let Ok(ts) = text.parse::<TokenStream>() else { return Ok(3) };
    if j.op % 8 >= 6 {
        // several words: the longest run of identifiers; or all of them
        let lv = lex_level(ts.clone(), None, &mut 0);
        let ws: Vec<Option<String>> = lv.toks.iter().map(|t| match &t.k { TK::Ident(s) => Some(s.clone()), _ => None }).collect();
        let run = ws.iter().take_while(|w| w.as_ref().is_some_and(|w| !is_kw(w))).count();
        let all = run == ws.len();
        let names: Vec<String> = ws[..run].iter().map(|w| w.clone().unwrap()).collect();
        let r: Result<Vec<String>, _> = if j.op % 8 == 6 { text.parse::<Any<I<K>>>().map(|v| v.iter().map(|x| x.to_string()).collect()) } else { syn::parse2::<Many<I<K>>>(ts).map(|v| v.iter().map(|x| x.to_string()).collect()) };
        match r {
            Ok(v) if all && v == names => {}
            Err(_) if !all => {}
            r => return Err(format!("the words {text:?} of which the first {run} of {} are identifiers: {r:?}", ws.len())),
        }
        return Ok(run as u64);
    }
    let w = word_of(ts.clone());
    let good = w.as_ref().filter(|w| !is_kw(w));
    let first = ts.clone().into_iter().next();
    let (r, at): (Result<I<K>, parsel::Error>, Option<(usize, usize)>) = match j.op % 8 {
        0 => (text.parse(), None),
        1 => (parsel::parse_str(&text), None),
        2 => (syn::parse2(ts.clone()), first.as_ref().map(|t| brange(t.span()))),
        3 => {
            let Some(w) = &w else { return Ok(2) };
            // any word, whatever the list; and the short ways to make one
            if !w.starts_with("r#") && w != "_" {
                follow(Word::new(w, sp), w, Some(brange(sp)), j.spans[0])?;
                follow(parsel::ast::word(w), w, Some((0, 0)), sp)?;
                let i = parsel::ast::ident(w);
                if i.to_string() != *w || brange(i.span()) != (0, 0) { return Err(format!("ident({w:?}) is {i}")) }
                if Word::new(w, sp) != parsel::ast::word(w) || Word::try_from(i).ok().as_ref() != Some(&Word::new(w, sp)) { return Err(format!("the word {w:?} differs by how it is made")) }
            }
            (I::<K>::try_from(ident_of(w, sp)), Some(brange(sp)))
        }
        4 => { let Some(TokenTree::Ident(i)) = first.clone() else { return Ok(2) }; if w.is_none() { return Ok(2) } let at = brange(i.span()); (I::<K>::try_from(i), Some(at)) }
        // inside a group, behind an optional prefix that is absent
        _ => (parsel::parse_str::<Paren<Maybe<Paren<Empty>, Empty>>>("()").and_then(|_| parsel::parse_str::<Paren<I<K>>>(&format!("( {text} )"))).map(|p| p.into_inner()), None),
    };
    match (good, r) {
        (Some(w), Ok(x)) => { follow(x, w, at, sp)?; Ok(1) }
        (None, Err(e)) => {
            if let (Some(at), Some(_)) = (at, &w) { if brange(e.span()) != at { return Err(format!("the keyword {w:?} is refused at {:?} instead of {at:?}", brange(e.span()))) } }
            Ok(0)
        }
        (_, r) => Err(format!("{text:?}, {}, is {}", match (&w, good) { (None, _) => "which is no word", (_, None) => "which is a keyword", _ => "which is no keyword" }, show(&r.map(|x| x.to_string())))),
    }
}
fn keyword<K: Kw>(j: &Job) -> Result<u64, String> {
    let own = j.own;
    let (s1, s2) = (j.spans[j.h % j.spans.len()], j.spans[j.h / 64 % j.spans.len()]);
    let see = |k: &K, at: Option<(usize, usize)>| -> Result<(), String> {
        let texts = [k.to_string(), k.name().to_string(), AsRef::<str>::as_ref(k).to_string(), k.tok().to_string(), format!("{k:?}"), k.to_token_stream().to_string(), { let t: TokenTree = (*k).into(); t.to_string() }];
        for (i, t) in texts.iter().enumerate() { if t != own { return Err(format!("the keyword {own:?} gives {t:?} (way {i})")) } }
        if word_of(k.to_token_stream()).as_deref() != Some(own) { return Err(format!("the keyword {own:?} gives the tokens {}", k.to_token_stream())) }
        let n = own.chars().count();
        if format!("{k:>a$}|{k:<a$}|{k:^n$}", a = n + 3) != format!("   {own}|{own}   |{own}") { return Err(format!("the keyword {own:?} padded is {:?}", format!("{k:>0$}", n + 3))) }
        if let Some(at) = at { let all = [brange(k.at()), brange(k.tok().span()), brange(k.to_token_stream().into_iter().next().unwrap().span())]; if all != [at; 3] { return Err(format!("the locations of the keyword {own:?} are {all:?} instead of {at:?}")) } }
        Ok(())
    };
    let text = j.words.join(" ");
    let Ok(ts) = text.parse::<TokenStream>() else { return Ok(3) };
    if j.op % 8 >= 6 {
        // several words: the run of this keyword
        let lv = lex_level(ts.clone(), None, &mut 0);
        let run = lv.toks.iter().take_while(|t| matches!(&t.k, TK::Ident(s) if s == own)).count();
        let all = run == lv.toks.len();
        let r = if j.op % 8 == 6 { text.parse::<Any<K>>().map(|v| v.len()) } else { syn::parse2::<Many<K>>(ts).map(|v| v.len()) };
        return match r { Ok(n) if all && n == run => Ok(run as u64), Err(_) if !all => Ok(0), r => Err(format!("{text:?}, of which the first {run} of {} words are the keyword {own:?}: {r:?}", lv.toks.len())) };
    }
    match j.op % 8 {
        4 => { let mut k = K::mk(s1); see(&k, Some(brange(s1)))?; let c = k; k.put(s2); see(&k, Some(brange(s2)))?; see(&c, Some(brange(s1)))?; Ok(5) }
        5 => { let k = K::default(); see(&k, Some((0, 0)))?; let r = syn::parse2::<K>(K::mk(s1).to_token_stream()).map_err(|e| format!("the keyword {own:?} is not read back from its token: {e}"))?; see(&r, Some(brange(s1)))?; Ok(6) }
        m => {
            let w = word_of(ts.clone());
            let at = ts.clone().into_iter().next().map(|t| brange(t.span()));
            let (r, at) = match m { 0 => (text.parse::<K>(), None), 1 => (parsel::parse_str::<K>(&text), None), 2 => (syn::parse2::<K>(ts), at), _ => (syn::parse_str::<Bracket<K>>(&format!("[{text}]")).map(|x| *x), None) };
            match (w.as_deref() == Some(own), r) {
                (true, Ok(k)) => { see(&k, at)?; Ok(1) }
                (false, Err(e)) => { if let (Some(at), Some(_)) = (at, &w) { if brange(e.span()) != at { return Err(format!("{text:?} is refused as keyword {own:?} at {:?} instead of {at:?}", brange(e.span()))) } } Ok(0) }
                (_, r) => Err(format!("{text:?} as the keyword {own:?} is {}", show(&r.map(|k| k.to_string())))),
            }
        }
    }
}

thread_local! { static FUSE: Cell<usize> = const { Cell::new(usize::MAX) }; }
/// a keyword list whose marker may panic when it is made
#[derive(Clone, Debug, PartialEq)]
struct Fussy;
impl Default for Fussy { fn default() -> Self { FUSE.with(|f| match f.get() { 0 => { f.set(usize::MAX); std::panic::panic_any(USER_PANIC) } usize::MAX => {} n => f.set(n - 1) }); Fussy } }
impl KeywordList for Fussy { const KEYWORDS: &'static [&'static str] = &["foo", "r#type", "_", "zzz", "fn", "A"]; }

pub fn exec(plan: &KwPlan) -> Out {
    let mut o = Out::default();
    let spans = some_spans();
    for (k, op) in plan.ops.iter().enumerate() {
        o.steps += 1;
        let lang = &LANGS[op.lang % LANGS.len()];
        let mut j = Job { op: op.op, h: op.h, words: &op.words, spans: &spans, list: lang.words, own: "" };
        let what;
        let r = catch_unwind(AssertUnwindSafe(|| {
            if op.op >= 16 && op.abort.is_some() {
                j.list = Fussy::KEYWORDS;
                FUSE.with(|f| f.set(op.abort.unwrap()));
                let r = identifier::<Fussy>(&j);
                FUSE.with(|f| f.set(usize::MAX));
                r
            } else if op.op >= 12 && !lang.kws.is_empty() {
                let i = op.k % lang.kws.len();
                j.own = lang.words[i];
                lang.kws[i](&j)
            } else { (lang.ident)(&j) }
        }));
        FUSE.with(|f| f.set(usize::MAX));
        what = format!("operation {k} ({op:?}), keywords {:?}", j.list);
        match r {
            Ok(Ok(n)) => o.log(&format!("{} {} {:?} {n};", op.op, op.lang, op.words)),
            Ok(Err(e)) => return { o.bad("word", format!("{what}: {e}")); o },
            Err(p) => { let t = panic_text(&*p); if t == USER_PANIC { o.fire("user_code_panic", 1); o.log("panic;") } else { return { o.bad("panic", format!("{what}: {t}")); o } } }
        }
        if op.words.iter().any(|w| !lang.words.contains(&w.as_str())) { o.fire("near_miss_or_foreign_word", 1) }
    }
    o.nontrivial = plan.ops.len() >= 3 || o.fired.contains_key("user_code_panic");
    o
}
