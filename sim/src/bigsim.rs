//! Part of C05 and C06: lists and chains of real items around powers of two, up to 131,073 of them, with one token
//! lost, replaced or doubled somewhere.
use std::panic::{catch_unwind, AssertUnwindSafe};
use parsel::ast::*;
use parsel::proc_macro2::TokenStream;
use parsel::syn::parse::ParseStream;
use parsel::{Parse, ToTokens};
use serde::{Deserialize, Serialize};
use crate::model::brange;
use crate::out::*;
use crate::rng::Rng;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Big { pub shape: usize, pub n: usize, #[serde(default)] pub bad: Option<usize>, #[serde(default)] pub what: usize, #[serde(default)] pub h: u64 }

pub fn generate(rng: &mut Rng, prop: &str) -> Big {
    let shape = if prop == "C06" { 5 + rng.below(2) } else { rng.below(5) };
    let k = rng.range(7, if shape > 4 { 12 } else { 17 });
    let n = (1usize << k) + rng.below(5) - 2;
    let bad = match rng.below(6) { 0 | 1 => None, 2 => Some(2 * n - 2), 3 => Some((2usize << rng.range(6, k)) + rng.below(6) - 3), _ => Some(rng.below(2 * n)) };
    Big { shape, n, bad, what: rng.below(4), h: rng.below(1 << 30) as u64 }
}

#[derive(Clone, PartialEq)]
enum T { Item(u64), Sep, Other }
struct Rest<X> { head: X, rest: TokenStream }
impl<X: Parse> Parse for Rest<X> { fn parse(input: ParseStream<'_>) -> parsel::Result<Self> { Ok(Rest { head: input.parse()?, rest: input.parse()? }) } }

pub fn exec(p: &Big, o: &mut Out) {
    // the tokens
    let seps = matches!(p.shape, 2 | 3 | 5 | 6);
    let item = |i: usize| (i as u64).wrapping_mul(2654435761).wrapping_add(p.h) % 4_294_967_291;
    let mut ts: Vec<T> = vec![];
    for i in 0..p.n { if i > 0 && seps { ts.push(T::Sep) } ts.push(T::Item(item(i))) }
    if let Some(b) = p.bad.filter(|_| !ts.is_empty()) {
        let b = b % ts.len();
        match p.what % 4 { 0 => { ts.remove(b); } 1 => ts[b] = T::Other, 2 => ts.insert(b, T::Other), _ => { let t = ts[b].clone(); ts.insert(b, t) } }
        o.fire(["big_token_lost", "big_token_replaced", "big_token_inserted", "big_token_doubled"][p.what % 4], 1);
    }
    let sep = if p.shape > 4 { "+" } else { "," };
    let paren = p.shape == 4;
    let mut text = String::new();
    let mut at = Vec::with_capacity(ts.len());
    for (i, t) in ts.iter().enumerate() {
        at.push(text.len());
        match t { T::Item(v) => if paren { text.push_str(&format!("({v})")) } else { text.push_str(&v.to_string()) }, T::Sep => text.push_str(sep), T::Other => text.push('x') }
        text.push(if i % 16 == 15 { '\n' } else { ' ' });
    }
    // what must come out: how many tokens are taken, or where the error is (None: at the end)
    let is = |i: usize| matches!(ts.get(i), Some(T::Item(_)));
    let (end, err): (usize, Option<usize>) = match p.shape {
        0 | 4 => ((0..).find(|i| !is(*i)).unwrap(), None),
        1 => { let e = (0..).find(|i| !is(*i)).unwrap(); (e, if e < ts.len() { Some(e) } else { None }) }
        2 => { let mut i = 0; loop { if i == ts.len() { break (i, None) } if !is(i) { break (i, Some(i)) } i += 1; if i == ts.len() { break (i, None) } if ts[i] != T::Sep { break (i, Some(i)) } i += 1 } }
        _ => { let mut i = 0; loop { if !is(i) { break (i, Some(i)) } i += 1; if ts.get(i) != Some(&T::Sep) { break (i, None) } i += 1 } }
    };
    let vals: Vec<u64> = ts[..end].iter().filter_map(|t| if let T::Item(v) = t { Some(*v) } else { None }).collect();
    let desc = || format!("{} of {} items ({} tokens{})", ["Any", "Many", "Punctuated", "Separated", "Any of Paren", "LeftAssoc", "RightAssoc"][p.shape.min(6)], p.n, ts.len(), p.bad.map_or(String::new(), |b| format!(", token {} {}", b % ts.len().max(1), ["lost", "replaced", "inserted", "doubled"][p.what % 4])));
    type Got = (Vec<u64>, usize, TokenStream, TokenStream);
    let r = catch_unwind(AssertUnwindSafe(|| -> parsel::Result<Got> {
        macro_rules! read { ($t:ty, $f:expr) => {{ let x: Rest<$t> = parsel::parse_str(&text)?; let f = $f; let (v, s): (Vec<u64>, usize) = f(&x.head); (v, s, x.head.to_token_stream(), x.rest) }} }
        Ok(match p.shape {
            0 => read!(Any<LitUint>, |x: &Any<LitUint>| (x.iter().map(|l| l.value()).collect(), 0)),
            1 => read!(Many<LitUint>, |x: &Many<LitUint>| (x.iter().map(|l| l.value()).collect(), 0)),
            2 => read!(Punctuated<LitUint, token::Comma>, |x: &Punctuated<LitUint, token::Comma>| (x.iter().map(|l| l.value()).collect(), x.pairs().filter(|p| p.punct().is_some()).count())),
            3 => read!(Separated<LitUint, token::Comma>, |x: &Separated<LitUint, token::Comma>| (x.iter().map(|l| l.value()).collect(), x.pairs().filter(|p| p.punct().is_some()).count())),
            4 => read!(Any<Paren<LitUint>>, |x: &Any<Paren<LitUint>>| (x.iter().map(|l| l.value()).collect(), 0)),
            5 => read!(LeftAssoc<token::Plus, LitUint>, |mut x: &LeftAssoc<token::Plus, LitUint>| { let (mut v, mut n) = (vec![], 0); loop { match x { LeftAssoc::Binary { lhs, rhs, .. } => { v.push(rhs.value()); n += 1; x = lhs } LeftAssoc::Rhs(r) => { v.push(r.value()); break } } } v.reverse(); (v, n) }),
            _ => read!(RightAssoc<token::Plus, LitUint>, |mut x: &RightAssoc<token::Plus, LitUint>| { let (mut v, mut n) = (vec![], 0); loop { match x { RightAssoc::Binary { lhs, rhs, .. } => { v.push(lhs.value()); n += 1; x = rhs } RightAssoc::Lhs(r) => { v.push(r.value()); break } } } (v, n) }),
        })
    }));
    o.steps += ts.len() as u64;
    o.nontrivial = true;
    o.probe("more_than_1000_items", (p.n > 1000) as u64);
    let cut = |s: String| s.chars().take(300).collect::<String>();
    match (r, err) {
        (Err(p), _) => o.bad("panic", format!("{}: panicked: {}", desc(), panic_text(&*p))),
        (Ok(Ok((v, ..))), Some(e)) => o.bad("big_accepted", format!("{}: {} items are returned although token {e} fails", desc(), v.len())),
        (Ok(Err(e)), None) => o.bad("big_rejected", format!("{}: is refused: {}", desc(), cut(e.to_string()))),
        (Ok(Err(e)), Some(i)) => {
            let want = at.get(i).copied().unwrap_or(0);
            if brange(e.span()).0 != want { o.bad("big_error", format!("{}: fails at token {i}, byte {want}, but the error is at byte {}: {}", desc(), brange(e.span()).0, cut(e.to_string()))) }
            o.log(&format!("err {i}"));
        }
        (Ok(Ok((v, seps, printed, rest))), None) => {
            if let Some(i) = (0..v.len().max(vals.len())).find(|i| v.get(*i) != vals.get(*i)) { o.bad("big_items", format!("{}: item {i} is {:?} instead of {:?} ({} items instead of {})", desc(), v.get(i), vals.get(i), v.len(), vals.len())) }
            let want = ts[..end].iter().filter(|t| **t == T::Sep).count();
            if seps != want { o.bad("big_items", format!("{}: {seps} separators instead of {want}", desc())) }
            let mut n = 0;
            for (t, w) in printed.into_iter().zip(&ts) {
                let t = t.to_string();
                let w = match w { T::Item(v) => if paren { format!("({v})") } else { v.to_string() }, T::Sep => sep.to_string(), T::Other => "x".into() };
                if t.replace(' ', "") != w { o.bad("big_print", format!("{}: token {n} is printed as {t:?} instead of {w:?}", desc())); break }
                n += 1;
            }
            if n != end && o.viol.is_none() { o.bad("big_print", format!("{}: {n} tokens are printed instead of {end}", desc())) }
            let left = rest.into_iter().count();
            if left != ts.len() - end { o.bad("big_rest", format!("{}: {left} tokens are left instead of {}", desc(), ts.len() - end)) }
            o.log(&format!("ok {end} {left}"));
        }
    }
    o.log(&format!("{p:?}"));
}
