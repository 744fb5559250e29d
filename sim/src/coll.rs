//! C12, C13: histories of operations on the container nodes, with user code (iterators, `Default`, `Clone`,
//! closures) that panics at chosen points, against list models.
use std::borrow::{Borrow, BorrowMut};
use std::cell::Cell;
use std::convert::TryFrom;
use std::iter::FromIterator;
use std::ops::DerefMut;
use std::panic::{catch_unwind, AssertUnwindSafe};
use parsel::ast::{token, Any, Brace, Bracket, Either, LeftAssoc, Maybe, Paren, Punctuated, RightAssoc, Separated};
use parsel::proc_macro2::{Delimiter, Ident, TokenStream, TokenTree};
use parsel::syn::punctuated::{Pair, Punctuated as SynP};
use parsel::{Span, ToTokens};
use serde::{Deserialize, Serialize};
use crate::model::stream_texts;
use crate::out::*;
use crate::rng::{mix, Rng};

pub const USER_PANIC: &str = "SIMULATED USER PANIC";
thread_local! {
    static FUSE: Cell<usize> = const { Cell::new(usize::MAX) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
    /// elements and separators alive on this thread
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static NEXT_DEFAULT: Cell<u32> = const { Cell::new(0) };
}
/// every call into user code goes through here
fn user() {
    CALLS.with(|c| c.set(c.get() + 1));
    FUSE.with(|f| match f.get() { 0 => { f.set(usize::MAX); std::panic::panic_any(USER_PANIC) } usize::MAX => {} n => f.set(n - 1) })
}
#[derive(Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct E(u32);
#[derive(Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct S(u32);
fn born() { LIVE.with(|l| l.set(l.get() + 1)) }
fn dead() { let _ = LIVE.try_with(|l| l.set(l.get() - 1)); }
impl E { fn n(x: u32) -> E { born(); E(x) } }
impl S { fn n(x: u32) -> S { born(); S(x) } }
impl Drop for E { fn drop(&mut self) { dead() } }
impl Drop for S { fn drop(&mut self) { dead() } }
impl Clone for E { fn clone(&self) -> E { user(); E::n(self.0) } }
impl Clone for S { fn clone(&self) -> S { user(); S::n(self.0) } }
impl Default for S { fn default() -> S { user(); NEXT_DEFAULT.with(|n| { n.set(n.get() + 1); S::n(1_000_000 + n.get()) }) } }
impl ToTokens for E { fn to_tokens(&self, t: &mut TokenStream) { user(); t.extend([parsel::proc_macro2::TokenTree::from(Ident::new(&format!("e{}", self.0), Span::call_site()))]) } }
impl ToTokens for S { fn to_tokens(&self, t: &mut TokenStream) { user(); t.extend([parsel::proc_macro2::TokenTree::from(Ident::new(&format!("s{}", self.0), Span::call_site()))]) } }

/// an iterator whose `next` is user code; `hint`: 0 exact, 1 unknown, 2 too high by 3, 3 too low and unbounded above, 4 a lower bound only,
/// 5 and 6 untruthful (which may cost time, never contents)
struct UI<T> { v: std::vec::IntoIter<T>, hint: usize }
impl<T> Iterator for UI<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { user(); self.v.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = self.v.len(); match self.hint { 0 => (n, Some(n)), 1 => (0, None), 2 => (n / 2, Some(n + 3)), 3 => (n.min(1), None), 4 => (n, None), 5 => (0, Some(n / 2)), 6 => (n + 9, Some(n + 9)), _ => (n, Some(n + 70)) } }
}
impl<T> DoubleEndedIterator for UI<T> { fn next_back(&mut self) -> Option<T> { user(); self.v.next_back() } }
impl<T> ExactSizeIterator for UI<T> {}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct COp { pub op: usize, #[serde(default)] pub a: usize, #[serde(default)] pub n: usize, #[serde(default)] pub h: usize,
    /// the number of the user-code call that panics
    #[serde(default)] pub abort: Option<usize> }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CollPlan { pub kind: usize, pub init: usize, pub ops: Vec<COp> }

pub fn generate(rng: &mut Rng, prop: &str) -> CollPlan {
    let kind = if prop == "C12" { 0 } else { rng.weighted(&[22, 22, 18, 12, 18, 8, 8]) };
    let nops = 1 + rng.weighted(&[5, 8, 12, 15, 15, 12, 10, 8, 6, 5, 4, 3, 3, 2, 2]);
    let big = rng.chance(4);
    let n_of = |rng: &mut Rng| if big && rng.chance(30) { *rng.pick(&[10, 16, 17, 31, 32, 33, 64, 65, 70, 100, 130, 260]) } else { rng.weighted(&[12, 22, 22, 16, 10, 6, 4, 3, 2, 1]) };
    CollPlan {
        kind,
        init: n_of(rng),
        ops: (0..nops).map(|_| { let n = n_of(rng); COp { op: rng.below(64), a: rng.below(64), n, h: rng.below(64), abort: if rng.chance(35) { let m = if rng.chance(70) { 2 * n + 2 } else { 40 }; Some(rng.below(m)) } else { None } } }).collect(),
    }
}

/// takes everything from both ends in an order chosen by `pat`; checks the lengths reported on the way
fn drain<I: DoubleEndedIterator + ExactSizeIterator>(mut it: I, pat: usize) -> Result<Vec<I::Item>, String> {
    let total = it.len();
    let (mut f, mut b) = (vec![], vec![]);
    let mut bits = mix(pat as u64);
    loop {
        let left = total - f.len() - b.len();
        if it.len() != left || it.size_hint() != (left, Some(left)) { return Err(format!("reports {:?}/{} left instead of {left}", it.size_hint(), it.len())) }
        let x = match if pat % 4 == 0 { 0 } else if pat % 4 == 1 { 1 } else { bits & 1 } { 0 => it.next().map(|x| f.push(x)), _ => it.next_back().map(|x| b.push(x)) };
        bits = mix(bits);
        if x.is_none() { break }
        if f.len() + b.len() > total { return Err(format!("yields more than the {total} elements it reported")) }
    }
    if f.len() + b.len() != total { return Err(format!("stops after {} of {total} elements", f.len() + b.len())) }
    if it.next().is_some() || it.next_back().is_some() { return Err("yields again after its end".into()) }
    b.reverse();
    f.extend(b);
    Ok(f)
}
/// model of a punctuated sequence
#[derive(Clone, Default, PartialEq, Debug)]
struct M { e: Vec<u32>, s: Vec<u32> }
impl M {
    fn trailing(&self) -> bool { !self.e.is_empty() && self.s.len() == self.e.len() }
    fn flat(&self) -> Vec<String> {
        let mut v = vec![];
        for i in 0..self.e.len() { v.push(format!("e{}", self.e[i])); if let Some(s) = self.s.get(i) { v.push(format!("s{s}")) } }
        v
    }
}
fn pairs_of<'a>(v: impl IntoIterator<Item = Pair<&'a E, &'a S>>) -> M {
    let mut m = M::default();
    for p in v { let (e, s) = p.into_tuple(); m.e.push(e.0); if let Some(s) = s { m.s.push(s.0) } }
    m
}
fn pairs_of_v(v: impl IntoIterator<Item = Pair<E, S>>) -> M {
    let mut m = M::default();
    for p in v { let (e, s) = p.into_tuple(); m.e.push(e.0); if let Some(s) = s { m.s.push(s.0) } }
    m
}
macro_rules! want { ($what:expr, $got:expr, $exp:expr) => { { let g = $got; let e = &$exp; if g != *e { return Err(format!("{} gives {:?} instead of {:?}", $what, g, e)) } } } }

/// all views of a Separated/Punctuated agree with the model
macro_rules! common_views { ($c:expr, $m:expr, $pat:expr) => {{
    let (c, m, pat) = ($c, $m, $pat);
    let ids = |v: Vec<&E>| v.into_iter().map(|e| e.0).collect::<Vec<_>>();
    want!("pairs()", pairs_of(drain(c.pairs(), pat).map_err(|e| format!("pairs() {e}"))?), m.clone());
    want!("iter()", ids(drain(c.iter(), pat).map_err(|e| format!("iter() {e}"))?), m.e);
    want!("iter_mut()", drain(c.iter_mut(), pat).map_err(|e| format!("iter_mut() {e}"))?.into_iter().map(|e| e.0).collect::<Vec<_>>(), m.e);
    want!("pairs_mut()", { let v = drain(c.pairs_mut(), pat).map_err(|e| format!("pairs_mut() {e}"))?; let mut x = M::default(); for p in v { let (e, s) = p.into_tuple(); x.e.push(e.0); if let Some(s) = s { x.s.push(s.0) } } x }, m.clone());
    want!("(&c).into_iter()", ids(drain((&*c).into_iter(), pat).map_err(|e| format!("(&c).into_iter() {e}"))?), m.e);
    want!("(&mut c).into_iter()", drain((&mut *c).into_iter(), pat).map_err(|e| format!("(&mut c).into_iter() {e}"))?.into_iter().map(|e| e.0).collect::<Vec<_>>(), m.e);
    want!("into_iter()", drain(c.clone().into_iter(), pat).map_err(|e| format!("into_iter() {e}"))?.into_iter().map(|e| e.0).collect::<Vec<_>>(), m.e);
    want!("into_pairs()", pairs_of_v(drain(c.clone().into_pairs(), pat).map_err(|e| format!("into_pairs() {e}"))?), m.clone());
    want!("into_inner()", pairs_of(c.clone().into_inner().pairs()), m.clone());
    want!("conversion to syn's Punctuated", pairs_of_v(SynP::from(c.clone()).into_pairs()), m.clone());
    want!("as_ref()", pairs_of(AsRef::<SynP<E, S>>::as_ref(&*c).pairs()), m.clone());
    want!("borrow()", pairs_of(Borrow::<SynP<E, S>>::borrow(&*c).pairs()), m.clone());
    want!("deref", pairs_of((**c).pairs()), m.clone());
    for i in 0..m.e.len() { want!(format!("[{i}]"), c[i].0, m.e[i]); want!(format!("mut [{i}]"), { let x: &mut E = &mut c[i]; x.0 }, m.e[i]) }
    want!("index past the end", catch_unwind(AssertUnwindSafe(|| c[m.e.len()].0)).is_err(), true);
    want!("clone == self", c.clone() == *c, true);
    want!("Debug", format!("{:?}", c), format!("{:?}", &**c));
    let mut t = vec![];
    stream_texts(c.to_token_stream(), &mut t);
    want!("to_tokens()", t, m.flat());
    want!("Display", c.to_string().split_whitespace().map(String::from).collect::<Vec<_>>(), m.flat());
}}; }

fn views_sep(c: &mut Separated<E, S>, m: &M, pat: usize) -> Result<(), String> {
    if m.e.is_empty() || m.s.len() + 1 != m.e.len() { return Err(format!("model broken: {m:?}")) }
    want!("len()", c.len().get(), m.e.len());
    want!("first()", c.first().0, m.e[0]);
    want!("last()", c.last().0, m.e[m.e.len() - 1]);
    want!("first_mut()", c.first_mut().0, m.e[0]);
    want!("last_mut()", c.last_mut().0, m.e[m.e.len() - 1]);
    common_views!(&mut *c, m, pat);
    let (f, r) = c.clone().into_first_rest();
    want!("into_first_rest()", (f.0, r.iter().map(|(s, e)| (s.0, e.0)).collect::<Vec<_>>()), (m.e[0], m.s.iter().copied().zip(m.e[1..].iter().copied()).collect::<Vec<_>>()));
    let (l, r) = c.clone().into_last_rest();
    want!("into_last_rest()", (l.0, r.iter().map(|(e, s)| (e.0, s.0)).collect::<Vec<_>>()), (m.e[m.e.len() - 1], m.e.iter().copied().zip(m.s.iter().copied()).collect::<Vec<_>>()));
    match Separated::try_from(SynP::from(c.clone())) { Ok(x) => want!("round trip through syn's Punctuated", x == *c, true), Err(e) => return Err(format!("round trip through syn's Punctuated is refused: {e}")) }
    Ok(())
}
fn views_punct(c: &mut Punctuated<E, S>, m: &M, pat: usize) -> Result<(), String> {
    want!("len()", c.len(), m.e.len());
    want!("is_empty()", c.is_empty(), m.e.is_empty());
    common_views!(&mut *c, m, pat);
    want!("as_mut()", pairs_of(AsMut::<SynP<E, S>>::as_mut(&mut *c).pairs()), m.clone());
    want!("borrow_mut()", pairs_of(BorrowMut::<SynP<E, S>>::borrow_mut(&mut *c).pairs()), m.clone());
    want!("deref_mut", pairs_of(c.deref_mut().pairs()), m.clone());
    want!("conversion from syn's Punctuated", pairs_of(Punctuated::from(c.clone().into_inner()).pairs()), m.clone());
    // a separated sequence can be made of it exactly if it is neither empty nor has a trailing separator
    match Separated::try_from(c.clone().into_inner()) {
        Ok(mut s) => { if m.e.is_empty() || m.trailing() { return Err(format!("a Separated was made of {m:?}")) } views_sep(&mut s, m, pat)? }
        Err(_) => if !(m.e.is_empty() || m.trailing()) { return Err(format!("{m:?} was refused as a Separated")) },
    }
    Ok(())
}
fn views_any(c: &mut Any<E>, m: &Vec<u32>, pat: usize) -> Result<(), String> {
    let ids = |v: &[E]| v.iter().map(|e| e.0).collect::<Vec<_>>();
    want!("len()", c.len(), m.len());
    want!("is_empty()", c.is_empty(), m.is_empty());
    want!("iter()", drain(c.iter(), pat).map_err(|e| format!("iter() {e}"))?.into_iter().map(|e| e.0).collect::<Vec<_>>(), *m);
    want!("iter_mut()", drain(c.iter_mut(), pat).map_err(|e| format!("iter_mut() {e}"))?.into_iter().map(|e| e.0).collect::<Vec<_>>(), *m);
    want!("(&c).into_iter()", drain((&*c).into_iter(), pat).map_err(|e| format!("(&c).into_iter() {e}"))?.into_iter().map(|e| e.0).collect::<Vec<_>>(), *m);
    want!("(&mut c).into_iter()", drain((&mut *c).into_iter(), pat).map_err(|e| format!("(&mut c).into_iter() {e}"))?.into_iter().map(|e| e.0).collect::<Vec<_>>(), *m);
    want!("into_iter()", drain(c.clone().into_iter(), pat).map_err(|e| format!("into_iter() {e}"))?.into_iter().map(|e| e.0).collect::<Vec<_>>(), *m);
    want!("into_inner()", ids(&c.clone().into_inner()), *m);
    want!("conversion to Vec", ids(&Vec::from(c.clone())), *m);
    want!("conversion from Vec", Any::from(c.clone().into_inner()) == *c, true);
    want!("as_ref() slice", ids(AsRef::<[E]>::as_ref(&*c)), *m);
    want!("as_ref() vec", ids(AsRef::<Vec<E>>::as_ref(&*c)), *m);
    want!("as_mut() slice", ids(AsMut::<[E]>::as_mut(&mut *c)), *m);
    want!("as_mut() vec", ids(AsMut::<Vec<E>>::as_mut(&mut *c)), *m);
    want!("borrow() slice", ids(Borrow::<[E]>::borrow(&*c)), *m);
    want!("borrow() vec", ids(Borrow::<Vec<E>>::borrow(&*c)), *m);
    want!("borrow_mut() slice", ids(BorrowMut::<[E]>::borrow_mut(&mut *c)), *m);
    want!("borrow_mut() vec", ids(BorrowMut::<Vec<E>>::borrow_mut(&mut *c)), *m);
    want!("deref", ids(&c[..]), *m);
    want!("deref_mut", ids(c.deref_mut()), *m);
    let (lo, hi) = { let a = pat % (m.len() + 1); let b = (pat / 7) % (m.len() + 1); (a.min(b), a.max(b)) };
    want!("index by range", ids(&c[lo..hi]), m[lo..hi].to_vec());
    want!("mutable index by range", ids(&mut c[lo..hi]), m[lo..hi].to_vec());
    for i in 0..=m.len() + 1 {
        want!(format!("get({i})"), c.get(i).map(|e| e.0), m.get(i).copied());
        want!(format!("get_mut({i})"), c.get_mut(i).map(|e| e.0), m.get(i).copied());
        if i < m.len() { want!(format!("[{i}]"), c[i].0, m[i]); want!(format!("mut [{i}]"), { let x: &mut E = &mut c[i]; x.0 }, m[i]) }
    }
    want!("get(range)", c.get(lo..hi).map(ids), m.get(lo..hi).map(|s| s.to_vec()));
    want!("get_mut(range)", c.get_mut(lo..hi).map(|s| ids(s)), m.get(lo..hi).map(|s| s.to_vec()));
    want!("clone == self", c.clone() == *c, true);
    want!("Debug", format!("{:?}", c), format!("{:?}", &**c));
    let mut t = vec![];
    stream_texts(c.to_token_stream(), &mut t);
    want!("to_tokens()", t, m.iter().map(|e| format!("e{e}")).collect::<Vec<_>>());
    want!("Display", c.to_string().split_whitespace().map(String::from).collect::<Vec<_>>(), m.iter().map(|e| format!("e{e}")).collect::<Vec<_>>());
    Ok(())
}
fn views_maybe(c: &mut Maybe<S, E>, m: &Option<(u32, u32)>, _pat: usize) -> Result<(), String> {
    let p = m.map(|x| x.0);
    let e = m.map(|x| x.1);
    want!("as_prefix()", c.as_prefix().map(|s| s.0), p);
    want!("as_prefix_mut()", c.as_prefix_mut().map(|s| s.0), p);
    want!("into_prefix()", c.clone().into_prefix().map(|s| s.0), p);
    want!("as_ref()", Maybe::as_ref(c).map(|s| s.0), e);
    want!("as_mut()", Maybe::as_mut(c).map(|s| s.0), e);
    want!("into_inner()", c.clone().into_inner().map(|s| s.0), e);
    want!("as_parts()", c.as_parts().map(|s| (s.0 .0, s.1 .0)), *m);
    want!("as_parts_mut()", c.as_parts_mut().map(|s| (s.0 .0, s.1 .0)), *m);
    want!("into_parts()", c.clone().into_parts().map(|s| (s.0 .0, s.1 .0)), *m);
    want!("into_prefix_iter()", c.clone().into_prefix_iter().map(|s| s.0).collect::<Vec<_>>(), p.into_iter().collect::<Vec<_>>());
    want!("prefix_iter()", c.prefix_iter().map(|s| s.0).collect::<Vec<_>>(), p.into_iter().collect::<Vec<_>>());
    want!("prefix_iter_mut()", c.prefix_iter_mut().map(|s| s.0).collect::<Vec<_>>(), p.into_iter().collect::<Vec<_>>());
    want!("iter()", Maybe::iter(c).map(|s| s.0).collect::<Vec<_>>(), e.into_iter().collect::<Vec<_>>());
    want!("iter_mut()", Maybe::iter_mut(c).map(|s| s.0).collect::<Vec<_>>(), e.into_iter().collect::<Vec<_>>());
    want!("into_iter()", c.clone().into_iter().map(|s| s.0).collect::<Vec<_>>(), e.into_iter().collect::<Vec<_>>());
    want!("(&c).into_iter()", (&*c).into_iter().map(|s| s.0).collect::<Vec<_>>(), e.into_iter().collect::<Vec<_>>());
    want!("(&mut c).into_iter()", (&mut *c).into_iter().map(|s| s.0).collect::<Vec<_>>(), e.into_iter().collect::<Vec<_>>());
    want!("into_parts_iter()", c.clone().into_parts_iter().map(|s| (s.0 .0, s.1 .0)).collect::<Vec<_>>(), m.iter().copied().collect::<Vec<_>>());
    want!("parts_iter()", c.parts_iter().map(|s| (s.0 .0, s.1 .0)).collect::<Vec<_>>(), m.iter().copied().collect::<Vec<_>>());
    want!("parts_iter_mut()", c.parts_iter_mut().map(|s| (s.0 .0, s.1 .0)).collect::<Vec<_>>(), m.iter().copied().collect::<Vec<_>>());
    want!("is_some()", c.is_some(), m.is_some());
    want!("deref", (**c).as_ref().map(|s| (s.0 .0, s.1 .0)), *m);
    want!("deref_mut", c.deref_mut().as_mut().map(|s| (s.0 .0, s.1 .0)), *m);
    want!("clone == self", c.clone() == *c, true);
    want!("== empty", *c == Maybe::new(), m.is_none());
    want!("Debug", format!("{:?}", c), format!("{:?}", &**c));
    let mut t = vec![];
    stream_texts(c.to_token_stream(), &mut t);
    want!("to_tokens()", t, m.iter().flat_map(|(s, e)| [format!("s{s}"), format!("e{e}")]).collect::<Vec<_>>());
    Ok(())
}
type EV = Either<Vec<E>, Any<E>>;
fn views_either(c: &mut EV, m: &(bool, Vec<u32>), _pat: usize) -> Result<(), String> {
    let ids = |v: &[E]| v.iter().map(|e| e.0).collect::<Vec<_>>();
    let lhs = if m.0 { None } else { Some(m.1.clone()) };
    let rhs = if m.0 { Some(m.1.clone()) } else { None };
    want!("is_left()", c.is_left(), !m.0);
    want!("is_right()", c.is_right(), m.0);
    want!("left()", c.clone().left().map(|v| ids(&v)), lhs);
    want!("right()", c.clone().right().map(|v| ids(&v)), rhs);
    want!("as_ref().left()", Either::as_ref(c).left().map(|v| ids(v)), lhs);
    want!("as_ref().right()", Either::as_ref(c).right().map(|v| ids(v)), rhs);
    want!("as_mut().left()", Either::as_mut(c).left().map(|v| ids(v)), lhs);
    want!("as_mut().right()", Either::as_mut(c).right().map(|v| ids(v)), rhs);
    want!("flip().left()", c.clone().flip().left().map(|v| ids(&v)), rhs);
    want!("flip().flip()", c.clone().flip().flip() == *c, true);
    want!("map()", c.clone().map(|v| (0, ids(&v)), |v| (1, ids(&v))).into_inner(), (m.0 as i32, m.1.clone()));
    want!("into_iter()", Iterator::map(c.clone().into_iter(), |e| match e { Either::Left(e) => (false, e.0), Either::Right(e) => (true, e.0) }).collect::<Vec<_>>(), m.1.iter().map(|e| (m.0, *e)).collect::<Vec<_>>());
    want!("transpose() of options", c.clone().map(Some, Some).transpose().map(|x| x == *c), Some(true));
    want!("transpose() of none", c.clone().map(|_| None::<u8>, |_| None::<u8>).transpose().is_none(), true);
    want!("transpose() of results", c.clone().map(parsel::Result::Ok, parsel::Result::Ok).transpose().map(|x| x == *c).unwrap_or(false), true);
    let mut h: Either<Vec<u32>, Vec<u32>> = Either::as_ref(c).map(|v| ids(v), |v| ids(v));
    want!("same-type as_ref()", AsRef::<Vec<u32>>::as_ref(&h).clone(), m.1);
    want!("same-type as_mut()", AsMut::<Vec<u32>>::as_mut(&mut h).clone(), m.1);
    want!("same-type deref", (*h).clone(), m.1);
    want!("same-type deref_mut", h.deref_mut().clone(), m.1);
    want!("same-type into_inner()", h.into_inner(), m.1);
    Ok(())
}

struct Sim { next: u32 }
impl Sim {
    fn e(&mut self) -> E { self.next += 1; E::n(self.next) }
    fn s(&mut self) -> S { self.next += 1; S::n(self.next) }
    fn es(&mut self, n: usize) -> Vec<E> { (0..n).map(|_| self.e()).collect() }
}
fn is_prefix_ext(now: &[u32], before: &[u32], added: &[u32]) -> bool { now.len() >= before.len() && now[..before.len()] == *before && added.len() + before.len() >= now.len() && now[before.len()..] == added[..now.len() - before.len()] }

pub fn exec(plan: &CollPlan, _prop: &str) -> Out {
    let mut o = Out::default();
    NEXT_DEFAULT.with(|n| n.set(0));
    FUSE.with(|f| f.set(usize::MAX));
    CALLS.with(|c| c.set(0));
    LIVE.with(|l| l.set(0));
    let r = catch_unwind(AssertUnwindSafe(|| match plan.kind % 7 {
        0 => sep(plan, &mut o),
        1 => punct(plan, &mut o),
        2 => any(plan, &mut o),
        3 => maybe(plan, &mut o),
        4 => either(plan, &mut o),
        5 => match plan.init % 3 { 0 => paren(plan, &mut o), 1 => bracket(plan, &mut o), _ => brace(plan, &mut o) },
        _ => if plan.init % 2 == 0 { left(plan, &mut o) } else { right(plan, &mut o) },
    }));
    FUSE.with(|f| f.set(usize::MAX));
    if let Err(p) = r { let k = o.steps; o.bad("panic", format!("operation {k} of {plan:?} or a view after it panicked: {}", panic_text(&*p))) }
    let live = LIVE.with(|l| l.get());
    if live != 0 { o.bad("leak", format!("after {plan:?} everything has been dropped, yet {live} elements or separators are still alive")) }
    o.nontrivial = plan.ops.len() >= 4 || !o.fired.is_empty();
    o.steps += CALLS.with(|c| c.get()) as u64;
    o
}
/// runs `f` with the abort point armed; true if it was cut short
fn armed<R>(op: &COp, o: &mut Out, f: impl FnOnce() -> R) -> Result<R, String> {
    FUSE.with(|x| x.set(op.abort.unwrap_or(usize::MAX)));
    let r = catch_unwind(AssertUnwindSafe(f));
    FUSE.with(|x| x.set(usize::MAX));
    match r {
        Ok(r) => Ok(r),
        Err(p) => { let t = panic_text(&*p); if t == USER_PANIC { o.fire("user_code_panic", 1) } Err(t) }
    }
}

fn sep(plan: &CollPlan, o: &mut Out) {
    let mut w = Sim { next: 0 };
    // made by conversion from a punctuated sequence
    let (mut inner, mut m) = (SynP::<E, S>::new(), M::default());
    for i in 0..plan.init.max(1) {
        if i > 0 { let s = w.s(); m.s.push(s.0); inner.push_punct(s) }
        let e = w.e();
        m.e.push(e.0);
        inner.push_value(e);
    }
    let mut c = match Separated::try_from(inner) { Ok(c) => c, Err(e) => return o.bad("refused", format!("conversion of {m:?} to Separated is refused: {e}")) };
    for (k, op) in plan.ops.iter().enumerate() {
        o.steps = k as u64;
        let before = pairs_of(c.pairs());
        let mut added = M::default();
        let name;
        let mut expect = m.clone();
        let dflt = NEXT_DEFAULT.with(|n| n.get());
        let mut insert_at = None;
        let r: Result<(), String> = match op.op % 9 {
            0 => { name = "push"; let (s, e) = (w.s(), w.e()); expect.s.push(s.0); expect.e.push(e.0); armed(op, o, || c.push(s, e)) }
            1 => { name = "push_value"; let e = w.e(); added.e.push(e.0); expect.e.push(e.0); expect.s.push(1_000_001 + dflt); armed(op, o, || c.push_value(e)) }
            2 => {
                name = "insert";
                let e = w.e();
                let i = op.a % (m.e.len() + 1);
                insert_at = Some((i, e.0));
                expect.e.insert(i, e.0);
                expect.s.insert(i.min(expect.s.len()), 1_000_001 + dflt);
                armed(op, o, || c.insert(i, e))
            }
            3 => {
                name = "extend with items";
                let es = w.es(op.n);
                for (j, e) in es.iter().enumerate() { added.e.push(e.0); expect.e.push(e.0); expect.s.push(1_000_001 + dflt + j as u32) }
                armed(op, o, || c.extend(UI { v: es.into_iter(), hint: op.h % 8 }))
            }
            4 => {
                name = "extend with separator-item pairs";
                let v: Vec<(S, E)> = (0..op.n).map(|_| (w.s(), w.e())).collect();
                for (s, e) in &v { added.e.push(e.0); added.s.push(s.0); expect.e.push(e.0); expect.s.push(s.0) }
                armed(op, o, || c.extend(UI { v: v.into_iter(), hint: op.h % 8 }))
            }
            5 => { name = "clone"; armed(op, o, || { let x = c.clone(); c = x; }) }
            6 => {
                name = "change in place";
                for (e, x) in c.iter_mut().zip(&mut expect.e) { if mix(op.a as u64 ^ e.0 as u64) & 3 == 0 { let n = w.e(); *x = n.0; *e = n; } }
                Ok(())
            }
            7 => {
                name = "round trip through syn's Punctuated";
                let p: SynP<E, S> = SynP::from(Separated::try_from(raw_syn(&m)).ok().unwrap());
                match Separated::try_from(p) { Ok(x) => { c = x; Ok(()) } Err(e) => Err(format!("refused: {e}")) }
            }
            _ => {
                name = "conversion from an arbitrary sequence";
                let mut p = SynP::<E, S>::new();
                let mut pm = M::default();
                for i in 0..op.n { let e = w.e(); pm.e.push(e.0); p.push_value(e); if i + 1 < op.n || op.h % 2 == 1 { let s = w.s(); pm.s.push(s.0); p.push_punct(s) } }
                match (Separated::try_from(p), pm.e.is_empty() || pm.trailing()) {
                    (Ok(x), false) => { c = x; expect = pm; Ok(()) }
                    (Err(_), true) => { o.probe("conversion_refused", 1); Ok(()) }
                    (Ok(_), true) => Err(format!("accepted {pm:?}")),
                    (Err(e), false) => Err(format!("refused {pm:?}: {e}")),
                }
            }
        };
        let ctx = |what: &str| format!("operation {k} ({name}, {op:?}) on {before:?}: {what}");
        let aborted = matches!(&r, Err(t) if t == USER_PANIC);
        match &r {
            Ok(()) => { sync_defaults(&mut expect, &pairs_of(c.pairs()), dflt); m = expect }
            Err(t) if aborted => {
                let _ = t;
                o.probe("operation_cut_short", 1);
                // earlier contents plus a prefix of what was being added
                let now = pairs_of((*c).pairs());
                if now.e.is_empty() || now.s.len() + 1 != now.e.len() { return o.bad("invariant", ctx(&format!("cut short, it left {now:?}"))) }
                let seps_ok = now.s.len() >= before.s.len() && now.s[..before.s.len()] == before.s[..];
                let ok = match insert_at {
                    Some((i, e)) => now == before || { let mut b = before.e.clone(); b.insert(i, e); now.e == b },
                    None => is_prefix_ext(&now.e, &before.e, &added.e) && seps_ok && (added.s.is_empty() || is_prefix_ext(&now.s, &before.s, &added.s)),
                };
                if !ok { return o.bad("cut_short", ctx(&format!("cut short while adding {added:?}, it left {now:?}"))) }
                m = now;
            }
            Err(t) => return o.bad("operation", ctx(t)),
        }
        o.log(&format!("{name} {aborted} {m:?};"));
        let v = catch_unwind(AssertUnwindSafe(|| views_sep(&mut c, &m, op.h)));
        match v { Ok(Ok(())) => {} Ok(Err(e)) => return o.bad("view", ctx(&format!("afterwards {e}"))), Err(p) => return o.bad("panic", ctx(&format!("afterwards a view panicked: {}", panic_text(&*p)))) }
    }
}
/// separators made by `Default` during the operation: any new one will do
fn sync_defaults(expect: &mut M, now: &M, dflt: u32) {
    for (x, n) in expect.s.iter_mut().zip(&now.s) { if *x > 1_000_000 + dflt && *n > 1_000_000 + dflt { *x = *n } }
}
fn raw_syn(m: &M) -> SynP<E, S> {
    let mut p = SynP::new();
    for i in 0..m.e.len() { p.push_value(E::n(m.e[i])); if let Some(s) = m.s.get(i) { p.push_punct(S::n(*s)) } }
    p
}

fn punct(plan: &CollPlan, o: &mut Out) {
    let mut w = Sim { next: 0 };
    let (mut c, mut m) = (Punctuated::<E, S>::new(), M::default());
    if plan.init == 1 { c = Punctuated::default() }
    for (k, op) in plan.ops.iter().enumerate() {
        o.steps = k as u64;
        let before = m.clone();
        let mut added: Option<(Vec<u32>, Vec<u32>)> = None;
        let dflt = NEXT_DEFAULT.with(|n| n.get());
        let mut nd = 0;
        let mut d = || { nd += 1; 1_000_000 + dflt + nd };
        let mut expect = m.clone();
        let name;
        let r: Result<(), String> = match op.op % 12 {
            0 => { name = "push"; let e = w.e(); if !m.e.is_empty() && !m.trailing() { expect.s.push(d()) } expect.e.push(e.0); added = Some((vec![e.0], vec![])); armed(op, o, || c.push(e)) }
            1 => { if !m.e.is_empty() && !m.trailing() { continue } name = "push_value"; let e = w.e(); expect.e.push(e.0); armed(op, o, || c.push_value(e)) }
            2 => { if m.e.is_empty() || m.trailing() { continue } name = "push_punct"; let s = w.s(); expect.s.push(s.0); armed(op, o, || c.push_punct(s)) }
            3 => {
                name = "pop";
                let got = c.pop().map(|p| { let (e, s) = p.into_tuple(); (e.0, s.map(|s| s.0)) });
                let tr = m.trailing();
                let want = expect.e.pop().map(|e| (e, if tr { expect.s.pop() } else { None }));
                if got == want { Ok(()) } else { Err(format!("pop gives {got:?} instead of {want:?}")) }
            }
            4 => {
                name = "pop_punct";
                let got = c.pop_punct().map(|s| s.0);
                let want = if m.trailing() { expect.s.pop() } else { None };
                if got == want { Ok(()) } else { Err(format!("pop_punct gives {got:?} instead of {want:?}")) }
            }
            5 => {
                name = "insert";
                let e = w.e();
                let i = op.a % (m.e.len() + 1);
                if i == m.e.len() { if !m.e.is_empty() && !m.trailing() { expect.s.push(d()) } } else { expect.s.insert(i, d()) }
                expect.e.insert(i, e.0);
                armed(op, o, || c.insert(i, e))
            }
            6 => {
                name = "extend with items";
                let es = w.es(op.n);
                for e in &es { if !expect.e.is_empty() && !expect.trailing() { expect.s.push(d()) } expect.e.push(e.0) }
                added = Some((es.iter().map(|e| e.0).collect(), vec![]));
                armed(op, o, || c.extend(UI { v: es.into_iter(), hint: op.h % 8 }))
            }
            7 => {
                name = "extend with pairs";
                let n = op.n;
                if !expect.e.is_empty() && !expect.trailing() { expect.s.push(d()) }
                let mut v = vec![];
                let mut ad = (vec![], vec![]);
                for i in 0..n {
                    let e = w.e();
                    expect.e.push(e.0);
                    ad.0.push(e.0);
                    v.push(if i + 1 == n && op.h % 2 == 0 { Pair::End(e) } else { let s = w.s(); expect.s.push(s.0); ad.1.push(s.0); Pair::Punctuated(e, s) });
                }
                added = Some(ad);
                armed(op, o, || c.extend(UI { v: v.into_iter(), hint: op.h % 8 }))
            }
            8 => {
                name = "collect from items";
                let es = w.es(op.n);
                expect = M { e: es.iter().map(|e| e.0).collect(), s: (1..op.n).map(|_| d()).collect() };
                armed(op, o, || { let x = Punctuated::from_iter(UI { v: es.into_iter(), hint: op.h % 8 }); c = x })
            }
            9 => {
                name = "collect from pairs";
                let n = op.n;
                expect = M::default();
                let v: Vec<Pair<E, S>> = (0..n).map(|i| { let e = w.e(); expect.e.push(e.0); if i + 1 == n && op.h % 2 == 0 { Pair::End(e) } else { let s = w.s(); expect.s.push(s.0); Pair::Punctuated(e, s) } }).collect();
                armed(op, o, || { let x = Punctuated::from_iter(UI { v: v.into_iter(), hint: op.h % 8 }); c = x })
            }
            10 => { name = "clone"; armed(op, o, || { let x = c.clone(); c = x; }) }
            _ => { name = "change in place"; for (e, x) in c.iter_mut().zip(&mut expect.e) { if mix(op.a as u64 ^ e.0 as u64) & 3 == 0 { let n = w.e(); *x = n.0; *e = n; } } Ok(()) }
        };
        let ctx = |what: &str| format!("operation {k} ({name}, {op:?}) on {before:?}: {what}");
        let aborted = matches!(&r, Err(t) if t == USER_PANIC);
        match r {
            Ok(()) => { sync_defaults(&mut expect, &pairs_of(c.pairs()), dflt); m = expect }
            Err(_) if aborted => {
                o.probe("operation_cut_short", 1);
                let now = pairs_of(c.pairs());
                let ok = match &added {
                    None => now == before,
                    // a separator in front of the first added item may be there already
                    Some((e, _)) => is_prefix_ext(&now.e, &before.e, e) && now.s.len() >= before.s.len() && now.s[..before.s.len()] == before.s[..],
                };
                if !ok { return o.bad("cut_short", ctx(&format!("cut short while adding {added:?}, it left {now:?}"))) }
                m = now;
            }
            Err(t) => return o.bad("operation", ctx(&t)),
        }
        o.log(&format!("{name} {aborted} {m:?};"));
        let v = catch_unwind(AssertUnwindSafe(|| views_punct(&mut c, &m, op.h)));
        match v { Ok(Ok(())) => {} Ok(Err(e)) => return o.bad("view", ctx(&format!("afterwards {e}"))), Err(p) => return o.bad("panic", ctx(&format!("afterwards a view panicked: {}", panic_text(&*p)))) }
    }
}

fn any(plan: &CollPlan, o: &mut Out) {
    let mut w = Sim { next: 0 };
    let init = w.es(plan.init);
    let mut m: Vec<u32> = init.iter().map(|e| e.0).collect();
    let mut c = match plan.ops.len() % 3 { 0 => Any::from(init), 1 => init.into_iter().collect(), _ => { let mut c = Any::new(); c.extend(init); c } };
    for (k, op) in plan.ops.iter().enumerate() {
        o.steps = k as u64;
        let before = m.clone();
        let mut expect = m.clone();
        let mut added = vec![];
        let name;
        let r: Result<(), String> = match op.op % 10 {
            0 => { name = "push"; let e = w.e(); expect.push(e.0); c.push(e); Ok(()) }
            1 => { name = "extend"; let es = w.es(op.n); added = es.iter().map(|e| e.0).collect(); expect.extend(&added); armed(op, o, || c.extend(UI { v: es.into_iter(), hint: op.h % 8 })) }
            2 => { name = "collect"; let es = w.es(op.n); expect = es.iter().map(|e| e.0).collect(); armed(op, o, || { let x = Any::from_iter(UI { v: es.into_iter(), hint: op.h % 8 }); c = x }) }
            3 => { name = "insert"; let e = w.e(); let i = op.a % (m.len() + 1); expect.insert(i, e.0); c.insert(i, e); Ok(()) }
            4 => { if m.is_empty() { continue } name = "remove"; let i = op.a % m.len(); let want = expect.remove(i); let g = c.remove(i).0; if g == want { Ok(()) } else { Err(format!("remove gives {g}")) } }
            5 => {
                name = "retain";
                let keep = |e: u32| mix(op.a as u64 ^ e as u64) & 1 == 0;
                expect.retain(|e| keep(*e));
                // cut short, `Vec::retain` keeps what it had not decided about; that is Vec's contract, not checked here
                c.retain(|e| keep(e.0));
                Ok(())
            }
            6 => { name = "clone"; armed(op, o, || { let x = c.clone(); c = x; }) }
            7 => { name = "change in place"; for (e, x) in c.iter_mut().zip(&mut expect) { if mix(op.a as u64 ^ e.0 as u64) & 3 == 0 { let n = w.e(); *x = n.0; *e = n; } } Ok(()) }
            8 => { name = "change by index"; if m.is_empty() { continue } let i = op.a % m.len(); let n = w.e(); expect[i] = n.0; c[i] = n; Ok(()) }
            _ => { name = "mem::take"; let x = std::mem::take(&mut c); if c != Any::default() { Err("default is not empty".into()) } else { c = x; Ok(()) } }
        };
        let ctx = |what: &str| format!("operation {k} ({name}, {op:?}) on {before:?}: {what}");
        let aborted = matches!(&r, Err(t) if t == USER_PANIC);
        match r {
            Ok(()) => m = expect,
            Err(_) if aborted => {
                o.probe("operation_cut_short", 1);
                let now: Vec<u32> = c.iter().map(|e| e.0).collect();
                if !is_prefix_ext(&now, &before, &added) { return o.bad("cut_short", ctx(&format!("cut short while adding {added:?}, it left {now:?}"))) }
                m = now;
            }
            Err(t) => return o.bad("operation", ctx(&t)),
        }
        o.log(&format!("{name} {aborted} {m:?};"));
        let v = catch_unwind(AssertUnwindSafe(|| views_any(&mut c, &m, op.h)));
        match v { Ok(Ok(())) => {} Ok(Err(e)) => return o.bad("view", ctx(&format!("afterwards {e}"))), Err(p) => return o.bad("panic", ctx(&format!("afterwards a view panicked: {}", panic_text(&*p)))) }
    }
}

fn maybe(plan: &CollPlan, o: &mut Out) {
    let mut w = Sim { next: 0 };
    let mut c: Maybe<S, E> = if plan.init % 2 == 0 { Maybe::new() } else { Maybe::default() };
    let mut m: Option<(u32, u32)> = None;
    for (k, op) in plan.ops.iter().enumerate() {
        o.steps = k as u64;
        let before = m;
        let dflt = NEXT_DEFAULT.with(|n| n.get()) + 1_000_001;
        let mut expect: Option<(u32, u32)>;
        let name;
        let r: Result<(), String> = match op.op % 9 {
            2 if op.a % 3 == 0 => { name = "from no value"; expect = None; match armed(op, o, || { let x: Maybe<S, E> = From::<Option<E>>::from(None); c = x }) { Err(t) if t == USER_PANIC => Err("an absent node cannot be made while making a prefix panics".into()), r => r } }
            0 => { name = "from parts"; let (s, e) = (w.s(), w.e()); expect = Some((s.0, e.0)); armed(op, o, || { let x = Maybe::from((s, e)); c = x }) }
            1 => { name = "from value"; let e = w.e(); expect = Some((dflt, e.0)); armed(op, o, || { let x: Maybe<S, E> = From::<E>::from(e); c = x }) }
            2 => { name = "from optional value"; let e = Some(w.e()); expect = e.as_ref().map(|e| (dflt, e.0)); armed(op, o, || { let x: Maybe<S, E> = From::<Option<E>>::from(e); c = x }) }
            3 => { name = "from optional parts"; let e = if op.a % 3 == 0 { None } else { Some((w.s(), w.e())) }; expect = e.as_ref().map(|(s, e)| (s.0, e.0)); armed(op, o, || { let x: Maybe<S, E> = From::<Option<(S, E)>>::from(e); c = x }) }
            4 => { name = "take"; expect = None; let g = c.take().map(|(s, e)| (s.0, e.0)); if g == m { Ok(()) } else { Err(format!("take gives {g:?}")) } }
            5 => { name = "replace"; let (s, e) = (w.s(), w.e()); expect = Some((s.0, e.0)); let g = c.replace((s, e)).map(|(s, e)| (s.0, e.0)); if g == m { Ok(()) } else { Err(format!("replace gives {g:?}")) } }
            6 => { name = "clone"; expect = m; armed(op, o, || { let x = c.clone(); c = x; }) }
            7 => { name = "change value in place"; let n = w.e(); expect = m.map(|(s, _)| (s, n.0)); if let Some(x) = Maybe::as_mut(&mut c) { *x = n } Ok(()) }
            _ => { name = "change prefix in place"; let n = w.s(); expect = m.map(|(_, e)| (n.0, e)); if let Some(x) = c.as_prefix_mut() { *x = n } Ok(()) }
        };
        let ctx = |what: &str| format!("operation {k} ({name}, {op:?}) on {before:?}: {what}");
        let aborted = matches!(&r, Err(t) if t == USER_PANIC);
        match r { Ok(()) => { if let (Some(x), Some(n)) = (&mut expect, c.as_prefix()) { if x.0 >= dflt && n.0 >= dflt { x.0 = n.0 } } m = expect } Err(_) if aborted => { o.probe("operation_cut_short", 1) } Err(t) => return o.bad("operation", ctx(&t)) }
        o.log(&format!("{name} {aborted} {m:?};"));
        let v = catch_unwind(AssertUnwindSafe(|| views_maybe(&mut c, &m, op.h)));
        match v { Ok(Ok(())) => {} Ok(Err(e)) => return o.bad("view", ctx(&format!("afterwards {e}"))), Err(p) => return o.bad("panic", ctx(&format!("afterwards a view panicked: {}", panic_text(&*p)))) }
    }
}

/// what an iterator operation returned: items with their tag, numbers
fn iter_op<I: DoubleEndedIterator + ExactSizeIterator>(it: &mut Option<I>, op: &COp, f: impl Fn(I::Item) -> (bool, u32)) -> Vec<(bool, u32)> {
    let Some(i) = it.as_mut() else { return vec![] };
    let num = |n: usize| vec![(false, n as u32)];
    let small = op.a % 5;
    // the consuming operations stop at (or remember) a chosen element, so that the order of the visits shows
    let odd = |x: &(bool, u32)| mix(op.h as u64 ^ x.1 as u64) & 3 == 0;
    match op.op % 30 {
        0 | 1 | 2 => i.next().map(&f).into_iter().collect(),
        3 | 4 => i.next_back().map(&f).into_iter().collect(),
        5 => i.nth(if op.h % 3 == 0 { op.a % 12 } else { op.a % 4 }).map(&f).into_iter().collect(),
        6 => i.nth_back(if op.h % 3 == 0 { op.a % 12 } else { op.a % 4 }).map(&f).into_iter().collect(),
        7 => { let (l, h) = i.size_hint(); vec![(false, l as u32), (h.is_some(), h.unwrap_or(0) as u32)] }
        8 => if i.size_hint().1 == Some(i.size_hint().0) { num(i.len()) } else { vec![] },
        9 => { let x = it.take().unwrap(); num(x.count()) }
        10 => { let x = it.take().unwrap(); x.last().map(&f).into_iter().collect() }
        11 => { let x = it.take().unwrap(); x.map(&f).collect() }
        12 => { let x = it.take().unwrap(); x.rev().map(&f).collect() }
        13 => { let v = i.by_ref().take(op.a % 3).map(&f).collect(); v }
        14 => { let x = it.take().unwrap(); x.fold(vec![], |mut v, e| { v.push(f(e)); v }) }
        15 => { let x = it.take().unwrap(); x.rfold(vec![], |mut v, e| { v.push(f(e)); v }) }
        16 => { let mut v = vec![]; let x = it.take().unwrap(); x.for_each(|e| v.push(f(e))); v }
        17 => { let mut n = 0; let mut v = vec![]; let r = i.try_for_each(|e| { v.push(f(e)); n += 1; if n > small { Err(()) } else { Ok(()) } }); v.push((r.is_err(), n as u32)); v }
        18 => { let mut n = 0; let mut v = vec![]; let r = i.try_rfold((), |_, e| { v.push(f(e)); n += 1; if n > small { None } else { Some(()) } }); v.push((r.is_none(), n as u32)); v }
        19 => { let mut v = vec![]; let p = i.position(|e| { let e = f(e); v.push(e); odd(&e) }); v.push((p.is_some(), p.unwrap_or(0) as u32)); v }
        20 => { let mut v = vec![]; let p = i.any(|e| { let e = f(e); v.push(e); odd(&e) }); v.push((p, 0)); v }
        21 => { let mut v = vec![]; let p = i.all(|e| { let e = f(e); v.push(e); !odd(&e) }); v.push((p, 0)); v }
        22 => i.find_map(|e| { let e = f(e); if odd(&e) { Some(e) } else { None } }).into_iter().collect(),
        23 => { let x = it.take().unwrap(); x.skip(small).map(&f).collect() }
        24 => { let x = it.take().unwrap(); x.step_by(1 + small).map(&f).collect() }
        25 => { let x = it.take().unwrap(); let (mut a, b): (Vec<_>, Vec<_>) = x.map(&f).partition(odd); a.push((true, u32::MAX)); a.extend(b); a }
        26 => { let x = it.take().unwrap(); x.map(&f).max_by_key(|e| mix(op.h as u64 ^ e.1 as u64) % 4).into_iter().collect() }
        27 => { let x = it.take().unwrap(); x.map(&f).min_by_key(|e| mix(op.h as u64 ^ e.1 as u64) % 4).into_iter().collect() }
        28 => { let x = it.take().unwrap(); x.map(&f).reduce(|a, b| (a.0, mix(a.1 as u64 * 31 + b.1 as u64) as u32)).into_iter().collect() }
        _ => i.by_ref().rev().map(&f).find(odd).into_iter().collect(),
    }
}
fn either(plan: &CollPlan, o: &mut Out) {
    let mut w = Sim { next: 0 };
    if plan.init % 2 == 0 {
        // as an iterator over user-supplied iterators, compared with the plain iterator
        for right in [false, true] {
            let n = 2 + plan.init * 2;
            let hint = plan.ops.first().map_or(0, |o| o.n % 5);
            let ids: Vec<u32> = (0..n).map(|_| w.e().0).collect();
            let mk = |hint: usize| UI { v: ids.clone().into_iter(), hint };
            let mut plain = Some(mk(hint));
            let mut e: Option<Either<UI<u32>, UI<u32>>> = Some(if right { Either::Right(mk(hint)) } else { Either::Left(mk(hint)) });
            for (k, op) in plan.ops.iter().enumerate() {
                o.steps = k as u64;
                let a = armed(op, &mut Out::default(), || iter_op(&mut plain, op, |x| (right, x)));
                let b = armed(op, o, || iter_op(&mut e, op, |x| match x { Either::Left(x) => (false, x), Either::Right(x) => (true, x) }));
                o.log(&format!("{a:?} {b:?};"));
                if a != b { return o.bad("iterator", format!("operation {k} ({op:?}) on the iterator Either::{} of {ids:?} gives {b:?}, on the plain iterator {a:?}", if right { "Right" } else { "Left" })) }
                if a.is_err() { o.probe("operation_cut_short", 1) }
            }
        }
        return;
    }
    let mut m: (bool, Vec<u32>) = (false, vec![]);
    let mut c: EV = Either::Left(vec![]);
    for (k, op) in plan.ops.iter().enumerate() {
        o.steps = k as u64;
        let before = m.clone();
        let mut expect = m.clone();
        let mut added = vec![];
        let name;
        let r: Result<(), String> = match op.op % 7 {
            0 => { name = "set left"; let es = w.es(op.n); expect = (false, es.iter().map(|e| e.0).collect()); c = Either::Left(es); Ok(()) }
            1 => { name = "set right"; let es = w.es(op.n); expect = (true, es.iter().map(|e| e.0).collect()); c = Either::Right(Any::from(es)); Ok(()) }
            2 | 3 => { name = "extend"; let es = w.es(op.n); added = es.iter().map(|e| e.0).collect(); expect.1.extend(&added); armed(op, o, || c.extend(UI { v: es.into_iter(), hint: op.h % 8 })) }
            4 => { name = "flip and map back"; expect.0 = !m.0; let x = std::mem::replace(&mut c, Either::Left(vec![])); c = x.flip().map(Vec::from, Any::from); Ok(()) }
            5 => { name = "map"; armed(op, o, || { let x = c.clone().map(|v| { user(); v }, |v| { user(); v }); c = x }) }
            _ => { name = "change in place"; let e = w.e(); expect.1.push(e.0); match Either::as_mut(&mut c) { Either::Left(v) => v.push(e), Either::Right(v) => v.push(e) } Ok(()) }
        };
        let ctx = |what: &str| format!("operation {k} ({name}, {op:?}) on {before:?}: {what}");
        let aborted = matches!(&r, Err(t) if t == USER_PANIC);
        match r {
            Ok(()) => m = expect,
            Err(_) if aborted => {
                o.probe("operation_cut_short", 1);
                let now: Vec<u32> = match Either::as_ref(&c) { Either::Left(v) => v.iter().map(|e| e.0).collect(), Either::Right(v) => v.iter().map(|e| e.0).collect() };
                if !is_prefix_ext(&now, &before.1, &added) { return o.bad("cut_short", ctx(&format!("cut short while adding {added:?}, it left {now:?}"))) }
                m.1 = now;
            }
            Err(t) => return o.bad("operation", ctx(&t)),
        }
        o.log(&format!("{name} {aborted} {m:?};"));
        let v = catch_unwind(AssertUnwindSafe(|| views_either(&mut c, &m, op.h)));
        match v { Ok(Ok(())) => {} Ok(Err(e)) => return o.bad("view", ctx(&format!("afterwards {e}"))), Err(p) => return o.bad("panic", ctx(&format!("afterwards a view panicked: {}", panic_text(&*p)))) }
    }
}

/// locations of the words of a text read on this thread
pub fn some_spans() -> Vec<Span> {
    let t: String = (0..40).map(|i| format!("word{i}{}", if i % 7 == 0 { "\n" } else { "  " })).collect();
    let s: TokenStream = t.parse().unwrap();
    s.into_iter().map(|t| t.span()).collect()
}
type At = std::ops::Range<usize>;
/// histories of a delimited node around a growing and shrinking body
macro_rules! delimited { ($fname:ident, $node:ident, $delim:expr, $as:ident, $into:ident) => {
fn $fname(plan: &CollPlan, o: &mut Out) {
    type N = $node<Any<E>>;
    let spans = some_spans();
    let mut w = Sim { next: 0 };
    let init = w.es(plan.init / 3);
    let at0 = spans[plan.init % spans.len()];
    let mut m: (Vec<u32>, Option<At>) = (init.iter().map(|e| e.0).collect(), Some(at0.byte_range()));
    let mut c: N = $node::new(Any::from(init), at0);
    for (k, op) in plan.ops.iter().enumerate() {
        o.steps = k as u64;
        let before = m.clone();
        let mut expect = m.clone();
        let sp = spans[op.a % spans.len()];
        let name;
        let mut printed = false;
        let r: Result<(), String> = match op.op % 12 {
            0 => { name = "new"; let es = w.es(op.n); expect = (es.iter().map(|e| e.0).collect(), Some(sp.byte_range())); c = $node::new(Any::from(es), sp); Ok(()) }
            // the location is the body's, and the body has none
            1 => { name = "from body"; let es = w.es(op.n); expect = (es.iter().map(|e| e.0).collect(), None); c = N::from(Any::from(es)); Ok(()) }
            2 => { name = "from delimiters and body"; let es = w.es(op.n); expect = (es.iter().map(|e| e.0).collect(), Some(sp.byte_range())); c = N::from((token::$node(sp), Any::from(es))); Ok(()) }
            3 => { name = "from old delimiters and new body"; let es = w.es(op.n); expect.0 = es.iter().map(|e| e.0).collect(); let t = *c.$as(); c = N::from((t, Any::from(es))); Ok(()) }
            4 => { name = "push through deref"; let e = w.e(); expect.0.push(e.0); c.push(e); Ok(()) }
            5 => { name = "push through as_mut"; let e = w.e(); expect.0.push(e.0); AsMut::<Any<E>>::as_mut(&mut c).push(e); Ok(()) }
            6 => { name = "remove through deref"; if m.0.is_empty() { continue } let i = op.a % m.0.len(); let want = expect.0.remove(i); let g = c.remove(i).0; if g == want { Ok(()) } else { Err(format!("remove gives {g}")) } }
            7 => { name = "clone"; armed(op, o, || { let x = c.clone(); c = x; }) }
            8 => { name = "take apart and rebuild"; let x = std::mem::take(&mut c); let (t, b) = x.into_parts(); c = N::from((t, b)); Ok(()) }
            9 => { name = "unwrap and wrap"; let x = std::mem::take(&mut c); expect.1 = Some(sp.byte_range()); c = $node::new(x.into_inner(), sp); Ok(()) }
            10 => { name = "default"; expect = (vec![], None); c = N::default(); Ok(()) }
            _ => { name = "print"; printed = true; armed(op, o, || { let _ = if op.h % 2 == 0 { c.to_token_stream().to_string() } else { c.to_string() }; }) }
        };
        let ctx = |what: &str| format!("operation {k} ({name}, {op:?}) on {before:?}: {what}");
        let aborted = matches!(&r, Err(t) if t == USER_PANIC);
        match r { Ok(()) => m = expect, Err(_) if aborted => o.probe(if printed { "print_cut_short" } else { "operation_cut_short" }, 1), Err(t) => return o.bad("operation", ctx(&t)) }
        o.log(&format!("{name} {aborted} {m:?};"));
        let v = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
            let ids = |c: &Any<E>| c.iter().map(|e| e.0).collect::<Vec<_>>();
            let at = |t: &token::$node| { let r = t.span.join().byte_range(); if r.is_empty() { None } else { Some(r) } };
            want!("deref", ids(&c), m.0);
            want!("as_ref()", ids(AsRef::<Any<E>>::as_ref(&c)), m.0);
            want!("as_mut()", ids(AsMut::<Any<E>>::as_mut(&mut c)), m.0);
            want!("deref_mut", ids(c.deref_mut()), m.0);
            want!("into_inner()", ids(&c.clone().into_inner()), m.0);
            want!("as_parts()", (ids(c.as_parts().1), at(c.as_parts().0)), m);
            want!("into_parts()", { let (t, b) = c.clone().into_parts(); (ids(&b), at(&t)) }, m);
            want!("location of the delimiters", at(c.$as()), m.1);
            want!("location of the delimiters taken out", at(&c.clone().$into()), m.1);
            want!("clone == self", c.clone() == c, true);
            let mut other = c.clone();
            if op.h % 2 == 0 || m.0.is_empty() { other.push(E::n(0)) } else { let i = op.h % m.0.len(); other[i] = E::n(0) }
            want!("equality with another body", other == c, false);
            let flat: Vec<String> = m.0.iter().map(|e| format!("e{e}")).collect();
            for (what, ts) in [("to_tokens()", c.to_token_stream()), ("into_token_stream()", c.clone().into_token_stream()), ("Display", c.to_string().parse::<TokenStream>().map_err(|e| format!("Display gives no tokens: {e}"))?)] {
                let v: Vec<TokenTree> = ts.into_iter().collect();
                match &v[..] {
                    [TokenTree::Group(g)] if g.delimiter() == $delim => { let mut t = vec![]; stream_texts(g.stream(), &mut t); want!(what, t, flat) }
                    _ => return Err(format!("{what} gives {v:?}, which is not one group")),
                }
            }
            Ok(())
        }));
        match v { Ok(Ok(())) => {} Ok(Err(e)) => return o.bad("view", ctx(&format!("afterwards {e}"))), Err(p) => return o.bad("panic", ctx(&format!("afterwards a view panicked: {}", panic_text(&*p)))) }
    }
}
}; }
delimited!(paren, Paren, Delimiter::Parenthesis, as_parens, into_parens);
delimited!(bracket, Bracket, Delimiter::Bracket, as_brackets, into_brackets);
delimited!(brace, Brace, Delimiter::Brace, as_braces, into_braces);

/// histories of operator trees built and taken apart at the outermost operator
macro_rules! assoc { ($fname:ident, $node:ident, $leaf:ident, $near:ident, $far:ident, $outer_last:expr) => {
fn $fname(plan: &CollPlan, o: &mut Out) {
    type N = $node<S, E>;
    let mut w = Sim { next: 0 };
    // operands and operators from the innermost to the outermost
    let e = w.e();
    let mut m: (Vec<u32>, Vec<u32>) = (vec![e.0], vec![]);
    let mut c: N = N::from(e);
    let wrap = |c: N, op: S, e: E| N::Binary { $far: Box::new(c), op, $near: e };
    for (k, op) in plan.ops.iter().enumerate() {
        o.steps = k as u64;
        let before = m.clone();
        let mut expect = m.clone();
        let name;
        let mut printed = false;
        let r: Result<(), String> = match op.op % 8 {
            0 => { name = "from operand"; let e = w.e(); expect = (vec![e.0], vec![]); c = N::from(e); Ok(()) }
            1 | 2 => { name = "wrap"; for _ in 0..op.n { let (s, e) = (w.s(), w.e()); expect.1.push(s.0); expect.0.push(e.0); c = wrap(c, s, e) } Ok(()) }
            3 => { name = "unwrap"; match c { N::Binary { $far: x, .. } => { c = *x; expect.0.pop(); expect.1.pop(); } N::$leaf(e) => c = N::$leaf(e) } Ok(()) }
            4 => { name = "clone"; armed(op, o, || { let x = c.clone(); c = x; }) }
            5 => { name = "change in place"; let (s, e) = (w.s(), w.e()); match &mut c { N::Binary { op, $near, .. } => { *expect.1.last_mut().unwrap() = s.0; *expect.0.last_mut().unwrap() = e.0; *op = s; *$near = e } N::$leaf(x) => { expect.0[0] = e.0; *x = e } } Ok(()) }
            _ => { name = "print"; printed = true; armed(op, o, || { let _ = if op.h % 2 == 0 { c.to_token_stream().to_string() } else { c.to_string() }; }) }
        };
        let ctx = |what: &str| format!("operation {k} ({name}, {op:?}) on {before:?}: {what}");
        let aborted = matches!(&r, Err(t) if t == USER_PANIC);
        match r { Ok(()) => m = expect, Err(_) if aborted => o.probe(if printed { "print_cut_short" } else { "operation_cut_short" }, 1), Err(t) => return o.bad("operation", ctx(&t)) }
        o.log(&format!("{name} {aborted} {m:?};"));
        let v = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
            let mut flat = vec![];
            if $outer_last { for i in 0..m.0.len() { if i > 0 { flat.push(format!("s{}", m.1[i - 1])) } flat.push(format!("e{}", m.0[i])) } }
            else { for i in (0..m.0.len()).rev() { flat.push(format!("e{}", m.0[i])); if i > 0 { flat.push(format!("s{}", m.1[i - 1])) } } }
            let mut t = vec![];
            stream_texts(c.to_token_stream(), &mut t);
            want!("to_tokens()", t, flat);
            want!("Display", c.to_string().split_whitespace().map(String::from).collect::<Vec<_>>(), flat);
            // innermost outwards
            let mut dbg = format!("E({})", m.0[0]);
            for i in 1..m.0.len().min(40) { dbg = if $outer_last { format!("Binary<S({})> {{ lhs: {dbg}, rhs: E({}) }}", m.1[i - 1], m.0[i]) } else { format!("Binary<S({})> {{ lhs: E({}), rhs: {dbg} }}", m.1[i - 1], m.0[i]) } }
            if m.0.len() <= 40 { want!("Debug", format!("{c:?}"), dbg) }
            want!("clone == self", c.clone() == c, true);
            let mut other = c.clone();
            let mut depth = op.h % m.0.len();
            let mut x = &mut other;
            loop { match x { N::$leaf(e) => { *e = E::n(0); break } N::Binary { $far: f, op, $near: n } => { if depth == 0 { if k % 2 == 0 { *op = S::n(0) } else { *n = E::n(0) } break } depth -= 1; x = f } } }
            want!("equality with a tree that differs in one place", other == c, false);
            Ok(())
        }));
        match v { Ok(Ok(())) => {} Ok(Err(e)) => return o.bad("view", ctx(&format!("afterwards {e}"))), Err(p) => return o.bad("panic", ctx(&format!("afterwards a view panicked: {}", panic_text(&*p)))) }
    }
}
}; }
assoc!(left, LeftAssoc, Rhs, rhs, lhs, true);
assoc!(right, RightAssoc, Lhs, lhs, rhs, false);
