//! C17, C18: histories of the leaves of a tree - literals, words, keywords - as values: made in every way the library
//! offers, converted, printed and read back, moved, changed and compared, with conversions that must fail, sinks that
//! fail and hashers that panic, against plain values.
use std::borrow::{Borrow, BorrowMut, Cow};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::convert::TryFrom;
use std::fmt::{self, Debug, Display, Write};
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::DerefMut;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use parsel::ast::*;
use parsel::proc_macro2::{TokenStream, TokenTree};
use parsel::{syn, NotNan, Parse, Span, ToTokens};
use serde::{Deserialize, Serialize};
use crate::coll::some_spans;
use crate::model::{brange, decode, lex_level, Level, LV, TK};
use crate::out::*;
use crate::rng::{fnv, mix, Rng};

/// a plain value in the plan; the kind of the run says which part counts
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct V { #[serde(default)] pub n: u64, #[serde(default, skip_serializing_if = "String::is_empty")] pub s: String, #[serde(default, skip_serializing_if = "Vec::is_empty")] pub b: Vec<u8> }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LOp { pub op: usize, #[serde(default)] pub a: usize, #[serde(default)] pub h: usize, #[serde(default)] pub v: usize,
    /// a text to read
    #[serde(default, skip_serializing_if = "String::is_empty")] pub t: String,
    /// the call into user code that fails
    #[serde(default)] pub abort: Option<usize> }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LeafPlan { pub kind: usize, pub vals: Vec<V>, pub ops: Vec<LOp> }

pub const KINDS: usize = 8;
const CHARS: &[char] = &['a', 'b', 'A', ' ', '"', '\'', '\\', '\n', '\r', '\t', '\0', '\u{1}', '\u{7f}', '\u{80}', '\u{e9}', '\u{ff}', '\u{301}', '\u{200d}', '\u{2028}', '\u{202e}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1F600}', '\u{10FFFF}', '{', '}', '0', '7', 'x', 'u', 'n'];
fn some_val(rng: &mut Rng, kind: usize) -> V {
    let edge = [0u64, 1, 2, 9, 10, 0x7f, 0x80, 0xff, 0x100, 1 << 31, 1 << 32, 1 << 52, (1 << 53) + 1, i64::MAX as u64, 1 << 63, (1 << 63) + 1, u64::MAX, u64::MAX - 1, (-10i64) as u64, (-1i64 << 32) as u64];
    let fl = [0.0, -0.0, 1.0, -1.0, 0.1, 1.5, -2.25, 1e15, 1e16, 1e17, 1e21, 1e300, -1e-7, 1e-300, 5e-324, 123456789.125, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 9007199254740993.0, 0.30000000000000004, f64::NAN];
    let n = match kind {
        4 => if rng.chance(70) { rng.pick(&fl).to_bits() } else { rng.next() },
        5 => if rng.chance(80) { *rng.pick(CHARS) as u64 } else { rng.next() % 0x11_0000 },
        _ => match rng.below(5) { 0..=2 => *rng.pick(&edge), 3 => rng.next() >> rng.below(64), _ => (-((rng.next() >> (1 + rng.below(63))) as i64)) as u64 },
    };
    let len = rng.weighted(&[8, 20, 20, 16, 10, 8, 6, 4, 3, 2, 2, 1, 1]) + if rng.chance(4) { *rng.pick(&[60, 120, 250, 300, 500, 1020, 2000, 4090, 9000]) } else { 0 };
    // long values are often of a few characters only
    let few: Vec<char> = (0..if len > 30 && rng.chance(60) { 1 + rng.below(4) } else { 0 }).map(|_| *rng.pick(CHARS)).collect();
    let bytes: Vec<u8> = few.iter().map(|c| *c as u32 as u8).collect();
    if !few.is_empty() { return V { n, s: if kind == 6 { (0..len).map(|_| *rng.pick(&few)).collect() } else { String::new() }, b: if kind == 7 { (0..len).map(|_| *rng.pick(&bytes)).collect() } else { vec![] } } }
    V {
        n,
        s: if kind == 6 { (0..len).map(|_| if rng.chance(85) { *rng.pick(CHARS) } else { char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('y') }).collect() } else { String::new() },
        b: if kind == 7 { (0..len).map(|_| if rng.chance(50) { rng.below(256) as u8 } else { *rng.pick(&[0, b'0', b'x', b'"', b'\'', b'\\', b'\n', b'\r', b'\t', 0x7f, 0x80, 0xff, b'a', b' ']) }).collect() } else { vec![] },
    }
}
pub fn generate(rng: &mut Rng, prop: &str) -> LeafPlan {
    let kind = if prop == "C18" { rng.weighted(&[4, 6, 10, 10, 10, 8, 14, 14, 24]) } else { rng.weighted(&[5, 8, 15, 15, 15, 10, 16, 16]) };
    let mut vals: Vec<V> = (0..1 + rng.below(4)).map(|_| some_val(rng, kind)).collect();
    // neighbours of values: equal up to one place
    for _ in 0..rng.below(3) {
        let mut v = rng.pick(&vals).clone();
        match rng.below(5) {
            0 => { v.n = v.n.wrapping_add(1); v.s.push('a'); v.b.push(0) }
            1 => { v.n ^= 1 << 63; v.s.pop(); v.b.pop(); }
            2 => { v.n = v.n.wrapping_sub(1); v.s.insert(0, 'a'); v.b.insert(0, 0) }
            3 => { v.n = !v.n; v.s = v.s.to_uppercase(); v.b.reverse() }
            _ => { v.n = v.n.swap_bytes(); v.s = v.s.chars().rev().collect(); if let Some(x) = v.b.last_mut() { *x ^= 0x80 } }
        }
        vals.push(v);
    }
    let nops = 1 + rng.weighted(&[4, 6, 8, 10, 12, 12, 10, 10, 8, 8, 6, 5, 4, 3, 2, 2]) + if rng.chance(5) { 20 } else { 0 };
    let ops = (0..nops).map(|_| {
        let op = rng.below(64);
        let (nv, lits) = (vals.len(), rng.chance(if prop == "C18" { 12 } else { 30 }));
        let v = rng.below(nv);
        let t = if lits {
            let neg = rng.chance(20);
            let lit = match kind { 0 => rng.pick(&["true", "false", "True", "r#true", "1", "_"]).to_string(), 1 => crate::gen::rand_lit_of(rng, 5), 2 | 3 => crate::gen::rand_lit_of(rng, 6), 4 => crate::gen::rand_lit_of(rng, 7), 5 => crate::gen::rand_lit_of(rng, 4), 6 => { let k = rng.below(2); crate::gen::rand_lit_of(rng, k) } _ => { let k = 2 + rng.below(2); crate::gen::rand_lit_of(rng, k) } };
            let lit = match rng.below(20) { 0 => crate::gen::rand_lit(rng), 1 => if matches!(kind, 2..=4) { lit } else { crate::gen::misspell(rng, &lit) }, _ => lit };
            format!("{}{lit}", if neg { "-" } else { "" })
        } else { String::new() };
        LOp { op, a: rng.below(64), h: rng.below(4096), v, t, abort: if rng.chance(30) { Some(rng.below(10)) } else { None } }
    }).collect();
    LeafPlan { kind, vals, ops }
}

// ---------------------------------------------------------------- plain values
#[derive(Clone, Debug, PartialEq)]
pub enum Val { Bool(bool), Byte(u8), Int(i128), Float(f64), Char(char), Str(String), Bytes(Vec<u8>) }
use Val::*;
fn same_bits(a: &Val, b: &Val) -> bool { match (a, b) { (Float(x), Float(y)) => x == y && x.is_nan() == y.is_nan(), _ => a == b } }
fn order(a: &Val, b: &Val) -> Ordering {
    match (a, b) {
        (Bool(a), Bool(b)) => a.cmp(b), (Byte(a), Byte(b)) => a.cmp(b), (Int(a), Int(b)) => a.cmp(b), (Float(a), Float(b)) => a.partial_cmp(b).unwrap(),
        (Char(a), Char(b)) => a.cmp(b), (Str(a), Str(b)) => a.as_bytes().cmp(b.as_bytes()), (Bytes(a), Bytes(b)) => a.cmp(b), _ => unreachable!(),
    }
}
/// the value the plan gives for a kind
fn val_of(kind: usize, v: &V) -> Val {
    match kind {
        0 => Bool(v.n & 1 == 1), 1 => Byte(v.n as u8), 2 => Int(v.n as i64 as i128), 3 => Int(v.n as i128),
        // infinities have no token
        4 => { let f = f64::from_bits(v.n); Float(if f.is_finite() { f } else { 0.5 }) }
        5 => Char(char::from_u32((v.n % 0x11_0000) as u32).unwrap_or('x')), 6 => Str(v.s.clone()), _ => Bytes(v.b.clone()),
    }
}
/// kind and value of the literal at the start of a token sequence, if there is exactly one
fn one_lit(lv: &Level) -> Option<Val> {
    let (neg, t) = match &lv.toks[..] { [t] => (false, t), [m, t] if matches!(m.k, TK::Punct('-', _)) => (true, t), _ => return None };
    match &t.k {
        TK::Ident(s) if !neg && s == "true" => Some(Bool(true)),
        TK::Ident(s) if !neg && s == "false" => Some(Bool(false)),
        TK::Lit(s) => {
            // one token may carry its sign
            let (neg, s) = match s.strip_prefix('-') { Some(r) if !neg => (true, r), Some(_) => return None, None => (neg, &s[..]) };
            match decode(s) {
                LV::Int(v) => Some(Int(if neg { -v } else { v })),
                LV::Big => Some(Int(if neg { i128::MIN } else { i128::MAX })),
                LV::Float(b) => Some(Float(if neg { -f64::from_bits(b) } else { f64::from_bits(b) })),
                LV::Str(s) if !neg => Some(Str(s)), LV::Bytes(b) if !neg => Some(Bytes(b)), LV::Char(c) if !neg => Some(Char(c)), LV::Byte(b) if !neg => Some(Byte(b)),
                _ => None,
            }
        }
        _ => None,
    }
}
fn level(ts: TokenStream) -> Level { lex_level(ts, None, &mut 0) }
/// does a literal kind (8: any) take the value, and as which kind
fn taken(kind: usize, v: &Val) -> Option<usize> {
    match (kind, v) {
        (0 | 8, Bool(_)) => Some(0), (1 | 8, Byte(_)) => Some(1),
        (2, Int(i)) => i64::try_from(*i).ok().map(|_| 2), (3, Int(i)) => u64::try_from(*i).ok().map(|_| 3),
        (8, Int(i)) => if *i < 0 { i64::try_from(*i).ok().map(|_| 2) } else { u64::try_from(*i).ok().map(|_| 3) },
        (4 | 8, Float(f)) => f.is_finite().then_some(4), (5 | 8, Char(_)) => Some(5), (6 | 8, Str(_)) => Some(6), (7 | 8, Bytes(_)) => Some(7),
        _ => None,
    }
}

// ---------------------------------------------------------------- the library's literals behind one interface
pub trait Leaf: Clone + Debug + Display + FromStr<Err = parsel::Error> + Parse + ToTokens + Ord + Hash + PartialOrd<Self::Raw> + PartialEq<Self::Raw> + Borrow<Self::Raw> + From<Self::Raw> + Into<Self::Raw> + Into<Lit> + Into<TokenTree> + Default + TryFromSyn {
    type Raw: Clone + Debug + Hash + Ord;
    const K: usize;
    fn mk(r: Self::Raw, s: Span) -> Self;
    fn val(&self) -> Self::Raw;
    fn inner(self) -> Self::Raw;
    fn at(&self) -> Span;
    fn put(&mut self, s: Span);
    fn tt(&self) -> TokenTree;
    fn raw_of(v: &Val) -> Self::Raw;
    fn of_raw(r: &Self::Raw) -> Val;
    fn unwrap(l: Lit) -> Result<Self, Lit>;
    fn lit_of_raw(r: Self::Raw) -> Lit;
    fn default_val() -> Val;
    /// further ways in
    fn form(v: &Val, h: usize) -> Self { let _ = h; Self::from(Self::raw_of(v)) }
    fn lit_form(v: &Val, h: usize) -> Lit { let _ = h; Self::lit_of_raw(Self::raw_of(v)) }
    /// further ways to look
    fn look(&mut self, v: &Val) -> Result<(), String> { let _ = v; Ok(()) }
    /// further comparisons: equality and order with the unsized form
    fn versus(&self, v: &Val, other: &Val) -> Result<(), String> { let _ = (v, other); Ok(()) }
    /// changes the value in place, where that is possible
    fn change(&mut self, h: usize) -> Option<Val> { let _ = h; None }
}
/// there and back through syn's literal; reading a text as syn's literal and converting it
pub trait TryFromSyn: Sized {
    fn round(self) -> Result<(Self, Span, TokenStream), String>;
    fn read(t: &str) -> Option<(Result<Self, parsel::Error>, Span)>;
    fn from_any(l: syn::Lit) -> Option<Result<Self, parsel::Error>>;
}
macro_rules! leaf { ($($t:ident $raw:ty, $k:expr, $var:ident, $syn:ident, $synvar:ident, $pat:pat => $x:expr, $val:expr, $conv:expr, { $($more:tt)* };)*) => {$(
    impl TryFromSyn for $t {
        fn round(self) -> Result<(Self, Span, TokenStream), String> {
            let s = syn::$syn::from(self);
            let (sp, ts) = (s.span(), s.to_token_stream());
            let c: fn(syn::$syn) -> parsel::Result<$t> = $conv;
            c(s).map(|x| (x, sp, ts)).map_err(|e| e.to_string())
        }
        fn read(t: &str) -> Option<(Result<Self, parsel::Error>, Span)> {
            let s: syn::$syn = parsel::parse_str(t).ok()?;
            let sp = s.span();
            let c: fn(syn::$syn) -> parsel::Result<$t> = $conv;
            Some((c(s), sp))
        }
        fn from_any(l: syn::Lit) -> Option<Result<Self, parsel::Error>> { let c: fn(syn::$syn) -> parsel::Result<$t> = $conv; match l { syn::Lit::$synvar(x) => Some(c(x)), _ => None } }
    }
    impl Leaf for $t {
        type Raw = $raw;
        const K: usize = $k;
        fn mk(r: $raw, s: Span) -> Self { $t::new(r, s) }
        fn val(&self) -> $raw { self.value() }
        fn inner(self) -> $raw { self.into_inner() }
        fn at(&self) -> Span { self.span() }
        fn put(&mut self, s: Span) { self.set_span(s) }
        fn tt(&self) -> TokenTree { self.token().into() }
        fn raw_of(v: &Val) -> $raw { match v.clone() { $pat => $x, v => panic!("model: {v:?} for kind {}", $k) } }
        fn of_raw(r: &$raw) -> Val { let f: fn(&$raw) -> Val = $val; f(r) }
        fn unwrap(l: Lit) -> Result<Self, Lit> { match l { Lit::$var(x) => Ok(x), l => Err(l) } }
        fn lit_of_raw(r: $raw) -> Lit { Lit::from(r) }
        fn default_val() -> Val { Self::of_raw(&Default::default()) }
        $($more)*
    }
)*} }

macro_rules! want { ($what:expr, $got:expr, $exp:expr) => { { let g = $got; let e = $exp; if g != e { return Err(format!("{} gives {:?} instead of {:?}", $what, g, e)) } } } }
leaf! {
    LitBool bool, 0, Bool, LitBool, Bool, Bool(b) => b, |r| Bool(*r), |s| Ok(LitBool::from(s)), {};
    LitByte u8, 1, Byte, LitByte, Byte, Byte(b) => b, |r| Byte(*r), |s| Ok(LitByte::from(s)), {};
    LitInt i64, 2, Int, LitInt, Int, Int(i) => i as i64, |r| Int(*r as i128), |s| LitInt::try_from(s), {};
    LitUint u64, 3, Uint, LitInt, Int, Int(i) => i as u64, |r| Int(*r as i128), |s| LitUint::try_from(s), {};
    LitFloat NotNan<f64>, 4, Float, LitFloat, Float, Float(f) => NotNan::new(f).unwrap(), |r| Float(r.into_inner()), |s| LitFloat::try_from(s), {
        fn form(v: &Val, h: usize) -> Self { let Float(f) = v else { panic!() }; match h % 2 { 0 => LitFloat::from(NotNan::new(*f).unwrap()), _ => LitFloat::try_from(*f).unwrap() } }
        fn lit_form(v: &Val, h: usize) -> Lit { let Float(f) = v else { panic!() }; match h % 2 { 0 => Lit::from(NotNan::new(*f).unwrap()), _ => Lit::try_from(*f).unwrap() } }
        fn look(&mut self, v: &Val) -> Result<(), String> {
            want!("f64::from", Float(f64::from(*self)), v.clone());
            want!("a literal of NaN", LitFloat::try_from(f64::NAN).is_err() && Lit::try_from(-f64::NAN).is_err(), true);
            Ok(())
        }
    };
    LitChar char, 5, Char, LitChar, Char, Char(c) => c, |r| Char(*r), |s| Ok(LitChar::from(s)), {};
    LitStr String, 6, Str, LitStr, Str, Str(s) => s, |r| Str(r.clone()), |s| Ok(LitStr::from(s)), {
        fn form(v: &Val, h: usize) -> Self { let Str(s) = v else { panic!() }; match h % 5 { 0 => LitStr::from(s.clone()), 1 => LitStr::from(&s[..]), 2 => LitStr::from(s.clone().into_boxed_str()), 3 => LitStr::from(Cow::Borrowed(&s[..])), _ => LitStr::from(Cow::<str>::Owned(s.clone())) } }
        fn lit_form(v: &Val, h: usize) -> Lit { let Str(s) = v else { panic!() }; match h % 5 { 0 => Lit::from(s.clone()), 1 => Lit::from(&s[..]), 2 => Lit::from(s.clone().into_boxed_str()), 3 => Lit::from(Cow::Borrowed(&s[..])), _ => Lit::from(Cow::<str>::Owned(s.clone())) } }
        fn look(&mut self, v: &Val) -> Result<(), String> {
            let Str(s) = v else { return Err("kind".into()) };
            want!("as_ref()", AsRef::<str>::as_ref(self), &s[..]);
            want!("deref", &**self, &s[..]);
            want!("borrow()", Borrow::<str>::borrow(self), &s[..]);
            want!("into a box", &*Box::<str>::from(self.clone()), &s[..]);
            want!("into a Cow", &*Cow::<str>::from(self.clone()), &s[..]);
            Ok(())
        }
        fn versus(&self, v: &Val, other: &Val) -> Result<(), String> {
            let (Str(a), Str(b)) = (v, other) else { return Err("kind".into()) };
            want!(format!("{a:?} == str {b:?}"), PartialEq::<str>::eq(self, &b[..]), a == b);
            want!(format!("{a:?} compared with str {b:?}"), PartialOrd::<str>::partial_cmp(self, &b[..]), Some(a.as_bytes().cmp(b.as_bytes())));
            Ok(())
        }
    };
    LitByteStr Vec<u8>, 7, ByteStr, LitByteStr, ByteStr, Bytes(b) => b, |r| Bytes(r.clone()), |s| Ok(LitByteStr::from(s)), {
        fn form(v: &Val, h: usize) -> Self { let Bytes(s) = v else { panic!() }; match h % 5 { 0 => LitByteStr::from(s.clone()), 1 => LitByteStr::from(&s[..]), 2 => LitByteStr::from(s.clone().into_boxed_slice()), 3 => LitByteStr::from(Cow::Borrowed(&s[..])), _ => LitByteStr::from(Cow::<[u8]>::Owned(s.clone())) } }
        fn lit_form(v: &Val, h: usize) -> Lit { let Bytes(s) = v else { panic!() }; match h % 5 { 0 => Lit::from(s.clone()), 1 => Lit::from(&s[..]), 2 => Lit::from(s.clone().into_boxed_slice()), 3 => Lit::from(Cow::Borrowed(&s[..])), _ => Lit::from(Cow::<[u8]>::Owned(s.clone())) } }
        fn look(&mut self, v: &Val) -> Result<(), String> {
            let Bytes(s) = v else { return Err("kind".into()) };
            want!("as_ref()", AsRef::<[u8]>::as_ref(self), &s[..]);
            want!("as_mut()", AsMut::<[u8]>::as_mut(self), &mut s.clone()[..]);
            want!("deref", &**self, &s[..]);
            want!("deref_mut", self.deref_mut(), &mut s.clone()[..]);
            want!("borrow()", Borrow::<[u8]>::borrow(self), &s[..]);
            want!("borrow_mut()", BorrowMut::<[u8]>::borrow_mut(self), &mut s.clone()[..]);
            want!("into a box", &*Box::<[u8]>::from(self.clone()), &s[..]);
            want!("into a Cow", &*Cow::<[u8]>::from(self.clone()), &s[..]);
            Ok(())
        }
        fn versus(&self, v: &Val, other: &Val) -> Result<(), String> {
            let (Bytes(a), Bytes(b)) = (v, other) else { return Err("kind".into()) };
            want!(format!("{a:?} == slice {b:?}"), PartialEq::<[u8]>::eq(self, &b[..]), a == b);
            want!(format!("{a:?} compared with slice {b:?}"), PartialOrd::<[u8]>::partial_cmp(self, &b[..]), Some(a.cmp(b)));
            Ok(())
        }
        fn change(&mut self, h: usize) -> Option<Val> {
            let n = self.len();
            let x = (h >> 4) as u8;
            if n > 0 { match h % 3 { 0 => self[h % n] = x, 1 => AsMut::<[u8]>::as_mut(self)[h % n] = x, _ => BorrowMut::<[u8]>::borrow_mut(self)[h % n] = x } }
            // what the change should have made of it is worked out by the caller
            Some(Bytes(vec![x]))
        }
    };
}
fn changed(v: &Val, h: usize) -> Val { match v { Bytes(b) => { let mut b = b.clone(); let n = b.len(); if n > 0 { b[h % n] = (h >> 4) as u8 } Bytes(b) } v => v.clone() } }
fn lit_val(l: &Lit) -> (usize, Val) {
    match l { Lit::Bool(x) => (0, Bool(x.value())), Lit::Byte(x) => (1, Byte(x.value())), Lit::Int(x) => (2, Int(x.value() as i128)), Lit::Uint(x) => (3, Int(x.value() as i128)),
        Lit::Float(x) => (4, Float(x.value().into_inner())), Lit::Char(x) => (5, Char(x.value())), Lit::Str(x) => (6, Str(x.value())), Lit::ByteStr(x) => (7, Bytes(x.value())) }
}

thread_local! { static FUSE: Cell<usize> = const { Cell::new(usize::MAX) }; }
fn user() { FUSE.with(|f| match f.get() { 0 => { f.set(usize::MAX); std::panic::panic_any(crate::coll::USER_PANIC) } usize::MAX => {} n => f.set(n - 1) }) }
fn armed<R>(abort: Option<usize>, o: &mut Out, f: impl FnOnce() -> R) -> Result<R, String> {
    FUSE.with(|x| x.set(abort.unwrap_or(usize::MAX)));
    let r = catch_unwind(AssertUnwindSafe(f));
    FUSE.with(|x| x.set(usize::MAX));
    r.map_err(|p| { let t = panic_text(&*p); if t == crate::coll::USER_PANIC { o.fire("user_code_panic", 1) } t })
}
/// a destination that fails from its `left`th byte on
struct Sink { got: String, left: usize, failed: bool }
impl Write for Sink { fn write_str(&mut self, s: &str) -> fmt::Result { if s.len() > self.left { self.failed = true; return Err(fmt::Error) } self.left -= s.len(); self.got.push_str(s); Ok(()) } }

fn spread(sp: Span) -> Option<(usize, usize)> { let r = brange(sp); if r.0 == r.1 { None } else { Some(r) } }

#[derive(Clone, Debug)]
enum N<T> { Bare(T), Any(Lit) }
#[derive(Clone, Debug)]
struct Slot<T> { n: N<T>, kind: usize, v: Val, at: Option<(usize, usize)> }

/// the value, location and tokens seen through every way of looking at a literal
fn views<T: Leaf>(x: &mut Slot<T>, deep: bool) -> Result<(), String> {
    let (v, kind, at) = (x.v.clone(), x.kind, x.at);
    let toks = |what: &str, ts: TokenStream, spanned: bool| -> Result<(), String> {
        let lv = level(ts);
        let got = one_lit(&lv);
        if !got.as_ref().is_some_and(|g| same_bits(g, &v)) { return Err(format!("{what} gives tokens of {got:?} instead of {v:?}")) }
        if spanned {
            let (s, e) = (lv.toks.first().unwrap().s, lv.toks.last().unwrap().e);
            let got = if s == e { None } else { Some((s, e)) };
            want!(format!("the location of {what}"), got, at);
        }
        Ok(())
    };
    let text = |what: &str, s: String| -> Result<(), String> { let ts: TokenStream = s.parse().map_err(|e| format!("{what} gives {s:?}, which is no token: {e}"))?; toks(what, ts, false) };
    let val = |what: &str, g: Val| -> Result<(), String> { if same_bits(&g, &v) { Ok(()) } else { Err(format!("{what} gives {g:?} instead of {v:?}")) } };
    match &mut x.n {
        N::Bare(n) => {
            val("value()", T::of_raw(&n.val()))?;
            want!("span()", spread(n.at()), at);
            val("borrow()", T::of_raw(Borrow::<T::Raw>::borrow(n)))?;
            toks("to_tokens()", n.to_token_stream(), true)?;
            toks("token()", n.tt().into(), true)?;
            text("Display", n.to_string())?;
            if deep {
                val("into_inner()", T::of_raw(&n.clone().inner()))?;
                let r: T::Raw = n.clone().into();
                val("conversion to a plain value", T::of_raw(&r))?;
                toks("conversion to a token", { let t: TokenTree = n.clone().into(); t.into() }, true)?;
                let (y, sp, ts) = n.clone().round().map_err(|e| format!("the conversion to syn's literal and back fails: {e}"))?;
                toks("conversion to syn's literal", ts, true)?;
                want!("the location of syn's literal", spread(sp), at);
                val("conversion to syn's literal and back", T::of_raw(&y.val()))?;
                want!("the location after the conversion to syn's literal and back", spread(y.at()), at);
                let l: Lit = n.clone().into();
                want!("the kind of the literal wrapped in Lit", lit_val(&l).0, kind);
                val("wrapping in Lit", lit_val(&l).1)?;
                want!("the location of the literal wrapped in Lit", spread(l.span()), at);
            }
            n.look(&v)?;
            want!("the printed forms of Debug", format!("{n:?}"), format!("{:?}", n.clone()));
        }
        N::Any(l) => {
            let (k, g) = lit_val(l);
            want!("the kind of Lit", k, kind);
            val("the value in Lit", g)?;
            want!("Lit::span()", spread(l.span()), at);
            toks("to_tokens() of Lit", l.to_token_stream(), true)?;
            text("Display of Lit", l.to_string())?;
            if deep {
                let s = syn::Lit::from(l.clone());
                want!("the location of syn's Lit", spread(s.span()), at);
                toks("conversion to syn's Lit", s.to_token_stream(), true)?;
                let y = Lit::try_from(s).map_err(|e| format!("the conversion to syn's Lit and back fails: {e}"))?;
                let (k2, g2) = lit_val(&y);
                want!("the kind after the conversion to syn's Lit and back", Some(k2), taken(8, &v));
                val("conversion to syn's Lit and back", g2)?;
                want!("the location after the conversion to syn's Lit and back", spread(y.span()), at);
            }
        }
    }
    Ok(())
}
/// the wanted tail of reading tokens: (kind if accepted)
fn reading<T: Leaf>(any: bool, v: Option<&Val>) -> Option<usize> { v.and_then(|v| taken(if any { 8 } else { T::K }, v)) }

const NAMES: &[&str] = &["new", "from a plain value", "Lit from a plain value", "wrap or unwrap", "through syn's literal", "through its tokens", "through its token", "through its text", "through its text", "clone", "set_span", "change in place", "through the plain value", "print", "replace by a default", "read a text"];
fn world<T: Leaf>(plan: &LeafPlan, o: &mut Out) {
    let spans = some_spans();
    let vals: Vec<Val> = plan.vals.iter().map(|v| val_of(T::K, v)).collect();
    if vals.is_empty() { return }
    // (a default literal first)
    let mut ws: Vec<Slot<T>> = vec![Slot { n: N::Bare(T::default()), kind: T::K, v: T::default_val(), at: None }];
    for (k, op) in plan.ops.iter().enumerate() {
        o.steps += 1;
        let i = op.a % ws.len();
        let v = vals[op.v % vals.len()].clone();
        let sp = spans[op.h % spans.len()];
        let at = spread(sp);
        let before = format!("{:?}", ws[i]);
        let mut next: Slot<T> = ws[i].clone();
        let mut fresh = op.h % 3 == 0;
        let opn = if op.t.is_empty() { op.op % 15 } else { 15 };
        // a result read from tokens must be the value, or be refused
        let read = |what: &str, any: bool, v: Option<&Val>, r: Result<N<T>, parsel::Error>, o: &mut Out| -> Result<Option<(N<T>, usize)>, String> {
            // a signed zero is a number with a sign
            let signed = T::K == 3 && !any && opn == 15 && op.t.starts_with('-');
            match (reading::<T>(any, v).filter(|_| !signed), r) {
                (Some(k), Ok(n)) => Ok(Some((n, k))),
                (None, Err(_)) => { o.fire("conversion_refused", 1); Ok(None) }
                (Some(_), Err(e)) => Err(format!("{what} of {v:?} is refused: {e}")),
                (None, Ok(n)) => Err(format!("{what} of {v:?} is accepted as {n:?}")),
            }
        };
        let r: Result<(), String> = (|| {
            match opn {
                0 => { next = Slot { n: N::Bare(T::mk(T::raw_of(&v), sp)), kind: T::K, v, at }; fresh = true }
                1 => { next = Slot { n: N::Bare(T::form(&v, op.h)), kind: T::K, v, at: None }; fresh = true }
                2 => { next = Slot { n: N::Any(T::lit_form(&v, op.h)), kind: T::K, v, at: None }; fresh = true }
                3 => {
                    next.n = match next.n.clone() { N::Bare(x) => N::Any(x.into()), N::Any(l) => match T::unwrap(l) { Ok(x) => N::Bare(x), Err(l) => { if next.kind == T::K { return Err(format!("Lit holds {l:?} under another kind")) } N::Any(l) } } }
                }
                4 => {
                    match next.n.clone() {
                        N::Bare(x) => match x.round() { Ok((x, ..)) => next.n = N::Bare(x), Err(e) => return Err(format!("refused: {e}")) },
                        N::Any(l) => match Lit::try_from(syn::Lit::from(l)) { Ok(l) => { next.kind = taken(8, &next.v).unwrap_or(99); next.n = N::Any(l) } Err(e) => return Err(format!("refused: {e}")) },
                    }
                }
                5 | 6 => {
                    let ts = match &next.n { N::Bare(x) if opn == 6 => TokenStream::from(x.tt()), N::Bare(x) => x.to_token_stream(), N::Any(l) => l.to_token_stream() };
                    let any = op.h & 64 != 0;
                    let r = if any { syn::parse2::<Lit>(ts).map(N::Any) } else { syn::parse2::<T>(ts).map(N::Bare) };
                    match read("reading it back", any, Some(&next.v), r, o) { Ok(Some((n, k))) => { next.n = n; next.kind = k } Ok(None) => {} Err(e) => return Err(e) }
                }
                7 | 8 => {
                    let s = match &next.n { N::Bare(x) => x.to_string(), N::Any(l) => l.to_string() };
                    let any = op.h & 64 != 0;
                    let r = match (any, op.h & 128 != 0) { (true, true) => s.parse::<Lit>().map(N::Any), (true, false) => parsel::parse_str::<Lit>(&s).map(N::Any), (false, true) => s.parse::<T>().map(N::Bare), (false, false) => parsel::parse_str::<T>(&s).map(N::Bare) };
                    match read("reading it back", any, Some(&next.v), r, o) { Ok(Some((n, k))) => { next.at = spread(match &n { N::Bare(x) => x.at(), N::Any(l) => l.span() }); next.n = n; next.kind = k } Ok(None) => {} Err(e) => return Err(e) }
                }
                9 => { fresh = true }
                10 => { next.at = at; match &mut next.n { N::Bare(x) => x.put(sp), N::Any(l) => l.set_span(sp) } }
                11 => { if let N::Bare(x) = &mut next.n { next.v = changed(&next.v, op.h); x.change(op.h); } }
                12 => { if let N::Bare(x) = next.n.clone() { let r: T::Raw = if op.h & 64 != 0 { x.into() } else { x.inner() }; next.at = None; next.n = N::Bare(T::from(r)) } }
                13 => {
                    let full = match &next.n { N::Bare(x) => x.to_string(), N::Any(l) => l.to_string() };
                    let mut s = Sink { got: String::new(), left: if op.abort.is_some() { op.h % (full.len() + 1) } else { usize::MAX }, failed: false };
                    let r = match &next.n { N::Bare(x) => write!(s, "{x}"), N::Any(l) => write!(s, "{l}") };
                    if s.failed { o.fire("sink_error", 1) }
                    if r.is_err() != s.failed { return Err(format!("printing returns {r:?} although the destination {}", if s.failed { "failed" } else { "did not fail" })) }
                    if !full.starts_with(&s.got) || (!s.failed && s.got != full) { return Err(format!("printing wrote {:?} of {full:?}", s.got)) }
                }
                14 => { next = Slot { n: N::Bare(T::default()), kind: T::K, v: T::default_val(), at: None } }
                _ => {
                    // (the one thing the tokenizer must do right here)
                    let Ok(ts) = op.t.parse::<TokenStream>() else { o.probe("no_token_text", 1); return Ok(()) };
                    let v = one_lit(&level(ts.clone()));
                    let any = op.h & 64 != 0;
                    let (n, k) = match op.op % 6 {
                        0 => { let r = if any { op.t.parse::<Lit>().map(N::Any) } else { op.t.parse::<T>().map(N::Bare) }; match read("reading", any, v.as_ref(), r, o) { Ok(Some(x)) => x, Ok(None) => return Ok(()), Err(e) => return Err(e) } }
                        1 => { let r = if any { syn::parse2::<Lit>(ts).map(N::Any) } else { syn::parse2::<T>(ts).map(N::Bare) }; match read("reading", any, v.as_ref(), r, o) { Ok(Some(x)) => x, Ok(None) => return Ok(()), Err(e) => return Err(e) } }
                        2 => {
                            let Some((r, sp)) = T::read(&op.t) else { return Ok(()) };
                            let r = r.and_then(|x| if spread(x.at()) == spread(sp) { Ok(x) } else { Err(syn::Error::new(sp, "LOCATION")) });
                            match read("the conversion of syn's literal", false, v.as_ref(), r.map(N::Bare), o) { Ok(Some(x)) => x, Ok(None) => return Ok(()), Err(e) => return Err(e) }
                        }
                        3 => {
                            let Ok(l) = parsel::parse_str::<syn::Lit>(&op.t) else { return Ok(()) };
                            let Some(r) = T::from_any(l) else { return Ok(()) };
                            match read("the conversion of syn's literal", false, v.as_ref(), r.map(N::Bare), o) { Ok(Some(x)) => x, Ok(None) => return Ok(()), Err(e) => return Err(e) }
                        }
                        4 => {
                            let Ok(l) = parsel::parse_str::<syn::Lit>(&op.t) else { return Ok(()) };
                            match read("the conversion of syn's Lit", true, v.as_ref(), Lit::try_from(l).map(N::Any), o) { Ok(Some(x)) => x, Ok(None) => return Ok(()), Err(e) => return Err(e) }
                        }
                        _ => { let r = if any { parsel::parse_str::<Lit>(&op.t).map(N::Any) } else { parsel::parse_str::<T>(&op.t).map(N::Bare) }; match read("reading", any, v.as_ref(), r, o) { Ok(Some(x)) => x, Ok(None) => return Ok(()), Err(e) => return Err(e) } }
                    };
                    let at = spread(match &n { N::Bare(x) => x.at(), N::Any(l) => l.span() });
                    next = Slot { n, kind: k, v: v.unwrap(), at };
                    fresh = true;
                }
            }
            Ok(())
        })();
        let ctx = |what: &str| format!("operation {k} ({}, {op:?}) on {before}: {what}", NAMES[opn]);
        if let Err(e) = r { return o.bad("conversion", ctx(&e)) }
        if let Err(e) = views(&mut next, op.h % 2 == 0 || k + 1 == plan.ops.len()) { return o.bad("view", ctx(&format!("afterwards {e}"))) }
        o.log(&format!("{} {:?} {:?} {};", op.op, next.v, next.at, next.kind));
        // the others are as they were
        if fresh && ws.len() < 6 { ws.push(next) } else { ws[i] = next }
        let j = op.h % ws.len();
        if let Err(e) = views(&mut ws[j], false) { return o.bad("view", ctx(&format!("afterwards another literal: {e}"))) }
    }
    o.nontrivial = plan.ops.len() >= 4 || !o.fired.is_empty();
}

// ---------------------------------------------------------------- C18
/// a hasher that keeps everything written to it and panics at a chosen write
#[derive(Default)]
struct Rec { got: Vec<u8> }
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) { user(); self.got.extend_from_slice(b) }
    fn finish(&self) -> u64 { mix(fnv(7, &self.got)) }
}
#[derive(Clone, Default)]
struct Build;
impl BuildHasher for Build { type Hasher = Rec; fn build_hasher(&self) -> Rec { Rec::default() } }
fn hash_of<X: Hash + ?Sized>(x: &X) -> Vec<u8> { let mut h = Rec::default(); x.hash(&mut h); h.got }
fn order_claims<X: Ord + Debug>(a: &X, b: &X, want: Ordering) -> Result<(), String> {
    let c = a.cmp(b);
    if c != want { return Err(format!("{a:?} compared with {b:?} gives {c:?} instead of {want:?}")) }
    if a.partial_cmp(b) != Some(want) { return Err(format!("partial_cmp of {a:?} and {b:?} gives {:?} instead of {want:?}", a.partial_cmp(b))) }
    let ops = ((a < b), (a <= b), (a > b), (a >= b));
    let exp = (want.is_lt(), want.is_le(), want.is_gt(), want.is_ge());
    if ops != exp { return Err(format!("the operators < <= > >= on {a:?} and {b:?} give {ops:?}")) }
    Ok(())
}
fn eq_claims<X: PartialEq + Hash + Debug>(a: &X, b: &X, want: bool) -> Result<(), String> {
    if (a == b) != want || (b == a) != want || (a != b) == want { return Err(format!("{a:?} == {b:?} gives {}/{}, != gives {}, instead of {want}", a == b, b == a, a != b)) }
    if want && hash_of(a) != hash_of(b) { return Err(format!("{a:?} and {b:?} are equal but hash differently")) }
    Ok(())
}
fn values<T: Leaf>(plan: &LeafPlan, o: &mut Out) {
    let spans = some_spans();
    let vals: Vec<Val> = plan.vals.iter().map(|v| val_of(T::K, v)).collect();
    if vals.is_empty() { return }
    let mut ws: Vec<(T, Val)> = vec![(T::default(), T::default_val())];
    // models: what is in the maps, in no order
    let mut hm: HashMap<T, usize, Build> = HashMap::with_hasher(Build);
    let mut bm: BTreeMap<T, usize> = BTreeMap::new();
    let mut m: Vec<(Val, usize)> = vec![];
    for (k, op) in plan.ops.iter().enumerate() {
        o.steps += 1;
        let v = vals[op.v % vals.len()].clone();
        let sp = spans[op.h % spans.len()];
        let i = op.a % ws.len();
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
            let has = |m: &Vec<(Val, usize)>, v: &Val| m.iter().position(|x| order(&x.0, v).is_eq());
            match op.op % 12 {
                0..=3 => {
                    // the same value, made in different ways and at different places
                    let x: Option<T> = match op.h / 64 % 6 {
                        0 => Some(T::mk(T::raw_of(&v), sp)),
                        1 => Some(T::form(&v, op.a)),
                        2 => T::unwrap(T::lit_form(&v, op.a)).ok(),
                        3 => syn::parse2(T::mk(T::raw_of(&v), sp).to_token_stream()).ok(),
                        4 => T::mk(T::raw_of(&v), sp).to_string().parse().ok(),
                        _ => { if let Ok(x) = op.t.parse::<T>() { let v = T::of_raw(&x.val()); ws.push((x, v)); } None }
                    };
                    if let Some(x) = x { ws.push((x, v)) }
                }
                4 => { let (x, v) = ws[i].clone(); ws.push((x, v)) }
                5 => ws[i].0.put(sp),
                6 | 7 => {
                    let x = ws[i].clone();
                    match armed(op.abort, o, || hm.insert(x.0.clone(), k)) {
                        Ok(old) => {
                            let want = has(&m, &x.1).map(|j| m[j].1);
                            if old != want { return Err(format!("insert of {x:?} replaces {old:?} instead of {want:?}")) }
                            let b = bm.insert(x.0, k);
                            if b != want { return Err(format!("insert of {:?} into the ordered map replaces {b:?} instead of {want:?}", x.1)) }
                            match has(&m, &x.1) { Some(j) => m[j].1 = k, None => m.push((x.1, k)) }
                        }
                        Err(t) if t == crate::coll::USER_PANIC => o.probe("operation_cut_short", 1),
                        Err(t) => return Err(format!("insert panicked: {t}")),
                    }
                }
                8 => {
                    let x = ws[i].clone();
                    match armed(op.abort, o, || hm.remove::<T::Raw>(x.0.borrow())) {
                        Ok(old) => {
                            let j = has(&m, &x.1);
                            let want = j.map(|j| m[j].1);
                            let b = bm.remove::<T::Raw>(x.0.borrow());
                            if old != want || b != want { return Err(format!("removal of {x:?} gives {old:?} and {b:?} instead of {want:?}")) }
                            if let Some(j) = j { m.swap_remove(j); }
                        }
                        Err(t) if t == crate::coll::USER_PANIC => o.probe("operation_cut_short", 1),
                        Err(t) => return Err(format!("removal panicked: {t}")),
                    }
                }
                9 => { let x = &ws[i]; match armed(op.abort, o, || hash_of(&x.0)) { Ok(_) => {} Err(t) if t == crate::coll::USER_PANIC => o.probe("operation_cut_short", 1), Err(t) => return Err(format!("hashing panicked: {t}")) } }
                10 => {
                    let mut s: Vec<T> = ws.iter().map(|x| x.0.clone()).collect();
                    let mut e: Vec<Val> = ws.iter().map(|x| x.1.clone()).collect();
                    match op.h % 4 { 0 => s.sort(), 1 => s.sort_by(|a, b| b.cmp(a)), 2 => s.sort_unstable(), _ => { s.sort(); s.dedup() } }
                    e.sort_by(order);
                    if op.h % 4 == 1 { e.reverse() }
                    if op.h % 4 == 3 { e.dedup_by(|a, b| order(a, b).is_eq()) }
                    if s.len() != e.len() || s.iter().zip(&e).any(|(s, e)| order(&T::of_raw(&s.val()), e).is_ne()) { return Err(format!("sorting gives {s:?} instead of {e:?}")) }
                    let (mx, mn) = (ws.iter().map(|x| x.0.clone()).max().unwrap(), ws.iter().map(|x| x.0.clone()).min().unwrap());
                    e.sort_by(order);
                    if order(&T::of_raw(&mx.val()), &e[e.len() - 1]).is_ne() || order(&T::of_raw(&mn.val()), &e[0]).is_ne() { return Err(format!("max and min give {mx:?} and {mn:?}")) }
                }
                _ => { let h = op.h; let w = &mut ws[i]; let n = changed(&w.1, h); if w.0.change(h).is_some() { w.1 = n } }
            }
            if ws.len() > 7 { let j = 1 + op.h % 6; ws.swap_remove(j); }
            // the changed or last one against all
            let all = ws.len();
            let j = if op.op % 12 <= 4 { all - 1 } else { op.h % all };
            let (a, va) = &ws[j];
            for (b, vb) in &ws {
                let w = order(va, vb);
                eq_claims(a, b, w.is_eq())?;
                order_claims(a, b, w)?;
                order_claims(b, a, w.reverse())?;
                let r = T::raw_of(vb);
                if (*a == r) != w.is_eq() { return Err(format!("{a:?} == plain {r:?} gives {}", *a == r)) }
                if a.partial_cmp(&r) != Some(w) { return Err(format!("{a:?} compared with plain {r:?} gives {:?} instead of {w:?}", a.partial_cmp(&r))) }
                a.versus(va, vb)?;
                let (la, lb): (Lit, Lit) = (a.clone().into(), b.clone().into());
                eq_claims(&la, &lb, w.is_eq())?;
            }
            if hash_of(a) != hash_of(&T::raw_of(va)) { return Err(format!("{a:?} hashes differently from its plain value, which it can be borrowed as")) }
            if hash_of(Borrow::<T::Raw>::borrow(a)) != hash_of(a) { return Err(format!("{a:?} hashes differently from what it can be borrowed as")) }
            // the maps
            if hm.len() != m.len() || bm.len() != m.len() { return Err(format!("the maps hold {} and {} literals instead of {}", hm.len(), bm.len(), m.len())) }
            for (v, n) in ws.iter().map(|x| &x.1).map(|v| (v, has(&m, v).map(|j| m[j].1))) {
                let r = T::raw_of(v);
                if hm.get(&r) != n.as_ref() || bm.get(&r) != n.as_ref() { return Err(format!("looking {r:?} up gives {:?} and {:?} instead of {n:?}", hm.get(&r), bm.get(&r))) }
                let x = T::mk(r, sp);
                if hm.get::<T>(&x) != n.as_ref() || bm.get::<T>(&x) != n.as_ref() { return Err(format!("looking {x:?} up gives {:?} and {:?} instead of {n:?}", hm.get::<T>(&x), bm.get::<T>(&x))) }
            }
            let mut s = m.clone();
            s.sort_by(|a, b| order(&a.0, &b.0));
            if bm.values().ne(s.iter().map(|x| &x.1)) { return Err(format!("the ordered map is in the order {:?} instead of {s:?}", bm)) }
            Ok(())
        }));
        let ctx = |what: &str| format!("operation {k} ({op:?}): {what}");
        match r { Ok(Ok(())) => {} Ok(Err(e)) => return o.bad("comparison", ctx(&e)), Err(p) => return o.bad("panic", ctx(&format!("panicked: {}", panic_text(&*p)))) }
        o.log(&format!("{} {} {};", op.op, ws.len(), m.len()));
    }
    o.nontrivial = plan.ops.len() >= 4 || !o.fired.is_empty();
}

/// everything else that is compared: words, keywords, and nodes around literals
fn nodes(plan: &LeafPlan, o: &mut Out) {
    use crate::dynast::{kws, kws2, CIdent, CIdent2};
    let spans = some_spans();
    let words = ["a", "b", "ab", "B", "alpha", "fn", "r#fn", "_", "__", "a_", "\u{e9}", "\u{65e5}", "type", "r#type", "self", "x", "gamma", "zz9", "Alpha", "true", "a_longer_word", "r#a_longer_word", "continue"];
    for (k, op) in plan.ops.iter().enumerate() {
        o.steps += 1;
        let (s1, s2) = (spans[op.a % spans.len()], spans[op.h % spans.len()]);
        // two lists of small numbers that are equal, or differ in one place, or in length
        let n = op.v % 6 + usize::from(op.h % 97 == 0) * 40;
        let xs: Vec<u64> = (0..n as u64).map(|i| mix(op.a as u64 * 64 + i) % 3).collect();
        let mut ys = xs.clone();
        let alter = op.h / 8 % 12;
        let p = (op.h >> 6) % (n.max(1));
        match alter {
            0..=3 => {}
            4 => if n > 0 { ys[p] += 1 },
            5 => ys.push(op.a as u64 % 3),
            6 => { ys.pop(); }
            7 => if n > 1 { ys.swap(0, n - 1) },
            8 => if n > 0 { ys.remove(p); },
            9 => if n > 0 { ys.drain(..1 + p); },
            10 => ys.insert(p, op.v as u64 % 3),
            _ => ys.reverse(),
        }
        let same = xs == ys;
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
            let uint = |v: &u64, s: Span| LitUint::new(*v, s);
            let list = |v: &[u64], s: Span, plain: bool| -> Any<LitUint> { if plain { v.iter().map(|x| uint(x, s)).collect() } else { let mut t = TokenStream::new(); for x in v { uint(x, s).to_tokens(&mut t) } syn::parse2(t).unwrap() } };
            let commas = |v: &[u64], s: Span, plain: bool| -> Punctuated<LitUint, token::Comma> { if plain { v.iter().map(|x| uint(x, s)).collect() } else { let mut t = TokenStream::new(); for (i, x) in v.iter().enumerate() { if i > 0 { token::Comma(s).to_tokens(&mut t) } uint(x, s).to_tokens(&mut t) } syn::parse2(t).unwrap() } };
            let plain = op.h & 1 == 0;
            macro_rules! both { ($f:expr) => {{ let f = $f; eq_claims(&f(&xs, s1, true), &f(&ys, s2, plain), same) }} }
            match op.op % 20 {
                0 => both!(list)?,
                1 => both!(commas)?,
                2 => both!(|v: &[u64], s, p| Paren::new(list(v, s, p), s))?,
                3 => both!(|v: &[u64], s, p| Bracket::new(list(v, s, p), s))?,
                4 => both!(|v: &[u64], s, p| Brace::new(commas(v, s, p), s))?,
                5 => if !xs.is_empty() && !ys.is_empty() { both!(|v: &[u64], s, p| Separated::try_from(commas(v, s, p).into_inner()).unwrap())? },
                // separators that carry a value count, too, and so does a trailing one
                6 => {
                    let f = |v: &[u64], s: Span, _p: bool| { let mut x: Punctuated<LitUint, LitUint> = Punctuated::new(); for (i, n) in v.iter().enumerate() { if i % 2 == 0 { x.push_value(uint(n, s)) } else { x.push_punct(uint(n, s)) } } x };
                    both!(f)?;
                    let g = |v: &[u64], s: Span, _p: bool| { let mut x: Separated<LitUint, LitUint> = Separated::from_parts_or(v, s); x.extend([(uint(&9, s), uint(&9, s))]); x };
                    both!(g)?
                }
                7 => both!(|v: &[u64], s, _p: bool| -> Maybe<LitUint, LitUint> { if v.len() < 2 { Maybe::new() } else { Maybe::from((uint(&v[0], s), uint(&v[1], s))) } }).or_else(|e| if xs.len() < 2 && ys.len() < 2 || xs.get(..2) == ys.get(..2) { eq_claims(&0, &0, true) } else { Err(e) })?,
                8 => {
                    let f = |v: &[u64], s: Span| -> Either<Any<LitUint>, Any<LitUint>> { if v.iter().sum::<u64>() % 2 == 0 { Either::Left(list(v, s, true)) } else { Either::Right(list(v, s, true)) } };
                    eq_claims(&f(&xs, s1), &f(&ys, s2), same)?;
                    // the same contents on different sides
                    let (l, r): (Either<Any<LitUint>, Any<LitUint>>, Either<Any<LitUint>, Any<LitUint>>) = (Either::Left(list(&xs, s1, true)), Either::Right(list(&ys, s2, true)));
                    eq_claims(&l, &r, false)?;
                    let (a, b) = (xs.first().copied().unwrap_or(0), ys.first().copied().unwrap_or(0));
                    let e = |r: bool, v: u64, s: Span| -> Either<LitUint, LitUint> { if r { Either::Right(uint(&v, s)) } else { Either::Left(uint(&v, s)) } };
                    let (ra, rb) = (op.h & 2 != 0, op.h & 4 != 0);
                    order_claims(&e(ra, a, s1), &e(rb, b, s2), ra.cmp(&rb).then(a.cmp(&b)))?
                }
                9 | 10 => {
                    let first = |v: &[u64], s: Span| uint(v.first().unwrap_or(&50), s);
                    let f = |v: &[u64], s: Span, _p: bool| { let mut x: LeftAssoc<LitUint, LitUint> = LeftAssoc::from(first(v, s)); for p in v.iter().skip(1) { x = LeftAssoc::Binary { lhs: Box::new(x), op: uint(&(p / 2), s), rhs: uint(p, s) } } x };
                    let g = |v: &[u64], s: Span, _p: bool| { let mut x: RightAssoc<LitUint, LitUint> = RightAssoc::from(first(v, s)); for p in v.iter().skip(1) { x = RightAssoc::Binary { rhs: Box::new(x), op: uint(&(p / 2), s), lhs: uint(p, s) } } x };
                    // differing in the operators only, and in the operand at the bottom only
                    let at = op.h % xs.len().max(1);
                    let h = |other: bool, s: Span| { let mut x: LeftAssoc<LitUint, LitUint> = LeftAssoc::from(uint(&5, s)); for (i, p) in xs.iter().enumerate() { x = LeftAssoc::Binary { lhs: Box::new(x), op: uint(&(p + u64::from(other && i == at)), s), rhs: uint(p, s) } } x };
                    let k = |other: bool, s: Span| { let mut x: RightAssoc<LitUint, LitUint> = RightAssoc::from(uint(&(5 + u64::from(other && xs.is_empty())), s)); for (i, p) in xs.iter().enumerate() { x = RightAssoc::Binary { rhs: Box::new(x), op: uint(&(p + u64::from(other && i == at)), s), lhs: uint(p, s) } } x };
                    let other = op.h & 4 != 0;
                    eq_claims(&h(false, s1), &h(other, s2), !other || xs.is_empty())?;
                    eq_claims(&k(false, s1), &k(other, s2), !other)?;
                    both!(f)?;
                    both!(g)?
                }
                11 => {
                    // the kinds of literals are told apart, whatever the value
                    let (a, b) = (xs.first().copied().unwrap_or(0), ys.first().copied().unwrap_or(0));
                    let f = |k: usize, v: u64, s: Span| -> Lit {
                        let mut l = match k % 8 { 0 => Lit::from(v % 2 == 1), 1 => Lit::from(v as u8), 2 => Lit::from(v as i64), 3 => Lit::from(v), 4 => Lit::try_from(v as f64).unwrap(), 5 => Lit::from((b'0' + v as u8) as char), 6 => Lit::from(v.to_string()), _ => Lit::from(v.to_string().into_bytes()) };
                        l.set_span(s);
                        l
                    };
                    let (ka, kb) = (op.h % 8, if alter % 2 == 0 { op.h % 8 } else { op.h / 8 % 8 });
                    eq_claims(&f(ka, a, s1), &f(kb, b, s2), ka == kb && (a == b || ka == 0 && a % 2 == b % 2))?
                }
                12..=16 => {
                    // words, and their relation to text, identifiers and keywords
                    let a = words[op.a % words.len()];
                    let near;
                    let b = match alter { 0..=3 => a, 4..=6 => { let mut r = Rng::new(op.h as u64); near = crate::gen::misspell(&mut r, a); &near[..] } _ => words[op.h % words.len()] };
                    if b.strip_prefix("r#").unwrap_or(b).is_empty() || syn::parse_str::<Word>(b).is_err() { return Ok(()) }
                    let id = |t: &str, s: Span| match t.strip_prefix("r#") { Some(r) => Ident::new_raw(r, s), None => Ident::new(t, s) };
                    let w = |t: &str, s: Span, k: usize| -> Word { match k % 3 { 0 => Word::try_from(id(t, s)).unwrap(), 1 => t.parse().unwrap(), _ => { let mut x: Word = syn::parse2(id(t, s).to_token_stream()).unwrap(); x.set_span(s); x } } };
                    let (x, y) = (w(a, s1, op.h), w(b, s2, op.h / 3));
                    eq_claims(&x, &y, a == b)?;
                    order_claims(&x, &y, a.cmp(b))?;
                    want!(format!("{x} == str {b:?}"), (x == b, x != b), (a == b, a != b));
                    want!(format!("{x} == String {b:?}"), x == b.to_string(), a == b);
                    let (cx, cy) = (CIdent::try_from(id(a, s1)), CIdent::try_from(id(b, s2)));
                    if let (Ok(cx), Ok(cy)) = (cx, cy) { eq_claims(&cx, &cy, a == b)?; order_claims(&cx, &cy, a.cmp(b))?; want!(format!("{cx} == str {b:?}"), cx == b, a == b); }
                    if let (Ok(cx), Ok(cy)) = (CIdent2::try_from(id(a, s1)), CIdent2::try_from(id(b, s2))) { eq_claims(&cx, &cy, a == b)?; order_claims(&cx, &cy, a.cmp(b))?; }
                    want!(format!("{x} == keyword gamma"), x == kws2::Gamma::new(s2), a == "gamma");
                    want!(format!("{x} == keyword r#type"), x == kws2::RawType::new(s2), a == "r#type");
                }
                _ => {
                    let t = words[op.a % words.len()];
                    macro_rules! kw { ($($k:ty, $s:expr;)*) => {$( {
                        let (x, y) = (<$k>::new(s1), <$k>::new(s2));
                        eq_claims(&x, &y, true)?;
                        order_claims(&x, &y, Ordering::Equal)?;
                        want!(format!("keyword {} == {t:?}", $s), (x == t, x == t.to_string()), ($s == t, $s == t));
                        want!(format!("keyword {} compared with {t:?}", $s), x.partial_cmp(&t), Some($s.cmp(t)));
                        want!("keyword against another", (x == kws::Alpha::new(s2), x.partial_cmp(&kws::Alpha::new(s2))), ($s == "alpha", Some($s.cmp("alpha"))));
                        want!("keyword against another", (x == kws2::RawType::new(s2), x.partial_cmp(&kws2::RawType::new(s2))), ($s == "r#type", Some($s.cmp("r#type"))));
                    } )*} }
                    kw! { kws::Alpha, "alpha"; kws::Beta, "beta"; kws::Under, "_"; kws2::Fun, "fn"; kws2::RawType, "r#type"; kws2::Slf, "self"; kws2::Upper, "Alpha"; kws2::X, "x"; }
                    // the markers without contents
                    eq_claims(&Empty, &Empty::new(), true)?;
                    eq_claims(&Eof, &Eof::new(), true)?;
                    eq_claims(&Eof, &Eof::default(), true)?;
                    eq_claims(&NotEof, &NotEof::new(), true)?;
                    eq_claims(&NotEof, &NotEof::default(), true)?;
                }
            }
            Ok(())
        }));
        let ctx = |what: &str| format!("operation {k} ({op:?}): {what}");
        match r { Ok(Ok(())) => {} Ok(Err(e)) => return o.bad("comparison", ctx(&e)), Err(p) => return o.bad("panic", ctx(&format!("panicked: {}", panic_text(&*p)))) }
        o.log(&format!("{} {same};", op.op));
    }
    o.nontrivial = plan.ops.len() >= 4;
}
trait FromPartsOr { fn from_parts_or(v: &[u64], s: Span) -> Self; }
impl FromPartsOr for Separated<LitUint, LitUint> {
    fn from_parts_or(v: &[u64], s: Span) -> Self { let mut x = syn::punctuated::Punctuated::new(); x.push_value(LitUint::new(7, s)); for n in v { x.push_punct(LitUint::new(*n, s)); x.push_value(LitUint::new(*n / 2, s)) } Separated::try_from(x).unwrap() }
}

pub fn exec(plan: &LeafPlan, prop: &str) -> Out {
    let mut o = Out::default();
    FUSE.with(|f| f.set(usize::MAX));
    macro_rules! go { ($f:ident) => { match plan.kind { 0 => $f::<LitBool>(plan, &mut o), 1 => $f::<LitByte>(plan, &mut o), 2 => $f::<LitInt>(plan, &mut o), 3 => $f::<LitUint>(plan, &mut o), 4 => $f::<LitFloat>(plan, &mut o),
        5 => $f::<LitChar>(plan, &mut o), 6 => $f::<LitStr>(plan, &mut o), _ => $f::<LitByteStr>(plan, &mut o) } } }
    let r = catch_unwind(AssertUnwindSafe(|| if prop == "C17" { go!(world) } else if plan.kind >= KINDS { nodes(plan, &mut o) } else { go!(values) }));
    FUSE.with(|f| f.set(usize::MAX));
    if let Err(p) = r { let k = o.steps; o.bad("panic", format!("operation {k} of {plan:?} or a view after it panicked: {}", panic_text(&*p))) }
    o
}
