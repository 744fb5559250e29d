//! `Dyn<I>`: a sub-parser whose grammar is looked up at run time.  Real combinators and real derived types
//! are instantiated over it, so a random grammar is executed by the real library code.
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt;
use std::rc::Rc;
use parsel::ast::*;
use parsel::proc_macro2::{TokenStream, TokenTree};
use parsel::syn::parse::ParseStream;
use parsel::{Parse, Span, ToTokens};
use crate::model::*;
use crate::rng::mix;

parsel::define_keywords! {
    pub mod kws {
        alpha => Alpha;
        beta => Beta;
        _ => Under;
    }
}
pub type CIdent = CustomIdent<kws::Keywords>;
// further languages in the same process, with keywords the others use as names
parsel::define_keywords! {
    pub mod kws2 {
        fn => Fun;
        x => X;
        gamma => Gamma;
        r#type => RawType;
        true => True;
        self => Slf;
        Alpha => Upper;
        alpha_ => Longer;
    }
}
parsel::define_keywords! {
    pub mod kws3 {
        beta => Beta;
        x => Ex;
        _ => Gap;
    }
}
parsel::define_keywords! { pub mod kws4 { a => A; } }
pub type CIdent2 = CustomIdent<kws2::Keywords>;
pub type CIdent3 = CustomIdent<kws3::Keywords>;
pub type CIdent4 = CustomIdent<kws4::Keywords>;

pub trait Ast {
    fn toks(&self, ts: &mut TokenStream);
    fn show(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result;
    fn dup(&self) -> Box<dyn Ast>;
    fn tree(&self) -> Tree;
    /// children in source order
    fn kids(&self) -> (usize, Vec<&dyn Ast>);
}

pub struct Dyn<const I: usize>(pub Box<dyn Ast>);
impl<const I: usize> Clone for Dyn<I> { fn clone(&self) -> Self { Dyn(self.0.dup()) } }
impl<const I: usize> fmt::Debug for Dyn<I> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self.0.tree()) } }
impl<const I: usize> fmt::Display for Dyn<I> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.show(f) } }
impl<const I: usize> ToTokens for Dyn<I> { fn to_tokens(&self, ts: &mut TokenStream) { self.0.toks(ts) } }
impl<const I: usize> Ast for Dyn<I> {
    fn toks(&self, ts: &mut TokenStream) { self.0.toks(ts) }
    fn show(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.show(f) }
    fn dup(&self) -> Box<dyn Ast> { self.0.dup() }
    fn tree(&self) -> Tree { self.0.tree() }
    fn kids(&self) -> (usize, Vec<&dyn Ast>) { self.0.kids() }
}

// ---------------------------------------------------------------- run context
#[derive(Clone, Debug)]
pub struct Ev { pub act: u32, pub parent: u32, pub node: u32, pub start: usize, pub end: Result<usize, ()>, pub done: bool, pub addr: usize }

pub struct Ctx {
    pub arena: Arena,
    pub faults: HashMap<(u32, usize), FK>,
    pub ord_of: HashMap<usize, usize>, // byte start -> token ordinal
    pub frames: RefCell<Vec<Frame>>,
    pub log: RefCell<Vec<Ev>>,
    pub errs: RefCell<HashMap<(usize, usize), Vec<String>>>,
    pub steps: Cell<usize>,
    pub budget: usize,
    pub fired: RefCell<HashMap<&'static str, u64>>,
    /// called at every leaf attempt (scheduler yield / re-entrancy), with the number of the attempt
    pub hook: Option<Box<dyn Fn(usize)>>,
    pub leafs: Cell<usize>,
}
#[derive(Clone)]
pub struct Frame { pub node: usize, pub act: u32, pub child_tried: bool }

thread_local! { static CTX: RefCell<Vec<Rc<Ctx>>> = const { RefCell::new(vec![]) }; }

pub struct CtxGuard;
impl Drop for CtxGuard { fn drop(&mut self) { CTX.with(|c| { c.borrow_mut().pop(); }) } }
pub fn enter(c: Rc<Ctx>) -> CtxGuard { CTX.with(|s| s.borrow_mut().push(c)); CtxGuard }
fn ctx() -> Rc<Ctx> { CTX.with(|c| c.borrow().last().cloned().expect("no simulation context")) }
struct FrameGuard(Rc<Ctx>);
impl Drop for FrameGuard { fn drop(&mut self) { self.0.frames.borrow_mut().pop(); } }

impl Ctx {
    pub fn new(arena: Arena, faults: &[LeafFault], level: &Level, budget: usize) -> Ctx {
        fn walk(l: &Level, m: &mut HashMap<usize, usize>) {
            for t in &l.toks { m.insert(t.s, t.ord); if let TK::Group(_, g) = &t.k { walk(g, m) } }
        }
        let mut ord_of = HashMap::new();
        walk(level, &mut ord_of);
        Ctx {
            arena, faults: faults.iter().map(|f| ((f.leaf, f.tok), f.f.clone())).collect(), ord_of,
            frames: RefCell::new(vec![]), log: RefCell::new(vec![]), errs: RefCell::new(HashMap::new()),
            steps: Cell::new(0), budget, fired: RefCell::new(HashMap::new()), hook: None, leafs: Cell::new(0),
        }
    }
    fn fire(&self, k: &'static str) { *self.fired.borrow_mut().entry(k).or_insert(0) += 1; }
}

pub const SIM_PANIC: &str = "SIMULATED PANIC";
pub const RUNAWAY: &str = "RUNAWAY: sub-parser attempts exceed the budget";

/// the byte offset of the token the stream stands at (of the closing delimiter at the end of a group, EOF at the end)
pub fn pos(input: ParseStream<'_>) -> usize {
    // (`input.span()` at the end: a `TokenStream` that has taken the rest leaves the cursor without a place)
    let (s, e) = brange(if input.is_empty() { input.span() } else { input.cursor().span() });
    if input.is_empty() && e == 0 { EOF } else { s }
}

impl<const I: usize> Parse for Dyn<I> {
    fn parse(input: ParseStream<'_>) -> parsel::Result<Self> {
        let c = ctx();
        let (nid, parent) = {
            let mut fr = c.frames.borrow_mut();
            let f = fr.last_mut().expect("no frame");
            f.child_tried = true;
            (c.arena.n[f.node].kids[I], f.act)
        };
        parse_node(&c, nid, parent, input).map(Dyn)
    }
}

/// Parse the root of the context's grammar.
pub struct Root(pub Box<dyn Ast>);
impl Parse for Root {
    fn parse(input: ParseStream<'_>) -> parsel::Result<Self> {
        let c = ctx();
        parse_node(&c, c.arena.rules[0], u32::MAX, input).map(Root)
    }
}
impl ToTokens for Root { fn to_tokens(&self, ts: &mut TokenStream) { self.0.toks(ts) } }

/// run `f` with the root node's frame pushed (to call `FromStr` of the root type itself)
pub fn with_root_frame<T>(c: &Rc<Ctx>, f: impl FnOnce() -> T) -> T {
    c.frames.borrow_mut().push(Frame { node: c.arena.rules[0], act: u32::MAX, child_tried: false });
    let _g = FrameGuard(c.clone());
    f()
}

#[inline(never)]
fn parse_node(c: &Rc<Ctx>, nid: usize, parent: u32, input: ParseStream<'_>) -> parsel::Result<Box<dyn Ast>> {
    let steps = c.steps.get() + 1;
    c.steps.set(steps);
    if steps > c.budget { panic!("{}", RUNAWAY) }
    let start = pos(input);
    let marker = 0u8;
    let addr = std::hint::black_box(&marker) as *const u8 as usize;
    let act = {
        let mut l = c.log.borrow_mut();
        let n = l.len() as u32;
        l.push(Ev { act: n, parent, node: nid as u32, start, end: Err(()), done: false, addr });
        n
    };
    c.frames.borrow_mut().push(Frame { node: nid, act, child_tried: false });
    let g = FrameGuard(c.clone());
    let r = dispatch(c, nid, start, input);
    let tried = c.frames.borrow().last().unwrap().child_tried;
    drop(g);
    let mut l = c.log.borrow_mut();
    l[act as usize].done = true;
    match &r {
        Ok(_) => l[act as usize].end = Ok(pos(input)),
        Err(e) => if !tried {
            let mut m = c.errs.borrow_mut();
            let v = m.entry((nid, start)).or_default();
            let s = e.to_string();
            if !v.contains(&s) { v.push(s) }
        },
    }
    r
}

fn bx<T: Ast + 'static>(x: T) -> Box<dyn Ast> { Box::new(x) }

fn dispatch(c: &Rc<Ctx>, nid: usize, start: usize, input: ParseStream<'_>) -> parsel::Result<Box<dyn Ast>> {
    match &c.arena.n[nid].k {
        K::Sim { id, pat } => sim_leaf(c, nid, *id, pat, start, input).map(bx),
        K::Real(r) => {
            if let Some(h) = &c.hook { let n = c.leafs.get(); c.leafs.set(n + 1); h(n) }
            real(*r, input)
        }
        K::Either => input.parse::<Either<Dyn<0>, Dyn<1>>>().map(bx),
        K::Maybe => input.parse::<Maybe<Dyn<0>, Dyn<1>>>().map(bx),
        K::Any => input.parse::<Any<Dyn<0>>>().map(bx),
        K::Sep => input.parse::<Separated<Dyn<0>, Dyn<1>>>().map(bx),
        K::Punct => input.parse::<Punctuated<Dyn<0>, Dyn<1>>>().map(bx),
        K::Many => input.parse::<Many<Dyn<0>>>().map(bx),
        K::LA => input.parse::<LeftAssoc<Dyn<0>, Dyn<1>>>().map(bx),
        K::RA => input.parse::<RightAssoc<Dyn<0>, Dyn<1>>>().map(bx),
        K::Paren => input.parse::<Paren<Dyn<0>>>().map(bx),
        K::Bracket => input.parse::<Bracket<Dyn<0>>>().map(bx),
        K::Brace => input.parse::<Brace<Dyn<0>>>().map(bx),
        K::Zoo(z) => parse_zoo(*z, input),
        K::Prod(_) | K::Ref(_) => unreachable!(),
    }
}

/// `FromStr` of the root type itself (the entry point users call); None if the root has no FromStr
pub fn root_from_str(c: &Rc<Ctx>, text: &str) -> Option<parsel::Result<Box<dyn Ast>>> {
    let root = c.arena.rules[0];
    let k = c.arena.n[root].k.clone();
    Some(with_root_frame(c, || match k {
        K::Sim { .. } => parsel::parse_str::<Root>(text).map(|r| r.0),
        K::Real(r) => real_str(r, text),
        K::Either => text.parse::<Either<Dyn<0>, Dyn<1>>>().map(bx),
        K::Maybe => text.parse::<Maybe<Dyn<0>, Dyn<1>>>().map(bx),
        K::Any => text.parse::<Any<Dyn<0>>>().map(bx),
        K::Sep => text.parse::<Separated<Dyn<0>, Dyn<1>>>().map(bx),
        K::Punct => text.parse::<Punctuated<Dyn<0>, Dyn<1>>>().map(bx),
        K::Many => text.parse::<Many<Dyn<0>>>().map(bx),
        K::LA => text.parse::<LeftAssoc<Dyn<0>, Dyn<1>>>().map(bx),
        K::RA => text.parse::<RightAssoc<Dyn<0>, Dyn<1>>>().map(bx),
        K::Paren => text.parse::<Paren<Dyn<0>>>().map(bx),
        K::Bracket => text.parse::<Bracket<Dyn<0>>>().map(bx),
        K::Brace => text.parse::<Brace<Dyn<0>>>().map(bx),
        K::Zoo(z) => parse_zoo_str(z, text),
        K::Prod(_) | K::Ref(_) => unreachable!(),
    }))
}

// ---------------------------------------------------------------- simulated leaf
#[derive(Clone)]
pub struct SimLeaf(pub TokenStream);
impl Ast for SimLeaf {
    fn toks(&self, ts: &mut TokenStream) { ts.extend(self.0.clone()) }
    fn show(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { parsel::util::format_tokens(self.0.clone(), f) }
    fn dup(&self) -> Box<dyn Ast> { Box::new(self.clone()) }
    fn tree(&self) -> Tree { let mut v = vec![]; stream_texts(self.0.clone(), &mut v); Tree::Leaf(v) }
    fn kids(&self) -> (usize, Vec<&dyn Ast>) { (0, vec![]) }
}

/// sub-parsers word their errors as they like, and may report several at once
fn worded(e: parsel::Error, nid: usize, id: u32, start: usize, input: ParseStream<'_>) -> parsel::Error {
    let m = e.to_string();
    let h = mix(nid as u64 ^ mix(id as u64) ^ start as u64);
    let text = match h % 24 {
        0 => format!("{m}\n"),
        1 => format!("{m}  \t"),
        2 => format!("\n  {m}"),
        3 => format!("{m}\n    and a second line, caused by:\nnothing at all\n\n"),
        4 => format!("{m} {{}} {{0}} {{cause}} %s \\n `\"'"),
        5 => format!("error parsing Nothing::at::all, caused by:\n{m}"),
        6 => format!("{m}: \u{e9}\u{1F980}\u{0}\u{7f}"),
        7 => format!("{m} {}", "long ".repeat(200)),
        8 => String::new(),
        9 => "expected".into(),
        10 => "unexpected end of input".into(),
        11 => format!("{m}\r\nanother line\rand\tanother\r\n"),
        12 => format!("{m}\u{2028}\u{a0}\u{feff}\u{301} \u{1b}[31m &lt;\"x\\\" ::"),
        13 => format!("ERROR Parsing ::, Caused by: {m}.."),
        _ => m,
    };
    let mut r = parsel::Error::new(e.span(), text);
    if (h >> 20) % 5 == 0 {
        let last = { let mut cur = input.cursor(); let mut s = None; while let Some((t, rest)) = cur.token_tree() { s = Some(t.span()); cur = rest } s };
        for k in 0..1 + (h >> 30) % 3 { r.combine(parsel::Error::new(if k % 2 == 0 { last.unwrap_or_else(Span::call_site) } else { Span::call_site() }, format!("further error {k}"))) }
    }
    r
}

fn sim_leaf(c: &Ctx, nid: usize, id: u32, pat: &[TC], start: usize, input: ParseStream<'_>) -> parsel::Result<SimLeaf> {
    sim_leaf_plain(c, nid, id, pat, start, input).map_err(|e| worded(e, nid, id, start, input))
}

fn sim_leaf_plain(c: &Ctx, nid: usize, id: u32, pat: &[TC], start: usize, input: ParseStream<'_>) -> parsel::Result<SimLeaf> {
    if let Some(h) = &c.hook { let n = c.leafs.get(); c.leafs.set(n + 1); h(n) }
    let f = if input.is_empty() { None } else { c.ord_of.get(&start).and_then(|o| c.faults.get(&(id, *o))) };
    if let Some(FK::Panic) = f { c.fire("leaf_panic"); std::panic::panic_any(SIM_PANIC) }
    let lim = if let Some(FK::FailAfter(k)) = f { (*k).min(pat.len()) } else { pat.len() };
    let mut out = vec![];
    let open = if input.is_empty() { None } else { Some(match input.cursor().token_tree() { Some((TokenTree::Group(g), _)) => g.span_open(), _ => input.cursor().span() }) };
    for tc in &pat[..lim] {
        let t: Option<TokenTree> = input.step(|cur| match cur.token_tree() {
            Some((tt, rest)) if tt_match(tc, &tt) => Ok((Some(tt), rest)),
            _ => Ok((None, *cur)),
        })?;
        match t {
            Some(t) => out.push(t),
            None => return Err(input.error(format!("leaf {id} of node {nid} wants {tc:?}"))),
        }
    }
    match f {
        Some(FK::FailAfter(_)) => { c.fire("leaf_fail_after_k"); return Err(input.error(format!("leaf {id} of node {nid} failed as told"))) }
        Some(FK::Reject) => { c.fire("leaf_reject_after_parse"); return Err(parsel::Error::new(open.unwrap(), format!("leaf {id} of node {nid} rejects its text"))) }
        Some(FK::RejectWide) => { c.fire("leaf_reject_whole_text"); let all: TokenStream = out.into_iter().collect(); return Err(parsel::Error::new_spanned(all, format!("leaf {id} of node {nid} rejects all of its text"))) }
        Some(FK::OverConsume) => if !input.is_empty() { out.push(input.parse::<TokenTree>()?); c.fire("leaf_over_consume"); },
        _ => {}
    }
    Ok(SimLeaf(out.into_iter().collect()))
}

fn tt_match(tc: &TC, t: &TokenTree) -> bool {
    match (tc, t) {
        (TC::Any, _) => true,
        (TC::Id, TokenTree::Ident(_)) => true,
        (TC::Kw(k), TokenTree::Ident(s)) => s == k,
        (TC::Int, TokenTree::Literal(l)) => l.to_string().starts_with(|c: char| c.is_ascii_digit()),
        (TC::Str, TokenTree::Literal(l)) => l.to_string().starts_with('"'),
        (TC::P(c), TokenTree::Punct(d)) => *c == d.as_char(),
        (TC::Grp(c), TokenTree::Group(g)) => *c == delim_ch(g.delimiter()),
        _ => false,
    }
}

// ---------------------------------------------------------------- real leaves
#[derive(Clone)]
pub struct RealLeaf<T>(pub T);
impl<T: ToTokens + fmt::Display + Clone + 'static> Ast for RealLeaf<T> {
    fn toks(&self, ts: &mut TokenStream) { self.0.to_tokens(ts) }
    fn show(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) }
    fn dup(&self) -> Box<dyn Ast> { Box::new(self.clone()) }
    fn tree(&self) -> Tree {
        let mut v = vec![];
        stream_texts(self.0.to_token_stream(), &mut v);
        // a negative literal is one token here, two in the source
        let v = v.iter().flat_map(|s| match s.strip_prefix('-') { Some(r) if !r.is_empty() => vec!["-".to_string(), canon(r)], _ => vec![canon(s)] }).collect();
        Tree::Leaf(v)
    }
    fn kids(&self) -> (usize, Vec<&dyn Ast>) { (0, vec![]) }
}
/// syn's token types have no Display
#[derive(Clone)]
pub struct TokLeaf<T>(pub T);
impl<T: ToTokens> ToTokens for TokLeaf<T> { fn to_tokens(&self, ts: &mut TokenStream) { self.0.to_tokens(ts) } }
impl<T: ToTokens> fmt::Display for TokLeaf<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { parsel::util::format_ast_node(&self.0, f) } }

macro_rules! reals {
    ($($r:ident => $t:ty;)* ; $($tr:ident => $tt:ty;)*) => {
        pub fn real(r: RL, input: ParseStream<'_>) -> parsel::Result<Box<dyn Ast>> {
            match r {
                $(RL::$r => input.parse::<$t>().map(|x| bx(RealLeaf(x))),)*
                $(RL::$tr => input.parse::<$tt>().map(|x| bx(RealLeaf(TokLeaf(x)))),)*
            }
        }
        pub fn real_str(r: RL, s: &str) -> parsel::Result<Box<dyn Ast>> {
            match r {
                $(RL::$r => s.parse::<$t>().map(|x| bx(RealLeaf(x))),)*
                $(RL::$tr => parsel::parse_str::<$tt>(s).map(|x| bx(RealLeaf(TokLeaf(x)))),)*
            }
        }
    };
}
reals! {
    Empty => Empty; Eof => Eof; NotEof => NotEof; Bool => LitBool; Byte => LitByte; Int => LitInt; Uint => LitUint; Float => LitFloat;
    Char => LitChar; Str => LitStr; ByteStr => LitByteStr; Lit => Lit; Word => Word; CIdent => CIdent; KwAlpha => kws::Alpha;
    KwBeta => kws::Beta; KwUnder => kws::Under; CIdent2 => CIdent2; CIdent3 => CIdent3; CIdent4 => CIdent4; Kw2Fn => kws2::Fun; Kw2X => kws2::X;
    Kw2Gamma => kws2::Gamma; Kw2Type => kws2::RawType; Kw2True => kws2::True; Kw2Self => kws2::Slf; Kw2Upper => kws2::Upper; Kw2Longer => kws2::Longer;
    Kw3Beta => kws3::Beta; Kw3X => kws3::Ex; Kw3Gap => kws3::Gap; Kw4A => kws4::A; ;
    Ident => Ident; Comma => Token![,]; Semi => Token![;]; Plus => Token![+]; Minus => Token![-]; Arrow => Token![->]; AndAnd => Token![&&];
    EqEq => Token![==]; Colon2 => Token![::]; Fn => Token![fn]; Let => Token![let]; OrOr => Token![||]; Not => Token![!]; Colon => Token![:];
    Eq => Token![=]; Lt => Token![<]; Gt => Token![>]; Dot => Token![.]; Star => Token![*]; Slash => Token![/]; Pub => Token![pub];
    Mut => Token![mut]; If => Token![if]; Else => Token![else]; Return => Token![return];
    Rest => TokenStream; OneTree => TokenTree; OnePunct => parsel::proc_macro2::Punct; OneLit => parsel::proc_macro2::Literal; OneGroup => parsel::proc_macro2::Group;
    Life => parsel::syn::Lifetime; OptSemi => Option<Token![;]>; OptFn => Option<Token![fn]>;
}

// ---------------------------------------------------------------- real combinators as Ast
macro_rules! std_ast {
    () => {
        fn toks(&self, ts: &mut TokenStream) { ToTokens::to_tokens(self, ts) }
        fn show(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) }
        fn dup(&self) -> Box<dyn Ast> { Box::new(self.clone()) }
    };
}
impl Ast for Either<Dyn<0>, Dyn<1>> {
    std_ast!();
    fn kids(&self) -> (usize, Vec<&dyn Ast>) { match self { Either::Left(x) => (0, vec![x]), Either::Right(x) => (1, vec![x]) } }
    fn tree(&self) -> Tree { match self { Either::Left(x) => Tree::Left(Box::new(x.tree())), Either::Right(x) => Tree::Right(Box::new(x.tree())) } }
}
impl Ast for Maybe<Dyn<0>, Dyn<1>> {
    std_ast!();
    fn kids(&self) -> (usize, Vec<&dyn Ast>) { match self.as_parts() { Some((p, b)) => (1, vec![p, b]), None => (0, vec![]) } }
    fn tree(&self) -> Tree { match self.as_parts() { Some((p, b)) => Tree::Some(Box::new((p.tree(), b.tree()))), None => Tree::None } }
}
impl Ast for Any<Dyn<0>> {
    std_ast!();
    fn kids(&self) -> (usize, Vec<&dyn Ast>) { (0, self.iter().map(|x| x as &dyn Ast).collect()) }
    fn tree(&self) -> Tree { Tree::List(self.iter().map(|x| x.tree()).collect(), vec![]) }
}
macro_rules! pairs_ast {
    ($($t:ty, $sep:expr;)*) => {$(
        impl Ast for $t {
            std_ast!();
            fn kids(&self) -> (usize, Vec<&dyn Ast>) {
                let mut v: Vec<&dyn Ast> = vec![];
                for p in self.pairs() { let (x, p) = p.into_tuple(); v.push(x); if $sep { if let Some(p) = p { v.push(AsAst::as_ast(p)) } } }
                (0, v)
            }
            fn tree(&self) -> Tree {
                let (mut a, mut b) = (vec![], vec![]);
                for p in self.pairs() { let (x, p) = p.into_tuple(); a.push(x.tree()); if let Some(p) = p { b.push(AsAst::as_tree(p)) } }
                Tree::List(a, b)
            }
        }
    )*};
}
trait AsAst { fn as_ast(&self) -> &dyn Ast; fn as_tree(&self) -> Tree; }
impl<const I: usize> AsAst for Dyn<I> { fn as_ast(&self) -> &dyn Ast { self } fn as_tree(&self) -> Tree { self.tree() } }
impl AsAst for NotEof { fn as_ast(&self) -> &dyn Ast { unreachable!() } fn as_tree(&self) -> Tree { Tree::Leaf(vec![]) } }
pairs_ast! { Separated<Dyn<0>, Dyn<1>>, true; Punctuated<Dyn<0>, Dyn<1>>, true; Punctuated<Dyn<0>, NotEof>, false; }

impl Ast for LeftAssoc<Dyn<0>, Dyn<1>> {
    std_ast!();
    fn kids(&self) -> (usize, Vec<&dyn Ast>) {
        let (mut v, mut e): (Vec<&dyn Ast>, _) = (vec![], self);
        loop { match e { LeftAssoc::Binary { lhs, op, rhs } => { v.push(rhs); v.push(op); e = lhs } LeftAssoc::Rhs(r) => { v.push(r); break } } }
        v.reverse();
        (0, v)
    }
    fn tree(&self) -> Tree {
        let (_, v) = self.kids();
        Tree::Chain(true, v.iter().step_by(2).map(|a| a.tree()).collect(), v.iter().skip(1).step_by(2).map(|a| a.tree()).collect())
    }
}
impl Ast for RightAssoc<Dyn<0>, Dyn<1>> {
    std_ast!();
    fn kids(&self) -> (usize, Vec<&dyn Ast>) {
        let (mut v, mut e): (Vec<&dyn Ast>, _) = (vec![], self);
        loop { match e { RightAssoc::Binary { lhs, op, rhs } => { v.push(lhs); v.push(op); e = rhs } RightAssoc::Lhs(l) => { v.push(l); break } } }
        (0, v)
    }
    fn tree(&self) -> Tree {
        let (_, v) = self.kids();
        Tree::Chain(false, v.iter().step_by(2).map(|a| a.tree()).collect(), v.iter().skip(1).step_by(2).map(|a| a.tree()).collect())
    }
}
macro_rules! delim_ast { ($($t:ident $c:literal;)*) => {$(
    impl Ast for $t<Dyn<0>> {
        std_ast!();
        fn kids(&self) -> (usize, Vec<&dyn Ast>) { (0, vec![self.as_parts().1]) }
        fn tree(&self) -> Tree { Tree::Delim($c, Box::new(self.as_parts().1.tree())) }
    }
)*}; }
delim_ast! { Paren '('; Bracket '['; Brace '{'; }

include!(concat!(env!("OUT_DIR"), "/zoo.rs"));
