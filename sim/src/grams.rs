//! Fixed, fully typed grammars: ordinary derived types, each with the reference grammar its definition stands for.
use std::any::TypeId;
use std::collections::HashMap;
use std::fmt::{Debug, Display};
use std::str::FromStr;
use parsel::ast::*;
use parsel::proc_macro2::TokenStream;
use parsel::syn::Token;
use parsel::{Display as DDisplay, FromStr as DFromStr, Parse, ToTokens};
use crate::dynast::{kws, kws2, kws3, kws4, CIdent, CIdent2, CIdent3, CIdent4};
use crate::model::*;

#[derive(Default)]
pub struct Reg { zoo: Vec<ZooMeta>, rules: Vec<Option<GN>>, ids: HashMap<TypeId, usize> }
type Fields = Vec<(&'static str, GN)>;
impl Reg {
    fn prod(&mut self, id: TypeId, name: &'static str, is_enum: bool, f: impl FnOnce(&mut Reg) -> Vec<(&'static str, Fields)>) -> GN {
        if let Some(r) = self.ids.get(&id) { return GN::new(K::Ref(*r), vec![]) }
        let r = self.rules.len();
        self.ids.insert(id, r);
        self.rules.push(None);
        self.zoo.push(ZooMeta { name, is_enum, nslots: 0, variants: &[] });
        let (mut kids, mut vs) = (vec![], vec![]);
        for (n, fs) in f(self) {
            let mut m = vec![];
            for (fname, g) in fs { m.push((fname, kids.len())); kids.push(g) }
            vs.push(VarMeta { name: n, fields: Vec::leak(m) });
        }
        self.zoo[r] = ZooMeta { name, is_enum, nslots: kids.len(), variants: Vec::leak(vs) };
        self.rules[r] = Some(GN::new(K::Prod(r), kids));
        GN::new(K::Ref(r), vec![])
    }
}
/// visits the nodes of a tree in source order, parents first
pub enum Vis<'a> {
    Node(&'a dyn ToTokens),
    /// a node that also knows its location by itself
    Leaf(&'a dyn ToTokens, parsel::Span),
    /// (the same once more, to be displayed)
    Show(&'a dyn Display),
    ChainStart,
    Operand,
    ChainEnd,
    /// the chain of the operands with these numbers (inside the chain visited before)
    Sub(&'a dyn ToTokens, usize, usize),
}
pub trait G: 'static {
    fn gn(r: &mut Reg) -> GN;
    fn tree(&self) -> Tree;
    fn visit<'a>(&'a self, f: &mut dyn FnMut(Vis<'a>));
}
pub fn leaf_tree(t: &dyn ToTokens) -> Tree {
    let mut v = vec![];
    stream_texts(t.to_token_stream(), &mut v);
    Tree::Leaf(crate::parsesim::canon_all(v))
}
macro_rules! own { ($f:ident, $s:expr,) => { $f(Vis::Node($s)) }; ($f:ident, $s:expr, span) => { { $f(Vis::Leaf($s, $s.span())); $f(Vis::Show($s)) } } }
macro_rules! leaves { ($($r:ident $t:ty $(: $own:ident)?;)*) => {$(
    impl G for $t {
        fn gn(_: &mut Reg) -> GN { GN::new(K::Real(RL::$r), vec![]) }
        fn tree(&self) -> Tree { leaf_tree(self) }
        fn visit<'a>(&'a self, f: &mut dyn FnMut(Vis<'a>)) { own!(f, self, $($own)?) }
    }
)*} }
leaves! {
    Empty Empty; Eof Eof; NotEof NotEof; Bool LitBool: span; Byte LitByte: span; Int LitInt: span; Uint LitUint: span; Float LitFloat: span; Char LitChar: span; Str LitStr: span;
    ByteStr LitByteStr: span; Lit Lit: span; Word Word: span; CIdent CIdent: span; KwAlpha kws::Alpha: span; KwBeta kws::Beta: span; KwUnder kws::Under: span; Ident Ident;
    CIdent2 CIdent2: span; CIdent3 CIdent3: span; CIdent4 CIdent4: span; Kw2Fn kws2::Fun: span; Kw2X kws2::X: span; Kw2Gamma kws2::Gamma: span; Kw2Type kws2::RawType: span;
    Kw2True kws2::True: span; Kw2Self kws2::Slf: span; Kw2Upper kws2::Upper: span; Kw2Longer kws2::Longer: span; Kw3Beta kws3::Beta: span; Kw3X kws3::Ex: span; Kw3Gap kws3::Gap: span; Kw4A kws4::A: span;
    Comma Token![,]; Semi Token![;]; Plus Token![+]; Minus Token![-]; Arrow Token![->]; AndAnd Token![&&]; EqEq Token![==]; Colon2 Token![::];
    Fn Token![fn]; Let Token![let]; OrOr Token![||]; Not Token![!]; Colon Token![:]; Eq Token![=]; Lt Token![<]; Gt Token![>]; Dot Token![.];
    Star Token![*]; Slash Token![/]; Pub Token![pub]; Mut Token![mut]; If Token![if]; Else Token![else]; Return Token![return];
}
/// raw token types as users embed them
macro_rules! raws { ($($n:ident $t:ty, $r:ident;)*) => {$(
    #[derive(Clone, Debug)]
    pub struct $n(pub $t);
    impl Eq for $n {}
    impl std::hash::Hash for $n { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.to_string().hash(h) } }
    impl PartialEq for $n { fn eq(&self, o: &$n) -> bool { self.0.to_string() == o.0.to_string() } }
    impl Parse for $n { fn parse(input: parsel::syn::parse::ParseStream<'_>) -> parsel::Result<Self> { input.parse().map($n) } }
    impl ToTokens for $n { fn to_tokens(&self, t: &mut TokenStream) { self.0.to_tokens(t) } }
    impl G for $n {
        fn gn(_: &mut Reg) -> GN { GN::new(K::Real(RL::$r), vec![]) }
        fn tree(&self) -> Tree { leaf_tree(self) }
        fn visit<'a>(&'a self, f: &mut dyn FnMut(Vis<'a>)) { f(Vis::Node(self)) }
    }
)*} }
raws! { Raw TokenStream, Rest; RawTree parsel::proc_macro2::TokenTree, OneTree; RawPunct parsel::proc_macro2::Punct, OnePunct; RawLit parsel::proc_macro2::Literal, OneLit; RawGroup parsel::proc_macro2::Group, OneGroup; }
impl<T: G> G for Box<T> {
    fn gn(r: &mut Reg) -> GN { T::gn(r) }
    fn tree(&self) -> Tree { (**self).tree() }
    fn visit<'a>(&'a self, f: &mut dyn FnMut(Vis<'a>)) { (**self).visit(f) }
}
impl<L: G + ToTokens, R: G + ToTokens> G for Either<L, R> {
    fn gn(r: &mut Reg) -> GN { let k = vec![L::gn(r), R::gn(r)]; GN::new(K::Either, k) }
    fn tree(&self) -> Tree { match self { Either::Left(x) => Tree::Left(Box::new(x.tree())), Either::Right(x) => Tree::Right(Box::new(x.tree())) } }
    fn visit<'a>(&'a self, f: &mut dyn FnMut(Vis<'a>)) { f(Vis::Node(self)); match self { Either::Left(x) => x.visit(f), Either::Right(x) => x.visit(f) } }
}
impl<P: G + ToTokens, T: G + ToTokens> G for Maybe<P, T> {
    fn gn(r: &mut Reg) -> GN { let k = vec![P::gn(r), T::gn(r)]; GN::new(K::Maybe, k) }
    fn tree(&self) -> Tree { match self.as_parts() { Some((p, b)) => Tree::Some(Box::new((p.tree(), b.tree()))), None => Tree::None } }
    fn visit<'a>(&'a self, f: &mut dyn FnMut(Vis<'a>)) { f(Vis::Node(self)); if let Some((p, b)) = self.as_parts() { p.visit(f); b.visit(f) } }
}
impl<T: G + ToTokens> G for Any<T> {
    fn gn(r: &mut Reg) -> GN { let k = vec![T::gn(r)]; GN::new(K::Any, k) }
    fn tree(&self) -> Tree { Tree::List(self.iter().map(G::tree).collect(), vec![]) }
    fn visit<'a>(&'a self, f: &mut dyn FnMut(Vis<'a>)) { f(Vis::Node(self)); for x in self.iter() { x.visit(f) } }
}
macro_rules! seps { ($($t:ident)*) => {$(
    impl<T: G + ToTokens, P: G + ToTokens> G for $t<T, P> {
        fn gn(r: &mut Reg) -> GN { let k = vec![T::gn(r), P::gn(r)]; GN::new(K::$t, k) }
        fn tree(&self) -> Tree {
            let (mut a, mut b) = (vec![], vec![]);
            for p in self.pairs() { let (x, p) = p.into_tuple(); a.push(x.tree()); if let Some(p) = p { b.push(p.tree()) } }
            Tree::List(a, b)
        }
        fn visit<'a>(&'a self, f: &mut dyn FnMut(Vis<'a>)) { f(Vis::Node(self)); for p in self.pairs() { let (x, p) = p.into_tuple(); x.visit(f); if let Some(p) = p { p.visit(f) } } }
    }
)*} }
use crate::model::K;
type Sep<T, P> = Separated<T, P>;
type Punct<T, P> = Punctuated<T, P>;
seps! { Sep Punct }
impl<O: G + ToTokens, R: G + ToTokens> G for LeftAssoc<O, R> {
    fn gn(r: &mut Reg) -> GN { let k = vec![O::gn(r), R::gn(r)]; GN::new(K::LA, k) }
    fn tree(&self) -> Tree {
        let (mut a, mut b, mut e) = (vec![], vec![], self);
        loop { match e { LeftAssoc::Binary { lhs, op, rhs } => { a.push(rhs.tree()); b.push(op.tree()); e = lhs } LeftAssoc::Rhs(r) => { a.push(r.tree()); break } } }
        a.reverse();
        b.reverse();
        Tree::Chain(true, a, b)
    }
    fn visit<'a>(&'a self, f: &mut dyn FnMut(Vis<'a>)) {
        let (mut inner, mut v, mut e): (Vec<&LeftAssoc<O, R>>, Vec<(Option<&O>, &R)>, _) = (vec![], vec![], self);
        loop { inner.push(e); match e { LeftAssoc::Binary { lhs, op, rhs } => { v.push((Some(op), rhs)); e = lhs } LeftAssoc::Rhs(r) => { v.push((None, r)); break } } }
        f(Vis::Node(self));
        f(Vis::ChainStart);
        for (i, x) in inner.iter().enumerate().skip(1) { f(Vis::Sub(*x, 0, inner.len() - 1 - i)) }
        for (o, r) in v.into_iter().rev() { if let Some(o) = o { o.visit(f) } f(Vis::Operand); r.visit(f) }
        f(Vis::ChainEnd)
    }
}
impl<O: G + ToTokens, L: G + ToTokens> G for RightAssoc<O, L> {
    fn gn(r: &mut Reg) -> GN { let k = vec![O::gn(r), L::gn(r)]; GN::new(K::RA, k) }
    fn tree(&self) -> Tree {
        let (mut a, mut b, mut e) = (vec![], vec![], self);
        loop { match e { RightAssoc::Binary { lhs, op, rhs } => { a.push(lhs.tree()); b.push(op.tree()); e = rhs } RightAssoc::Lhs(r) => { a.push(r.tree()); break } } }
        Tree::Chain(false, a, b)
    }
    fn visit<'a>(&'a self, f: &mut dyn FnMut(Vis<'a>)) {
        let (mut inner, mut v, mut e): (Vec<&RightAssoc<O, L>>, Vec<(&L, Option<&O>)>, _) = (vec![], vec![], self);
        loop { inner.push(e); match e { RightAssoc::Binary { lhs, op, rhs } => { v.push((lhs, Some(op))); e = rhs } RightAssoc::Lhs(r) => { v.push((r, None)); break } } }
        f(Vis::Node(self));
        f(Vis::ChainStart);
        for (i, x) in inner.iter().enumerate().skip(1) { f(Vis::Sub(*x, i, inner.len() - 1)) }
        for (l, o) in v { f(Vis::Operand); l.visit(f); if let Some(o) = o { o.visit(f) } }
        f(Vis::ChainEnd)
    }
}
macro_rules! delims { ($($t:ident $c:literal)*) => {$(
    impl<T: G + ToTokens> G for $t<T> {
        fn gn(r: &mut Reg) -> GN { let k = vec![T::gn(r)]; GN::new(K::$t, k) }
        fn tree(&self) -> Tree { Tree::Delim($c, Box::new(self.as_parts().1.tree())) }
        fn visit<'a>(&'a self, f: &mut dyn FnMut(Vis<'a>)) { f(Vis::Leaf(self, self.as_parts().0.span.join())); self.as_parts().1.visit(f) }
    }
)*} }
delims! { Paren '(' Bracket '[' Brace '{' }

macro_rules! gs { ($n:ident { $($(#[$m:meta])* $f:ident : $t:ty),* $(,)? }) => {
    #[derive(Clone, PartialEq, Eq, Debug, Parse, ToTokens, DFromStr, DDisplay)]
    pub struct $n { $($(#[$m])* pub $f: $t),* }
    impl G for $n {
        fn gn(r: &mut Reg) -> GN { r.prod(TypeId::of::<$n>(), stringify!($n), false, |r| { let _ = &r; vec![(stringify!($n), vec![$((stringify!($f), <$t as G>::gn(r))),*])] }) }
        fn tree(&self) -> Tree { Tree::Seq(0, vec![$(G::tree(&self.$f)),*]) }
        fn visit<'a>(&'a self, f: &mut dyn FnMut(Vis<'a>)) { f(Vis::Node(self)); $(G::visit(&self.$f, f);)* }
    }
} }
macro_rules! ge { ($n:ident { $($v:ident { $($(#[$m:meta])* $f:ident : $t:ty),* $(,)? }),* $(,)? }) => {
    #[derive(Clone, PartialEq, Eq, Debug, Parse, ToTokens, DFromStr, DDisplay)]
    pub enum $n { $($v { $($(#[$m])* $f: $t),* }),* }
    impl G for $n {
        fn gn(r: &mut Reg) -> GN { r.prod(TypeId::of::<$n>(), stringify!($n), true, |r| vec![$((stringify!($v), vec![$((stringify!($f), <$t as G>::gn(r))),*])),*]) }
        fn tree(&self) -> Tree {
            #[allow(non_camel_case_types, dead_code, clippy::upper_case_acronyms)] enum Ix { $($v),* }
            match self { $($n::$v { $($f),* } => Tree::Seq(Ix::$v as usize, vec![$(G::tree($f)),*])),* }
        }
        fn visit<'a>(&'a self, g: &mut dyn FnMut(Vis<'a>)) { g(Vis::Node(self)); match self { $($n::$v { $($f),* } => { $(G::visit($f, g);)* })* } }
    }
} }
macro_rules! gt { ($n:ident { $($v:ident ( $($(#[$m:meta])* $f:ident : $t:ty),* $(,)? )),* $(,)? }) => {
    #[derive(Clone, PartialEq, Eq, Debug, Parse, ToTokens, DFromStr, DDisplay)]
    pub enum $n { $($v ( $($(#[$m])* $t),* )),* }
    impl G for $n {
        fn gn(r: &mut Reg) -> GN { r.prod(TypeId::of::<$n>(), stringify!($n), true, |r| vec![$((stringify!($v), vec![$((stringify!($f), <$t as G>::gn(r))),*])),*]) }
        fn tree(&self) -> Tree {
            #[allow(non_camel_case_types, dead_code)] enum Ix { $($v),* }
            match self { $($n::$v ( $($f),* ) => Tree::Seq(Ix::$v as usize, vec![$(G::tree($f)),*])),* }
        }
        fn visit<'a>(&'a self, g: &mut dyn FnMut(Vis<'a>)) { g(Vis::Node(self)); match self { $($n::$v ( $($f),* ) => { $(G::visit($f, g);)* })* } }
    }
} }

// ---------------------------------------------------------------- the grammars
ge! { Json {
    Null { kw: kws::Alpha }, Bool { b: LitBool }, Str { s: LitStr }, Int { i: LitInt }, Float { x: LitFloat },
    Arr { #[parsel(recursive)] a: Bracket<Punctuated<Json, Token![,]>> },
    Obj { #[parsel(recursive)] o: Brace<Punctuated<JPair, Token![,]>> },
} }
gs! { JPair { key: LitStr, colon: Token![:], #[parsel(recursive)] value: Json } }

gs! { BoolOr { #[parsel(recursive)] e: LeftAssoc<Token![||], BoolAnd> } }
gs! { BoolAnd { #[parsel(recursive)] e: LeftAssoc<Token![&&], BoolTerm> } }
ge! { BoolTerm {
    Not { bang: Token![!], #[parsel(recursive)] t: Box<BoolTerm> },
    Grp { #[parsel(recursive)] g: Paren<Box<BoolOr>> },
    Cmp { l: Ident, op: Token![==], r: Ident },
    Var { v: Ident },
    Const { b: LitBool },
} }

gs! { Ty { #[parsel(recursive)] t: RightAssoc<Token![->], TyAtom> } }
ge! { TyAtom {
    Path { p: Separated<Ident, Token![::]>, #[parsel(recursive)] args: Maybe<Token![<], TyArgs> },
    Tup { #[parsel(recursive)] t: Paren<Punctuated<Ty, Token![,]>> },
    Arr { #[parsel(recursive)] a: Bracket<TyArr> },
} }
gs! { TyArgs { #[parsel(recursive)] a: Separated<Ty, Token![,]>, gt: Token![>] } }
gs! { TyArr { #[parsel(recursive)] elem: Box<Ty>, semi: Token![;], len: LitUint } }

gs! { Module { funs: Many<Fun> } }
gs! { Fun {
    vis: Maybe<Token![pub]>, kw: Token![fn], name: Ident, params: Paren<Punctuated<Param, Token![,]>>, ret: Maybe<Token![->], Ty>, body: Brace<Block>,
} }
gs! { Param { m: Maybe<Token![mut]>, name: Ident, colon: Token![:], ty: Ty } }
gs! { Block { #[parsel(recursive)] stmts: Many<Stmt> } }
ge! { Stmt {
    Let { kw: Token![let], m: Maybe<Token![mut]>, name: Ident, ty: Maybe<Token![:], Ty>, eq: Token![=], #[parsel(recursive)] e: Expr, semi: Token![;] },
    Ret { kw: Token![return], #[parsel(recursive)] e: Any<Expr>, semi: Token![;] },
    If { kw: Token![if], #[parsel(recursive)] c: Expr, #[parsel(recursive)] b: Brace<Box<Block>>, #[parsel(recursive)] els: Maybe<Token![else], Brace<Box<Block>>> },
    Set { name: Ident, eq: Token![=], #[parsel(recursive)] e: Expr, semi: Token![;] },
    Ex { #[parsel(recursive)] e: Expr, semi: Token![;] },
} }
gs! { Expr { #[parsel(recursive)] e: LeftAssoc<Either<Token![+], Token![-]>, LeftAssoc<Either<Token![*], Token![/]>, Atom>> } }
ge! { Atom {
    Call { f: Ident, #[parsel(recursive)] args: Paren<Punctuated<Expr, Token![,]>> },
    Field { o: Ident, dot: Token![.], f: Word },
    L { l: Lit },
    V { v: Ident },
    Grp { #[parsel(recursive)] g: Paren<Box<Expr>> },
} }

gs! { Script { cmds: Many<Cmd> } }
ge! { Cmd {
    A { k: kws::Alpha, w: CIdent, rest: Any<Lit> },
    B { k: kws::Beta, w: Separated<CIdent, Token![,]> },
    C { k: kws::Under, v: Either<LitInt, Either<LitStr, Word>> },
    D { w: CIdent, eq: Token![=], v: Either<LitFloat, Lit>, semi: Maybe<Token![;]> },
} }
// several languages with keywords of their own in one source
gs! { Mixed { parts: Any<MixPart> } }
ge! { MixPart {
    One { k: kws2::Gamma, c: Separated<CIdent2, Token![,]> },
    Typ { k: kws2::RawType, n: Either<CIdent2, Either<kws2::True, kws2::Slf>>, e: Maybe<Token![=], CIdent3> },
    Two { k: kws3::Beta, c: Separated<CIdent3, Token![,]>, s: Token![;] },
    Gap { k: kws3::Gap, c: Any<Either<kws2::X, CIdent>>, s: Token![;] },
    Fun { k: kws2::Fun, n: CIdent4, a: Paren<Punctuated<Either<kws4::A, CIdent4>, Token![,]>> },
    Up { k: Either<kws2::Upper, kws2::Longer>, c: CIdent },
    Any { c: CIdent, d: Maybe<Token![.], CIdent2> },
    Ex { x: kws3::Ex, c: CIdent4 },
} }

gs! { LitLines { l: Punctuated<LitItem, Token![;]>, end: Eof } }
gt! { LitItem { Byte(a: LitByte), Bytes(a: LitByteStr), Char(a: LitChar), Str(a: LitStr), Float(a: LitFloat), Int(a: LitInt, b: Maybe<Token![+], LitUint>), Uint(a: LitUint), Bool(a: LitBool) } }
gs! { Lits { l: Any<Lit> } }
gs! { Ints { l: Separated<Either<LitUint, LitInt>, Token![,]> } }

gs! { Marks { a: Maybe<kws::Alpha, NotEof>, e: Empty, n: NotEof, items: Any<MarkItem>, end: Either<Eof, MarkTail> } }
ge! { MarkItem { K { k: kws::Beta, n: NotEof }, P { p: Paren<Either<Eof, Word>> }, U { u: LitUint, e: Empty } } }
gs! { MarkTail { n: NotEof, c: Token![,], l: Either<MarkLast, Any<Word>> } }
gs! { MarkLast { w: Word, e: Eof } }

gs! { Toks { #[parsel(recursive)] t: Any<Tok1> } }
gt! { Tok1 { P(#[parsel(recursive)] g: Paren<Many<Box<Tok1>>>), B(#[parsel(recursive)] g: Bracket<Any<Box<Tok1>>>), C(#[parsel(recursive)] g: Brace<Punctuated<Box<Tok1>, Token![,]>>), L(l: Lit), W(w: Word), O(o: Token![::], w: Maybe<Token![<], Token![>]>), E(o: Token![==]) } }

gs! { Amb { l: Punctuated<AmbAlt, Token![,]> } }
ge! { AmbAlt {
    Long { a: Word, b: LitInt, c: Paren<Word>, d: Word },
    Mid { a: Word, b: LitUint, c: Paren<Any<Word>> },
    Late { a: Word, b: LitInt, c: Paren<LitInt>, d: Maybe<Token![:], Word> },
    Short { a: Word, b: Maybe<LitInt> },
    Opt { o: Maybe<LitStr, Maybe<Token![:], Separated<Word, Token![.]>>>, last: Token![!] },
} }

gs! { Macs { items: Any<Mac>, rest: Either<Separated<MacTail, Token![;]>, Raw> } }
ge! { Mac {
    Call { name: Word, bang: Token![!], body: Paren<Raw>, semi: Token![;] },
    Rules { name: Word, bang: Token![!], body: Brace<Punctuated<MacRule, Token![;]>> },
    Attr { h: Token![=], p: Maybe<RawPunct, RawLit>, body: Bracket<Maybe<Word, Raw>> },
    Tree { d: Token![.], t: RawTree, u: Any<RawLit> },
    Grp { d: Token![:], t: Either<RawGroup, Either<RawLit, RawPunct>> },
} }
gs! { MacRule { pat: RawGroup, arrow: Token![->], body: RawTree, opt: Maybe<Token![,], Any<RawLit>> } }
ge! { MacTail { Kv { k: Ident, eq: Token![=], v: Either<LitInt, RawGroup> }, Last { k: kws::Alpha, r: Raw }, Nest { p: Paren<Either<MacRule, Raw>> } } }

// ---------------------------------------------------------------- erased
pub trait Tr {
    fn tree(&self) -> Tree;
    fn toks(&self) -> TokenStream;
    fn plain(&self) -> String;
    fn alt(&self) -> String;
    fn same(&self, o: &dyn Tr) -> bool;
    fn dup(&self) -> Box<dyn Tr>;
    fn any(&self) -> &dyn std::any::Any;
    fn visit<'a>(&'a self, f: &mut dyn FnMut(Vis<'a>));
    fn pretty(&self, w: &mut dyn std::fmt::Write) -> std::fmt::Result;
    fn show(&self, alt: bool, w: &mut dyn std::fmt::Write) -> std::fmt::Result;
}
impl<T: G + ToTokens + Display + PartialEq + Debug + Clone> Tr for T {
    fn tree(&self) -> Tree { G::tree(self) }
    fn toks(&self) -> TokenStream { self.to_token_stream() }
    fn plain(&self) -> String { format!("{self}") }
    fn alt(&self) -> String { format!("{self:#}") }
    fn dup(&self) -> Box<dyn Tr> { Box::new(self.clone()) }
    fn same(&self, o: &dyn Tr) -> bool { o.any().downcast_ref::<T>().is_some_and(|x| x == self) }
    fn any(&self) -> &dyn std::any::Any { self }
    fn visit<'a>(&'a self, f: &mut dyn FnMut(Vis<'a>)) { G::visit(self, f) }
    fn pretty(&self, w: &mut dyn std::fmt::Write) -> std::fmt::Result { parsel::util::format_ast_node_pretty(self, w) }
    fn show(&self, alt: bool, w: &mut dyn std::fmt::Write) -> std::fmt::Result { if alt { write!(w, "{self:#}") } else { write!(w, "{self}") } }
}
pub type Res = parsel::Result<Box<dyn Tr>>;
pub struct Gram {
    pub name: &'static str,
    build: fn(&mut Reg) -> GN,
    pub from_str: fn(&str) -> Res,
    pub parse_str: fn(&str) -> Res,
    pub parse2: fn(TokenStream) -> Res,
    pub quoted: fn(TokenStream) -> Res,
    pub spanned: fn(TokenStream) -> Res,
}
fn b<T: G + ToTokens + Display + PartialEq + Debug + Clone>(r: parsel::Result<T>) -> Res { r.map(|x| Box::new(x) as Box<dyn Tr>) }
macro_rules! grams { ($($t:ident)*) => { pub static GRAMS: &[Gram] = &[$(Gram {
    name: stringify!($t),
    build: <$t as G>::gn,
    from_str: |s| b(<$t as FromStr>::from_str(s)),
    parse_str: |s| b(parsel::parse_str::<$t>(s)),
    parse2: |t| b(parsel::parse2::<$t>(t)),
    quoted: |t| { fn f(t: TokenStream) -> parsel::Result<$t> { Ok(parsel::try_parse_quote!(#t)) } b(f(t)) },
    spanned: |t| { fn f(t: TokenStream) -> parsel::Result<$t> { let s = parsel::Span::call_site(); Ok(parsel::try_parse_quote_spanned!(s => #t)) } b(f(t)) },
}),*]; } }
grams! { Json BoolOr Ty Module Fun Script Mixed MixPart LitLines Lits Ints Marks Toks Amb Expr Block Cmd AmbAlt Tok1 LitItem Macs Mac MacTail }

pub struct Grammar { pub rules: Vec<GN>, pub zoo: &'static [ZooMeta] }
thread_local! { static BUILT: std::cell::RefCell<HashMap<usize, &'static Grammar>> = Default::default(); }
/// the reference grammar of GRAMS[i] (rule 0 is the root)
pub fn grammar(i: usize) -> &'static Grammar {
    BUILT.with(|c| *c.borrow_mut().entry(i).or_insert_with(|| {
        let mut r = Reg::default();
        (GRAMS[i].build)(&mut r);
        Box::leak(Box::new(Grammar { rules: r.rules.into_iter().map(Option::unwrap).collect(), zoo: Vec::leak(r.zoo) }))
    }))
}
