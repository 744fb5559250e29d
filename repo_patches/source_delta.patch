From 984e4958a79f7f3264ac66c1e5c0301bd2d4f2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 1/9] fix: start every write of a TokenStreamFormatter at
 indentation level 0

An error or panic of the underlying writer inside a group left the level
raised, so later writes through the same formatter were over-indented.
---
 parsel/src/util.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/parsel/src/util.rs b/parsel/src/util.rs
index d104f1b..55adba9 100644
--- a/parsel/src/util.rs
+++ b/parsel/src/util.rs
@@ -401,7 +401,15 @@ where
 {
     /// Format a `TokenStream` respecting the specified indentation.
     pub fn write(&mut self, stream: TokenStream) -> fmt::Result {
-        self.write_indent()?;
+        // A previous call may have been cut short, by an error or a panic of
+        // the underlying writer, at any nesting depth.
+        self.indent_level = 0;
+        self.write_nested(stream)
+    }
+
+    /// Format a `TokenStream` at the current level, starting right where
+    /// the writer stands.
+    fn write_nested(&mut self, stream: TokenStream) -> fmt::Result {
         let mut spacing = Spacing::Joint;
         let mut iter = stream.into_iter().peekable();
 
@@ -431,7 +439,8 @@ where
                     let inner_stream = group.stream();
                     let (open, close) = match group.delimiter() {
                         Delimiter::None => {
-                            self.write(inner_stream)?;
+                            self.write_indent()?;
+                            self.write_nested(inner_stream)?;
                             continue;
                         }
                         Delimiter::Parenthesis => ('(', ')'),
@@ -446,9 +455,9 @@ where
                     // NOTE: this _also_ applies when _not_ pretty-printing.
                     if !inner_stream.is_empty() {
                         self.indent_level += 1;
-                        self.write_newline(Spacing::Joint)?;
+                        self.write_newline_and_indent(Spacing::Joint)?;
 
-                        self.write(inner_stream)?;
+                        self.write_nested(inner_stream)?;
 
                         self.indent_level -= 1;
                         self.write_newline_and_indent(Spacing::Joint)?;
-- 
2.43.0


From dee0b6a235ae9d14a50bb6d5d6b1b58a0e05715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 2/9] fix: do not write indentation in the middle of a line for
 invisible groups

---
 parsel/src/util.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parsel/src/util.rs b/parsel/src/util.rs
index 55adba9..f5af3f3 100644
--- a/parsel/src/util.rs
+++ b/parsel/src/util.rs
@@ -439,7 +439,6 @@ where
                     let inner_stream = group.stream();
                     let (open, close) = match group.delimiter() {
                         Delimiter::None => {
-                            self.write_indent()?;
                             self.write_nested(inner_stream)?;
                             continue;
                         }
-- 
2.43.0


From fe03db1b1f2f9bc84c39eb54fafabf04450ef5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 3/9] fix: treat an unexpected end of input as the farthest
 error of an alternation

Such errors are spanned to the call site, i.e. to 1:0, so an alternative that
was cut short lost against one that failed at the very first token.
---
 parsel/src/ast.rs  |  4 ++--
 parsel/src/util.rs | 10 +++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 328dde1..9f529ee 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -22,7 +22,7 @@ use syn::parse::{Error, Result, Parse, ParseStream};
 use syn::parse::discouraged::Speculative;
 use syn::punctuated::{Pair, IntoIter, Iter, IterMut, IntoPairs, Pairs, PairsMut};
 use quote::{ToTokens, TokenStreamExt};
-use crate::util::format_ast_node;
+use crate::util::{error_extent, format_ast_node};
 
 pub use proc_macro2::Ident;
 pub use syn::Token;
@@ -3976,7 +3976,7 @@ where
             Err(error) => error,
         };
 
-        Err(max_by_key(left_error, right_error, |e| e.span().end()))
+        Err(max_by_key(left_error, right_error, error_extent))
     }
 }
 
diff --git a/parsel/src/util.rs b/parsel/src/util.rs
index f5af3f3..c22783f 100644
--- a/parsel/src/util.rs
+++ b/parsel/src/util.rs
@@ -345,7 +345,7 @@ where
         }
         Err(error) => {
             let farthest = match error_acc {
-                Some(acc) => max_by_key(acc, error, |e| e.span().end()),
+                Some(acc) => max_by_key(acc, error, error_extent),
                 None => error,
             };
             Err(farthest)
@@ -353,6 +353,14 @@ where
     }
 }
 
+/// How far an error is in the input. Errors at the very end of the input are spanned
+/// to the (empty) call site, yet they are farther than errors at any actual token.
+pub(crate) fn error_extent(error: &Error) -> (bool, LineColumn) {
+    let span = error.span();
+    let end = span.end();
+    (span.start() == end, end)
+}
+
 /// Helper type for correctly and reasonably "pretty"-printing any `TokenStream` in
 /// a grammar- and language-agnostic way. This mostly means dealing with parentheses,
 /// so that nested structures don't end up on one single long line.
-- 
2.43.0


From f94abe5e9c0f21a54a87a06face3a1f1d6ec8b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 4/9] fix: reject floating-point literals that are out of range

They were parsed as an infinity, which panicked when it was printed.
---
 parsel/src/ast.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 9f529ee..b1a5ec1 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -2649,6 +2649,12 @@ impl TryFrom<syn::LitFloat> for LitFloat {
     fn try_from(lit: syn::LitFloat) -> Result<Self> {
         let value: NotNan<f64> = lit.base10_parse()?;
         let span = lit.span();
+
+        // infinities have no token representation
+        if value.is_infinite() {
+            return Err(Error::new(span, "floating-point literal out of range"));
+        }
+
         Ok(LitFloat::new(value, span))
     }
 }
-- 
2.43.0


From 54f237d70ac5877960920fd13f3cd72425a7171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 5/9] fix: parse a negative zero as the unsigned literal it is
 printed as

The text -0 became Lit::Int(0), which prints as 0, which in turn parses as
Lit::Uint(0), so the printed form of a parsed literal parsed to another one.
---
 parsel/src/ast.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index b1a5ec1..2d91718 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -3178,7 +3178,10 @@ impl TryFrom<syn::Lit> for Lit {
             syn::Lit::Byte(lit) => Ok(Lit::Byte(lit.into())),
             syn::Lit::Int(lit) => {
                 if lit.base10_digits().trim().starts_with('-') {
-                    LitInt::try_from(lit).map(Lit::Int)
+                    LitInt::try_from(lit).map(|lit| match lit.value {
+                        0 => Lit::Uint(LitUint::new(0, lit.span)), // printed without a sign
+                        _ => Lit::Int(lit),
+                    })
                 } else {
                     LitUint::try_from(lit).map(Lit::Uint)
                 }
-- 
2.43.0


From 80536fa5d590c8e57bfe10daa50ce7a554c5460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 6/9] fix: generate the field bounds of derived impls in
 declaration order

They were emitted in the iteration order of a randomly seeded hash set, so
the generated code differed from one compilation to the next.
---
 parsel_derive/src/util.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parsel_derive/src/util.rs b/parsel_derive/src/util.rs
index 3ebef2b..d666c83 100644
--- a/parsel_derive/src/util.rs
+++ b/parsel_derive/src/util.rs
@@ -16,10 +16,10 @@ pub fn add_bounds(
     where_clause: Option<&WhereClause>,
     bounds: Punctuated<TypeParamBound, Token![+]>,
 ) -> Result<WhereClause> {
-    let unique_types: HashSet<_> = match input.data {
+    let types: Vec<_> = match input.data {
         Data::Union(_) => return Err(Error::new_spanned(input, "unions are not supported")),
         Data::Struct(data) => match data.fields {
-            Fields::Unit => HashSet::new(),
+            Fields::Unit => Vec::new(),
             Fields::Named(fields) => {
                 fields.named
                     .into_iter()
@@ -64,8 +64,12 @@ pub fn add_bounds(
         }
     });
 
+    // keep the declaration order: the iteration order of a hash set is not reproducible
+    let mut seen = HashSet::new();
+    let unique_types = types.iter().filter(|ty| seen.insert(*ty));
+
     where_clause.predicates.extend(
-        unique_types.iter().map(|ty| -> WherePredicate {
+        unique_types.map(|ty| -> WherePredicate {
             parse_quote!{
                 #ty: #bounds
             }
-- 
2.43.0


From 61de1ad6e1af8f3919165a927f8d8a97cca43b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 7/9] fix: leave no trace of empty invisible groups in
 formatted output

The separator between such a group and the next token ended up as a stray
space after the indentation when the group was the first thing on its line.
---
 parsel/src/util.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parsel/src/util.rs b/parsel/src/util.rs
index c22783f..dd7c8b4 100644
--- a/parsel/src/util.rs
+++ b/parsel/src/util.rs
@@ -402,6 +402,17 @@ where
     }
 }
 
+/// Whether there is anything to print for the token, i.e., it isn't
+/// a group without delimiters and without visible contents.
+fn is_visible(tt: &TokenTree) -> bool {
+    match tt {
+        TokenTree::Group(group) if group.delimiter() == Delimiter::None => {
+            group.stream().into_iter().any(|tt| is_visible(&tt))
+        }
+        _ => true,
+    }
+}
+
 impl<S, W> TokenStreamFormatter<S, W>
 where
     S: AsRef<str>,
@@ -419,7 +430,7 @@ where
     /// the writer stands.
     fn write_nested(&mut self, stream: TokenStream) -> fmt::Result {
         let mut spacing = Spacing::Joint;
-        let mut iter = stream.into_iter().peekable();
+        let mut iter = stream.into_iter().filter(is_visible).peekable();
 
         while let Some(tt) = iter.next() {
             if spacing == Spacing::Joint {
-- 
2.43.0


From e07a5bf81ca5e0ed63836535b24b4a756eeb7a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 8/9] fix: keywords declared as raw identifiers can be printed

The token of a keyword such as r#type was made by Ident::new, which panics on
the r# prefix, so printing (or locating) any tree with such a keyword panicked.
---
 parsel/src/ast.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 2d91718..7f59fc5 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -311,7 +311,10 @@ macro_rules! define_keywords {
             }
 
             pub fn token(&self) -> ::parsel::ast::Ident {
-                ::parsel::ast::Ident::new($string, self.span)
+                match $string.strip_prefix("r#") {
+                    ::core::option::Option::Some(raw) => ::parsel::ast::Ident::new_raw(raw, self.span),
+                    ::core::option::Option::None => ::parsel::ast::Ident::new($string, self.span),
+                }
             }
         }
 
-- 
2.43.0


From 5d961cd408553c872b13b928bd38b4277df91a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:46 +0000
Subject: [PATCH 9/9] fix: alternations, repetitions and optional productions
 that end in a TokenStream no longer panic

---
 parsel/src/ast.rs  |  3 +--
 parsel/src/util.rs | 20 +++++++++++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 7f59fc5..f90307c 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -19,10 +19,9 @@ use ordered_float::NotNan;
 use syn::spanned::Spanned;
 use syn::ext::IdentExt;
 use syn::parse::{Error, Result, Parse, ParseStream};
-use syn::parse::discouraged::Speculative;
 use syn::punctuated::{Pair, IntoIter, Iter, IterMut, IntoPairs, Pairs, PairsMut};
 use quote::{ToTokens, TokenStreamExt};
-use crate::util::{error_extent, format_ast_node};
+use crate::util::{error_extent, format_ast_node, Speculative};
 
 pub use proc_macro2::Ident;
 pub use syn::Token;
diff --git a/parsel/src/util.rs b/parsel/src/util.rs
index dd7c8b4..76ba3f4 100644
--- a/parsel/src/util.rs
+++ b/parsel/src/util.rs
@@ -4,7 +4,8 @@ use core::cmp::max_by_key;
 use core::ops::Range;
 use core::fmt::{self, Debug, Display, Formatter, Write};
 use proc_macro2::{TokenStream, TokenTree, Spacing, Delimiter};
-use syn::parse::{ParseStream, discouraged::Speculative};
+use syn::buffer::Cursor;
+use syn::parse::{ParseBuffer, ParseStream};
 use quote::ToTokens;
 use crate::{Error, Result, Span, Spanned, LineColumn};
 
@@ -361,6 +362,23 @@ pub(crate) fn error_extent(error: &Error) -> (bool, LineColumn) {
     (span.start() == end, end)
 }
 
+/// Like `syn::parse::discouraged::Speculative`, except that it also works when
+/// parsing the fork has left no position to advance to: a `TokenStream` takes
+/// everything that remains, and then points to an empty buffer of its own.
+pub(crate) trait Speculative {
+    fn advance_to(&self, fork: &Self);
+}
+
+impl Speculative for ParseBuffer<'_> {
+    fn advance_to(&self, fork: &Self) {
+        if fork.cursor() == Cursor::empty() {
+            // this closure never fails
+            let _ = self.step(|_| Ok(((), Cursor::empty())));
+        }
+        syn::parse::discouraged::Speculative::advance_to(self, fork);
+    }
+}
+
 /// Helper type for correctly and reasonably "pretty"-printing any `TokenStream` in
 /// a grammar- and language-agnostic way. This mostly means dealing with parentheses,
 /// so that nested structures don't end up on one single long line.
-- 
2.43.0

