#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so that it is easy to edit)."""
import json, os
A="parsel/src/ast.rs"; U="parsel/src/util.rs"; D="parsel_derive/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
p("C01","Sequence nodes parse and print every field once, in declaration order",
 "A derived sequence node (a struct, or the fields of one enum alternative) parses its fields in declaration order, each starting exactly where the previous one stopped; when any field's parser fails - at any point, after consuming any number of tokens - the node fails with that field's error and no later field is attempted. Printing the node emits every field of the struct or active alternative exactly once, in the same order.",
 ["inputs","programs","fault_sequences"],"every derived struct/alternative shape (named, tuple, unit, any number of fields), every token input, and every place at which one of the user-supplied field parsers fails",
 "The tests parse a handful of well-formed snippets into fixed 1- to 5-field nodes; no field parser ever fails midway and no node has many fields, mixed shapes or repeated field types.",
 [D+"parse.rs",D+"to_tokens.rs",D+"util.rs"],[("expand_fields: one fallible sub-parse per field in source order",D+"parse.rs"),("expand_struct/expand_variants: one to_tokens per field in source order",D+"to_tokens.rs")],
 ["result and remaining input of Parse::parse on derived types","sequence of calls received by the field parsers","ToTokens output"])
p("C02","Alternation is an ordered, all-or-nothing choice",
 "An alternation (derived enum, or the two-way Either node) tries its alternatives in declaration order, all from the same input position, and yields the first one that succeeds together with exactly the tokens that alternative consumed. Alternatives that failed - wherever they failed and whatever they had consumed by then - leave no trace on the input seen by later alternatives or by the caller, and if every alternative fails nothing is consumed.",
 ["inputs","programs","fault_sequences"],"every enum shape and nesting, every token input, every point at which an alternative's sub-parser fails or is aborted",
 "The tests use enums of 2-4 alternatives that mostly differ in the first token; rollback of an alternative that failed deep inside nested groups or repetitions is never exercised.",
 [U,D+"parse.rs",A],[("try_parse_variant: fork, parse, advance only on success",U),("expand_variants: return on the first success",D+"parse.rs"),("impl Parse for Either",A)],
 ["chosen alternative and its subtree","position of the caller's stream after success and after failure"],
 [("input cursor","how far the caller's stream has been consumed","syn ParseBuffer passed to Parse::parse")])
p("C03","A failed alternation reports the alternative that got farthest",
 "When every alternative of an alternation fails on source text with locations, the reported error is the one of an alternative whose failure lies farthest in the input (an unexpected end of input lies farther than any token before it); its location and its innermost message are preserved. This holds through arbitrarily nested alternations.",
 ["inputs","programs","fault_sequences"],"every nesting of alternations, every input including inputs cut off at any token, and every failing point of the sub-parsers",
 "No test checks which of several errors is reported.",
 [U,A,D+"parse.rs"],[("try_parse_variant: max_by_key on the end of the error span",U),("impl Parse for Either: max_by_key",A),("error accumulator threaded through the alternatives",D+"parse.rs")],
 ["span and message of the Err returned by parse_str/FromStr"])
p("C04","An optional production is taken exactly when its prefix parses",
 "An optional node (Maybe) is present exactly if its prefix production parses at the current position; then prefix and body are consumed and a body that fails to parse is an error, never a silent absence. If the prefix fails - after consuming anything - the node is absent, nothing is consumed and no error is raised.",
 ["inputs","programs","fault_sequences"],"every prefix/body production, every input (incl. end of input and end of group), every failing point inside prefix and body",
 "The doc example only uses single-token prefixes on well-formed input.",
 [A],[("impl Parse for Maybe: fork for the prefix, advance, then parse the body on the real input",A)],
 ["presence and contents of the parsed node","remaining input"])
p("C05","Repetition takes every item in order, and stops or fails at the right place",
 "Any takes the longest run of items that parse and stops before the first one that does not, consuming nothing of it; Separated needs at least one item, goes on exactly while a separator parses, and an item that fails after a consumed separator is an error; Punctuated and Many must extend to the end of the input or group, and any item or separator that fails before that is an error. Items and separators are kept in order, none lost, duplicated or invented, for any number of items.",
 ["inputs","programs","fault_sequences"],"every item/separator production that consumes input, any length, every position at which an item or separator parser fails",
 "Doc tests use lists of a few items, and failures only as a trailing separator or an empty list.",
 [A],[("impl Parse for Any: fork per item",A),("impl Parse for Separated: fork per separator",A),("impl Parse for Punctuated: syn parse_terminated",A)],
 ["parsed items, separators, remaining input"])
p("C06","Operator chains keep operand order, associate correctly, do not recurse",
 "A chain of n operands and n-1 operators parsed as LeftAssoc (RightAssoc) gives the unique tree that leans entirely to the left (right), whose in-order operands and operators are exactly the input's; an operand missing after an operator is an error. Operand and operator parsers run at a call depth that does not grow with their index in the chain, and each is run on every input position at most a constant number of times.",
 ["inputs","programs","fault_sequences"],"every chain length, operand/operator production, and failing position",
 "Doc tests cover three- and four-operand chains, on which recursion and many wrong tree shapes are indistinguishable.",
 [A],[("impl Parse for LeftAssoc / RightAssoc via Separated",A),("Separated::into_first_rest / into_last_rest",A)],
 ["tree shape","stack depth and attempts seen by the operand parser"])
p("C07","Delimiters and end markers confine parsing; no token is silently ignored",
 "A delimited node (Paren, Bracket, Brace) matches exactly one group with that delimiter and its body sees exactly the group's contents, ending at the closing delimiter; a parse that leaves tokens over, inside a group or at the end, is rejected as a whole. End markers match exactly at the end of the current level (Eof) or exactly before it (NotEof), the empty production always matches, and none of them consumes or prints anything.",
 ["inputs","programs","fault_sequences"],"every nesting of groups, every input with tokens dropped, added or delimiters changed at any place",
 "Tests check one wrong-delimiter case per type and top-level Eof only; leftovers inside groups that are parsed speculatively are untested.",
 [A],[("impl Parse for Paren/Bracket/Brace",A),("impl Parse for Eof/NotEof/Empty",A)],
 ["verdict of parse_str, tree, remaining input"])
p("C08","Damaged input is rejected or represented faithfully, never misread",
 "For source text damaged in any way (tokens or bytes lost, duplicated, reordered, replaced, inserted or cut off), every fallible entry point (FromStr, parse_str, parse2, try_parse_quote!) returns the same verdict without panicking, and that verdict is acceptance exactly if the damaged text is a sentence of the grammar. A tree that is returned prints, without panicking and in every layout, exactly the tokens of the damaged text up to the spelling of literals (a zero integer is printed without a sign), and parsing that print gives an equal tree again, except where a grammar tells that signed zero from an unsigned one.",
 ["inputs","programs","fault_sequences"],"every sequence of faults on every text, for grammars over all node, literal, identifier and keyword types",
 "Round-trip tests use two fixed well-formed documents; literals are tested on a few values; no damaged input is ever parsed.",
 [A,U,D+"parse.rs",D+"to_tokens.rs",D+"from_str.rs",D+"display.rs"],[("literal wrappers: token(), Parse, TryFrom<syn::Lit*>",A),("ToTokens of all nodes",A),("try_parse_quote!",U),("derived Parse/ToTokens/FromStr/Display",D+"lib.rs")],
 ["verdicts and trees of all entry points","printed tokens, re-parsed tree"])
p("C09","A failing output sink is reported, and only a prefix has been written",
 "When the destination of formatted output fails at any write, formatting (of token streams, AST nodes, or through Display) returns the error instead of success, writes nothing more to it, and what was written before is exactly a prefix of the complete output. If the destination does not fail, formatting succeeds and delivers the complete output; an error never comes from anywhere else.",
 ["inputs","fault_sequences","crash_points"],"every document, layout, node type and every write at which the destination fails or panics",
 "Every test and doc example writes to a String, which never fails.",
 [U,A],[("? after each write in TokenStreamFormatter",U),("format_ast_node* and Display impls",U)],
 ["bytes and calls received by the fmt::Write destination, returned fmt::Result"],
 [("indent_level","current nesting depth","TokenStreamFormatter in "+U)])
p("C10","Formatted output is the same token stream, laid out by nesting depth",
 "Formatting a token stream changes only whitespace: the pretty, compact and custom-indent outputs all lex back to the same tokens; compact output has no line breaks or indentation, and in pretty output every line is indented by its nesting depth times the indent string, what is inside a pair of delimiters stands on lines of its own, and the choice of the indent string changes nothing but the indentation. Only the tokens count, not where they were read from or how they were laid out there: any of these outputs, read back and formatted again, gives the same as the tokens it came from would. This holds for every stream written through a formatter, whatever was written through it before, including writes that failed or panicked midway. A custom indentation is accepted exactly when it is made of white space only.",
 ["inputs","histories","fault_sequences"],"every token stream, layout and history of successful, failed and aborted writes through the same formatter",
 "One QuickCheck property checks re-lexing of single pretty-printed streams on a fresh formatter; re-use, failed writes, compact and custom indents are covered by two fixed examples.",
 [U],[("TokenStreamFormatter::write, write_indent, write_newline_and_indent",U)],
 ["text received by the destination of each write"],
 [("indent_level","must return to its initial value after every write, however it ends","TokenStreamFormatter in "+U)])
p("C11","Operations are independent of other threads, nested calls and past failures",
 "The outcome of parsing, printing or formatting depends only on its own arguments: it is the same as in a fresh process when other threads parse and print at the same time in any interleaving, when it is invoked from inside a user-supplied parser or output sink of another operation, and after earlier operations on the same thread failed or panicked at any point.",
 ["schedules","histories","crash_points"],"every interleaving of operations of several threads at the points where they call user code, every nesting, every history of failed and panicked operations",
 "Tests run single operations on fresh state; the test runner's threads interleave only by accident.",
 [U,A,D+"parse.rs"],[("no global or thread-local state in the library; formatter state is owned by the formatter",U)],
 ["results of all operations"])
p("C12","A separated sequence is never empty and never has a trailing separator",
 "Through every sequence of public operations on a Separated value - including operations cut short by a panic in a user-supplied iterator, value or default separator, and conversions from arbitrary punctuated sequences - it holds at least one item and exactly one separator fewer than items, so that length, first, last and the first/last decompositions never panic and agree with its contents. Conversion is refused exactly for empty or trailing-separator sequences.",
 ["histories","crash_points"],"every history of operations and every call of user code at which it panics",
 "Doc tests do one push_value and two decompositions; no history, no panic.",
 [A],[("no DerefMut/FromIterator/AsMut on Separated",A),("push/push_value/insert/extend",A),("TryFrom<Punctuated>",A)],
 ["public accessors after each step"],[("inner","non-empty, no trailing punctuation","Separated in "+A)])
p("C13","Container nodes behave like the sequences they wrap",
 "Any, Punctuated, Separated, Maybe and Either act on every history of insertions, removals, extensions, iterations and conversions exactly as the plain sequence, optional or two-way value they stand for: every element that went in is found once, in order, under the same tag, and every iterator view (shared, mutable, by value, by pairs, from either end) yields exactly the current contents. Likewise Paren, Bracket and Brace hold exactly the body last put in, and a LeftAssoc or RightAssoc tree, built and rebuilt by its parts, keeps every operand and operator in its place. An operation cut short by a panic in user code leaves the earlier contents plus a prefix of what was being added. Every element and separator that was handed over is dropped exactly once, none is leaked, also when user code panicked.",
 ["histories","crash_points"],"every history of operations and every point at which user-supplied iterators, closures or defaults panic",
 "Apart from a few doc tests of Either::map/flip the container API is not tested at all.",
 [A],[("delegation of Any/Punctuated/Maybe/Either to Vec, syn Punctuated, Option, and the active side",A),("Paren/Bracket/Brace: Deref, From, into parts",A),("LeftAssoc/RightAssoc tree values",A)],
 ["public accessors and iterators"])
p("C14","Deriving is reproducible",
 "The code generated by a derive is a function of the annotated item alone: expanding the same item gives token-for-token the same output in every compilation, whatever entropy, clock, environment, working directory and arguments the compiler process gets, wherever the item stands and whatever items were expanded before it.",
 ["schedules","configurations","histories"],"every item, every seed of the process's random state, every environment of the compiler and every order and number of earlier expansions",
 "Tests compile each item once per build and never compare expansions.",
 [D+"util.rs",D+"parse.rs",D+"to_tokens.rs",D+"from_str.rs",D+"display.rs"],[("add_bounds: de-duplication of field types for the where clause",D+"util.rs")],
 ["expanded source of derived items, as rustc sees it"],[("hash keys","seed of std HashSet/HashMap iteration order","std RandomState in the compiler process")])
p("C15","Reported source locations identify the node's own text",
 "For every node of a tree parsed from text, the byte and character ranges, substring and line:column display computed from its location denote exactly its text in the source it came from - from the start of its first token to the end of its last - for any layout, line ending and multi-byte content; a node with no tokens has an empty range. This stays true however many other sources (valid, damaged or nested inside the parse) the thread has read before or since, and also of a copy of the tree and of the tree read back from its own tokens.",
 ["inputs","histories","schedules"],"every source text and every interleaving of parsing other sources and resolving locations",
 "Two doc tests check four literals and one header in a single source.",
 [U,A],[("byte_offset/char_offset, SpannedExt, SpanDisplay",U),("spans kept by literals, wrappers and derived ToTokens",A)],
 ["SpannedExt::{byte_range,char_range,source_substring,format_span}"])
p("C16","Parse errors keep their cause and name the productions that led to it",
 "An error returned by a derived parser carries the location and the message of the innermost failure unchanged, and names, from the outermost to the innermost, every derived production being parsed: type, alternative if any, and field name or index.",
 ["inputs","programs","fault_sequences"],"every nesting of derived nodes and every failing point of a sub-parser",
 "No test looks at the text of derived parsers' errors beyond one substring.",
 [U,D+"parse.rs"],[("chain_error",U),("expand_fields passes enum, constructor and field names",D+"parse.rs")],
 ["Display and span of the returned Error"])
p("C17","Literal values survive every conversion",
 "Through any history of conversions between the library's literal nodes, syn's literals, plain Rust values, tokens and source text - including printing and reading back, cloning, writing through mutable access, and moving to another location - a literal keeps its kind and its value, and keeps its source location unless the step is one that builds it anew or sets the location. A conversion is refused exactly when the value lies outside the target's range or is of another kind; a refusal or a panic on the way leaves what already existed unchanged. (Infinite floats have no token form and are outside.)",
 ["inputs","histories","fault_sequences"],"every literal value and spelling, and every history of conversions with refused steps in between",
 "The tests parse a handful of values and never chain conversions or attempt a refused one.",
 [A],[("impl_literal!: From/TryFrom/Parse/ToTokens of every LitX",A),("impl_typed_int_conv! and the Lit sum type",A)],
 ["public conversions, accessors, tokens and spans of LitBool..LitByteStr and Lit"])
p("C18","Equality, order and hash agree, depend on values only and ignore locations",
 "Two nodes (literals, identifiers, keywords, words, containers, delimited nodes) that hold the same values are equal, wherever and however they were made, and nodes that differ in a value are not; where nodes are ordered the order is the one of their values (total for literals and identifiers, and consistent with equality); equal nodes hash equally and, where they can be borrowed as a plain value, equality, order and hash agree with that plain value. So a map or set keyed by nodes behaves as one keyed by the plain values through any history of insertions, lookups (by node or by plain value) and removals, including ones cut short by a panic in user code.",
 ["inputs","histories","crash_points"],"every pair of nodes, every history of a keyed collection, every point at which a user-supplied hasher or element panics",
 "No test compares nodes with different locations, orders or hashes them, or keys a map by them.",
 [A],[("impl_literal!: PartialEq/Ord/Hash/Borrow",A),("CustomIdent and define_keywords! trait impls",A),("derived and hand-written PartialEq/Hash of the container nodes",A)],
 ["PartialEq, PartialOrd, Ord, Hash, Borrow; HashMap/BTreeMap keyed by nodes"])
p("C19","Customised identifiers reject exactly their language's keywords",
 "An identifier type parameterised by a keyword language accepts every identifier-like word except exactly the listed keywords (compared exactly, case included), in whatever way the word is delivered - source text, tokens, a syn or proc_macro2 identifier, inside a grammar, after any number of rejected words - and a rejected word consumes nothing of the input a later alternative sees. Each declared keyword type parses from exactly its own word and prints as it. Accepted words keep their spelling and location through conversion and printing, and languages do not influence one another.",
 ["inputs","programs","histories"],"every keyword language, word and history of accepted and rejected words over several languages",
 "One example language is tested, on two words.",
 [A],[("CustomIdent: Parse, TryFrom<Ident>, Display, Deref",A),("define_keywords!: keyword types, the Keyword enum and the list of words",A)],
 ["Parse/TryFrom/FromStr of CustomIdent, keyword types; printed tokens and spans"])
p("N04","Derives compile for every well-formed grammar type",
 "For every generic, recursive or non-recursive type whose field types are parseable/printable the derives generate code that compiles, with exactly the field bounds not marked recursive.",
 ["programs"],"every item accepted by rustc","a dozen items are compiled by the tests",[D+"util.rs"],[("add_bounds, field_type, Attrs",D+"util.rs")],["rustc accepts the expansion"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
