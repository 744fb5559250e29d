// Generates the zoo of derived productions: one Rust type per shape, every field a `Dyn<slot>`.
use std::fmt::Write;

/// a field: name, slot of the grammar node it is parsed with, attributes (and visibility), boxed
struct F { name: String, slot: usize, attrs: String, boxed: bool }
struct V { name: String, shape: char, fields: Vec<F>, attrs: String } // shape n/t/u
struct T { name: String, is_enum: bool, vs: Vec<V>, generic: u8, attrs: String }

fn v(name: &str, shape: char, fields: &[(&str, usize)]) -> V {
    V { name: name.into(), shape, fields: fields.iter().map(|f| F { name: f.0.into(), slot: f.1, attrs: String::new(), boxed: false }).collect(), attrs: String::new() }
}
fn s(name: &str, shape: char, fields: &[(&str, usize)]) -> T {
    T { name: name.into(), is_enum: false, vs: vec![v(name, shape, fields)], generic: 0, attrs: String::new() }
}
fn e(name: &str, vs: Vec<V>) -> T {
    T { name: name.into(), is_enum: true, vs, generic: 0, attrs: String::new() }
}

/// the shapes are random, but the same in every build
struct R(u64);
impl R {
    fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        ((z ^ (z >> 31)) % n as u64) as usize
    }
    fn chance(&mut self, p: usize) -> bool { self.below(100) < p }
}
const NAMES: &[&str] = &["input", "error", "result", "cause", "ast_node", "err", "fork", "span", "this", "value", "inner", "lhs", "rhs", "op", "r#type", "r#fn", "r#match", "r#struct",
    "r#async", "r#loop", "head", "tail", "left", "right", "x", "y", "z", "_0", "_1", "_under", "__hidden", "a1", "a2", "a10", "stmt", "expr", "body", "name", "ty", "args", "open", "close", "begin",
    "end", "first", "last", "UPPER", "camelCase", "f", "g", "stream", "ts", "formatter", "string", "parse", "next"];
const FATTRS: &[&str] = &["#[parsel(recursive)]", "#[parsel(recursive = true)]", "#[parsel(recursive = false)]", "/// documented\n", "#[allow(unused)]", "#[parsel(recursive)] #[doc(hidden)]", "/** block\n doc */ #[parsel(recursive)]", "#[parsel()]"];
const SPELL: &[&str] = &["Dyn", "self::Dyn", "()", "nm::Option", "nm::PhantomData", "nm::Empty", "nm::Eof", "nm::Vec", "nm::Token", "nm::Span", "nm::Semi", "nm::Paren", "nm::Self_", "nm::Maybe", "nm::Unit"];
const WORDS: &[&str] = &["the", "left", "hand", "side", "of", "expression", "statement", "list", "a", "b", "type", "fn", "parameter", "x1", "operand", "and", "Rest", "ABC", "number_2"];
const VIS: &[&str] = &["", "", "", "pub ", "pub(crate) "];
fn fields(r: &mut R, shape: char, n: usize, nslots: usize, is_enum: bool, style: usize) -> Vec<F> {
    let mut names: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    if is_enum { names.retain(|n| n != "tokens"); }
    (0..n).map(|i| {
        let name = if shape == 'n' { names.remove(r.below(names.len())) } else { i.to_string() };
        // style 0: no attributes; 1: one attribute here and there; 2: dense
        let mut attrs = if r.chance([0, 20, 60][style]) { FATTRS[r.below(FATTRS.len())].to_string() + " " } else { String::new() };
        if !is_enum { attrs += VIS[r.below(VIS.len())]; }
        F { name, slot: if n >= nslots && i < nslots && r.chance(50) { i } else { r.below(nslots) }, attrs, boxed: style > 0 && r.chance(15) }
    }).collect()
}
fn random_shapes(r: &mut R, ts: &mut Vec<T>) {
    let mut id = 0;
    let counts = [2, 3, 4, 5, 6, 7, 9, 10, 11, 13, 14, 15, 16, 17, 19, 22, 25, 31, 33, 40];
    for (k, n) in counts.iter().enumerate() {
        for shape in ['n', 't'] {
            let nslots = 1 + r.below(5.min(*n));
            let style = (k + (shape == 't') as usize) % 3;
            let fs = fields(r, shape, *n, nslots, false, style);
            let both = fs.iter().all(|f| f.slot < 2) && fs.iter().any(|f| f.slot == 0) && fs.iter().any(|f| f.slot == 1);
            let generic = (both && r.chance(60)) as u8;
            ts.push(T { name: format!("Zr{id}"), is_enum: false, vs: vec![V { name: format!("Zr{id}"), shape, fields: fs, attrs: String::new() }], generic, attrs: String::new() });
            id += 1;
        }
    }
    let nvars = [2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 17, 20, 26, 33];
    for (k, n) in nvars.iter().enumerate() {
        let nslots = 2 + r.below(5);
        let style = k % 3;
        let vs = (0..*n).map(|i| {
            let shape = if r.chance(45) { 'n' } else { 't' };
            let nf = match r.below(10) { 0 => 1, 1..=3 => 2, 4..=6 => 3, 7 => 4, 8 => 5 + r.below(4), _ => 9 + r.below(9) };
            let attrs = if style == 2 && r.chance(30) { "/// a variant\n#[doc(alias = \"v\")]\n".to_string() } else { String::new() };
            let name = if k % 4 == 3 { ["Zulu", "Alpha", "Mike", "Ok", "Err", "Some", "None", "Self_", "Echo", "Bravo"][i % 10].to_string() + &if i >= 10 { i.to_string() } else { "_".to_string() } } else { format!("V{i}") };
            V { name, shape, fields: fields(r, shape, nf, nslots, true, style), attrs }
        }).collect();
        ts.push(T { name: format!("Zv{k}"), is_enum: true, vs, generic: 0, attrs: String::new() });
    }
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=PSIM_ZOO");
    let mut ts: Vec<T> = vec![
        s("Zs0", 'n', &[("a", 0)]),
        s("Zs1", 't', &[("0", 0)]),
        s("Zs2", 'n', &[("input", 0), ("error", 1)]),
        s("Zs3", 't', &[("0", 0), ("1", 1)]),
        s("Zs4", 'n', &[("ast_node", 0), ("cause", 1), ("result", 2)]),
        s("Zs5", 't', &[("0", 0), ("1", 1), ("2", 2)]),
        s("Zs6", 'n', &[("r#type", 0), ("tokens", 1), ("r#match", 2), ("self_", 3)]),
        s("Zs7", 't', &[("0", 0), ("1", 1), ("2", 2), ("3", 3)]),
        s("Zs8", 'n', &[("zeta", 0), ("alpha", 1), ("mid", 2), ("beta", 3), ("aa", 4)]),
        s("Zs9", 't', &[("0", 0), ("1", 1), ("2", 2), ("3", 3), ("4", 4)]),
        s("Zs10", 'n', &[("f0", 0), ("f1", 1), ("f2", 2), ("f3", 3), ("f4", 4), ("f5", 5), ("f6", 6), ("f7", 7)]),
        s("Zs11", 't', &[("0", 0), ("1", 1), ("2", 2), ("3", 3), ("4", 4), ("5", 5), ("6", 6), ("7", 7), ("8", 8), ("9", 9), ("10", 10), ("11", 11)]),
        s("Zs12", 'n', &[("first", 0), ("again", 1), ("second", 0)]),
        s("Zs13", 't', &[("0", 0), ("1", 0), ("2", 1), ("3", 0)]),
        s("Zs14", 'n', &[("span", 0), ("span_", 0), ("_x", 1)]),
        s("Zs15", 'u', &[]),
        s("Zs16", 'n', &[]),
        s("Zs17", 't', &[]),
        e("Ze0", vec![v("A", 't', &[("0", 0)])]),
        e("Ze1", vec![v("A", 't', &[("0", 0)]), v("B", 't', &[("0", 1)])]),
        e("Ze2", vec![v("First", 'n', &[("lhs", 0), ("rhs", 1)]), v("Second", 't', &[("0", 0), ("1", 2)]), v("Third", 't', &[("0", 3)])]),
        e("Ze3", vec![v("A", 'n', &[("input", 0), ("error", 1), ("result", 2)]), v("B", 'n', &[("err", 0), ("cause", 1)]), v("C", 't', &[("0", 0)])]),
        e("Ze4", vec![v("A", 't', &[("0", 0), ("1", 1), ("2", 2)]), v("B", 't', &[("0", 0), ("1", 1)]), v("C", 't', &[("0", 0)]), v("D", 't', &[("0", 3)])]),
        e("Ze5", vec![v("One", 't', &[("0", 0)]), v("Nothing", 'u', &[])]),
        e("Ze6", vec![v("One", 't', &[("0", 0), ("1", 1)]), v("Two", 'n', &[("x", 0)]), v("EmptyN", 'n', &[])]),
        e("Ze7", vec![v("A", 't', &[("0", 0)]), v("B", 't', &[("0", 1)]), v("C", 't', &[("0", 2)]), v("D", 't', &[("0", 3)]), v("E", 't', &[("0", 4)]), v("F", 't', &[("0", 5)]), v("G", 't', &[("0", 6)]), v("H", 't', &[("0", 7)])]),
        e("Ze8", vec![
            v("A", 'n', &[("p", 0), ("q", 1)]), v("B", 't', &[("0", 0), ("1", 2)]), v("C", 'n', &[("q", 1), ("p", 0)]),
            v("D", 't', &[("0", 3)]), v("E", 't', &[("0", 3), ("1", 0)]), v("F", 't', &[("0", 4)]),
            v("G", 'n', &[("z", 4), ("a", 0)]), v("H", 't', &[("0", 2), ("1", 2)]), v("I", 't', &[("0", 1)]),
            v("J", 't', &[("0", 0)]), v("K", 't', &[("0", 2)]), v("L", 't', &[("0", 4), ("1", 4)])]),
        e("Ze9", vec![v("Long", 't', &[("0", 0), ("1", 1), ("2", 2), ("3", 3), ("4", 4), ("5", 5)]), v("Mid", 'n', &[("r#fn", 0), ("r#in", 1), ("x", 2)]), v("Short", 't', &[("0", 0)])]),
        e("Ze10", vec![v("X", 't', &[("0", 0), ("1", 0)]), v("Y", 't', &[("0", 0)])]),
        e("Ze11", vec![v("Ok_", 't', &[("0", 0), ("1", 1)]), v("Err_", 't', &[("0", 1), ("1", 0)]), v("Some_", 't', &[("0", 1)])]),
    ];
    // generic, boxed and attribute-carrying variations
    let with = |mut t: T, generic: u8, boxed: bool, attrs: &str| {
        t.generic = generic;
        for f in t.vs.iter_mut().flat_map(|v| v.fields.iter_mut()) { f.boxed = boxed; f.attrs = attrs.into() }
        t
    };
    ts.push(with(s("Zg0", 'n', &[("a", 0), ("b", 1)]), 1, false, ""));
    ts.push(with(e("Zg1", vec![v("L", 't', &[("0", 0), ("1", 1)]), v("R", 'n', &[("b", 1), ("a", 0)]), v("M", 't', &[("0", 0)])]), 1, false, ""));
    ts.push(with(s("Zb0", 't', &[("0", 0), ("1", 1), ("2", 0)]), 0, true, "#[parsel(recursive)] "));
    ts.push(with(e("Zb1", vec![v("A", 'n', &[("next", 0), ("op", 1)]), v("B", 't', &[("0", 0)])]), 0, true, "#[parsel(recursive)] "));
    ts.push(with(s("Zw0", 't', &[("0", 0), ("1", 1)]), 2, false, ""));
    random_shapes(&mut R(7), &mut ts);
    // names that coincide
    ts.push(e("Zn0", vec![v("Zn0", 't', &[("0", 0), ("1", 1)]), v("Other", 'n', &[("other", 1)])]));
    ts.push(e("Zn1", vec![v("A", 'n', &[("Zn1", 0), ("A", 1), ("a", 2)]), v("Zn1", 'n', &[("Zn1", 2), ("zn1", 0), ("x", 1)]), v("a", 't', &[("0", 0)])]));
    ts.push(s("Zn2", 'n', &[("Zn2", 0), ("zn2", 1)]));
    ts.push(e("Zn3", vec![v("Zn3", 't', &[("0", 0), ("1", 1), ("2", 2)])]));
    ts.push(e("Zn4", vec![v("r#fn", 'n', &[("r#fn", 0), ("r#struct", 1)]), v("r#match", 't', &[("0", 1), ("1", 2)])]));
    ts.push(e("Zn5", vec![v("Zs1", 't', &[("0", 0), ("1", 1)]), v("Ze1", 'n', &[("b", 1), ("Ze3", 2)]), v("B", 'n', &[("B", 0)])]));
    // names that are long, or of many scripts
    let mut r = R(41);
    for k in 0..8 {
        let mut used: Vec<String> = vec![];
        let mut name = |r: &mut R| loop {
            let n = [12, 20, 31, 32, 33, 64, 90, 130, 255, 300][r.below(10)];
            let mut s = String::new();
            while s.len() < n || s.len() < 2 { s += WORDS[r.below(WORDS.len())]; if r.chance(60) { s.push('_') } }
            if k >= 4 { s = ["länge", "日本", "é", "straße", "Ωmega", "имя", "ñ", "名前", "ſ", "ı", "ǆ", "ﬁn", "𝒳", "a", "zz", "name", "größe_der_menge"][r.below(17)].to_string() + if r.chance(30) { "_" } else { "" } + if r.chance(20) { "x" } else { "" } }
            // as one would find it in the source again
            if !used.contains(&s) { used.push(s.clone()); return s }
        };
        let long = |r: &mut R, name: &mut dyn FnMut(&mut R) -> String, n: usize, is_enum: bool| -> V {
            let shape = if is_enum && r.chance(35) { 't' } else { 'n' };
            let fs = (0..n).map(|i| F { name: if shape == 'n' { name(r) } else { i.to_string() }, slot: r.below(3), attrs: String::new(), boxed: false }).collect();
            V { name: name(r), shape, fields: fs, attrs: String::new() }
        };
        let tname = if k % 2 == 0 { format!("Zl{k}") } else { format!("Zl{k}{}", ["_of_a_production_whose_name_goes_on_and_on_and_on_and_is_still_one_name_0123456789_and_on", "_länge_und_größe_名前", "_of_some_length_ABCDEFGHIJ", "_имя"][k / 2]) };
        if k % 4 < 2 {
            let mut v = long(&mut r, &mut name, 4 + k, false);
            v.name = tname.clone();
            ts.push(T { name: tname, is_enum: false, vs: vec![v], generic: 0, attrs: String::new() });
        } else {
            let vs = (0..3 + k).map(|i| long(&mut r, &mut name, 1 + (i * 3) % 5, true)).collect();
            ts.push(T { name: tname, is_enum: true, vs, generic: 0, attrs: String::new() });
        }
    }
    // many fields, many variants
    ts.push(T { name: "Zm0".into(), is_enum: false, vs: vec![V { name: "Zm0".into(), shape: 't', fields: fields(&mut r, 't', 132, 3, false, 0), attrs: String::new() }], generic: 0, attrs: String::new() });
    // the last ones take other inputs than all before
    ts.push(e("Zm1", (0..274).map(|i| v(&format!("V{i}"), 't', &[("0", if i < 255 { i % 3 } else { 3 + i % 3 }), ("1", (i / 3) % 6)][..1 + (i % 50 == 1 || i > 258) as usize])).collect()));

    // when what is derived for unusual names (or generics and attributes) does not compile, the ordinary shapes are still decided
    let level: usize = std::env::var("PSIM_ZOO").ok().and_then(|l| l.parse().ok()).unwrap_or(0);
    if level > 0 {
        for t in &mut ts {
            if level > 1 { t.generic = 0 }
            let odd = |n: &str| n.len() > 24 || !n.is_ascii();
            if odd(&t.name) { t.name.truncate(3) }
            for (i, v) in t.vs.iter_mut().enumerate() {
                v.name = if !t.is_enum { t.name.clone() } else if odd(&v.name) { format!("Vx{i}") } else { format!("V{}", v.name.trim_start_matches("r#")) };
                for (i, f) in v.fields.iter_mut().enumerate() {
                    if v.shape == 'n' { f.name = if odd(&f.name) { format!("mx_{i}") } else { format!("m_{}", f.name.trim_start_matches("r#")) } }
                    if level > 1 { f.attrs = if f.boxed { "#[parsel(recursive)] ".into() } else { String::new() } }
                }
            }
        }
    }
    let mut o = String::from("mod nm {\n");
    for n in SPELL.iter().filter_map(|s| s.strip_prefix("nm::")) { writeln!(o, "    #[allow(unused)] pub type {n}<const N: usize> = super::Dyn<N>;").unwrap() }
    o.push_str("}\n");
    let mut meta = String::from("pub static ZOO: &[ZooMeta] = &[\n");
    let mut disp = String::from("pub fn parse_zoo(id: usize, input: ParseStream<'_>) -> parsel::Result<Box<dyn Ast>> {\n match id {\n");
    let mut disps = String::from("pub fn parse_zoo_str(id: usize, text: &str) -> parsel::Result<Box<dyn Ast>> {\n match id {\n");
    for (id, t) in ts.iter().enumerate() {
        let nslots = t.vs.iter().flat_map(|v| v.fields.iter().map(|f| f.slot + 1)).max().unwrap_or(0);
        let (gen, fty, inst): (&str, Box<dyn Fn(usize) -> String>, String) = match t.generic {
            // a field marked recursive gets no bound from the derive
            1 => ("<TA: parsel::Parse + parsel::ToTokens, TB: parsel::Parse + parsel::ToTokens>", Box::new(|k| ["TA", "TB"][k].to_string()), format!("{}<Dyn<0>, Dyn<1>>", t.name)),
            2 => ("<const N: usize, TB: Clone>", Box::new(|k| ["Dyn<N>", "TB"][k].to_string()), format!("{}<0, Dyn<1>>", t.name)),
            _ => ("", Box::new(|k| format!("Dyn<{k}>")), t.name.clone()),
        };
        // the types of fields are written in many ways, with names that mean something elsewhere
        let sp = std::cell::RefCell::new(R(id as u64 * 1000 + 5));
        let spell = |n: &str| -> String {
            let k = sp.borrow_mut().below(if id % 3 == 0 || level > 1 { 1 } else { 3 * SPELL.len() });
            match (n.strip_prefix("Dyn<"), SPELL.get(k)) {
                (Some(_), Some(sp)) if *sp == "()" => format!("({n})"),
                (Some(slot), Some(sp)) => format!("{sp}<{slot}"),
                _ => n.to_string(),
            }
        };
        let spelled: Vec<String> = t.vs.iter().flat_map(|v| v.fields.iter().map(|f| spell(&fty(f.slot)))).collect();
        let fty = |f: &F| spelled[t.vs.iter().flat_map(|v| v.fields.iter()).position(|g| std::ptr::eq(f, g)).unwrap()].clone();
        let fty = |f: &F| if f.boxed { format!("Box<{}>", fty(f)) } else { fty(f) };
        let body = |v: &V| -> String {
            let f = |f: &F| if v.shape == 'n' {
                // attributes come before the visibility
                format!("{}{}: {}", f.attrs, f.name, fty(f))
            } else { format!("{}{}", f.attrs, fty(f)) };
            let fs: Vec<_> = v.fields.iter().map(f).collect();
            match v.shape { 'n' => format!("{{ {} }}", fs.join(", ")), 't' => format!("({})", fs.join(", ")), _ => String::new() }
        };
        let derives = "#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]\n#[allow(dead_code, nonstandard_style, uncommon_codepoints)]";
        if t.is_enum {
            let disc = level < 2 && id % 5 == 2;
            let vs: Vec<_> = t.vs.iter().enumerate().map(|(i, v)| format!("    {}{}{}{}", v.attrs, v.name, body(v), if disc { format!(" = {}", (i * 37 + 11) % 101 ) } else { String::new() })).collect();
            if disc { writeln!(o, "#[repr(u8)]").unwrap() }
            writeln!(o, "{derives}\npub enum {}{} {{\n{}\n}}", t.name, gen, vs.join(",\n")).unwrap();
        } else {
            let b = body(&t.vs[0]);
            let semi = if t.vs[0].shape == 'n' { "" } else { ";" };
            writeln!(o, "{derives}\npub struct {}{} {}{}", t.name, gen, b, semi).unwrap();
        }
        // Ast impl
        writeln!(o, "impl Ast for {} {{", inst).unwrap();
        writeln!(o, " fn toks(&self, ts: &mut TokenStream) {{ parsel::ToTokens::to_tokens(self, ts) }}").unwrap();
        writeln!(o, " fn show(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {{ fmt::Display::fmt(self, f) }}").unwrap();
        writeln!(o, " fn dup(&self) -> Box<dyn Ast> {{ Box::new(self.clone()) }}").unwrap();
        writeln!(o, " fn kids(&self) -> (usize, Vec<&dyn Ast>) {{ match self {{").unwrap();
        for (vi, v) in t.vs.iter().enumerate() {
            let path = if t.is_enum { format!("{}::{}", t.name, v.name) } else { t.name.clone() };
            let pat = match v.shape {
                'n' => format!("{{ {} }}", v.fields.iter().enumerate().map(|(i, f)| format!("{}: x{}", f.name, i)).collect::<Vec<_>>().join(", ")),
                't' => format!("({})", (0..v.fields.len()).map(|i| format!("x{i}")).collect::<Vec<_>>().join(", ")),
                _ => String::new(),
            };
            let get = (0..v.fields.len()).map(|i| if v.fields[i].boxed { format!("&**x{i} as &dyn Ast") } else { format!("x{i} as &dyn Ast") }).collect::<Vec<_>>().join(", ");
            writeln!(o, "  {path}{pat} => ({vi}, vec![{get}]),").unwrap();
        }
        writeln!(o, " }} }}\n fn tree(&self) -> Tree {{ let (v, k) = self.kids(); Tree::Seq(v, k.into_iter().map(|a| a.tree()).collect()) }}\n}}").unwrap();
        writeln!(disp, "  {id} => <{inst} as Parse>::parse(input).map(|x| Box::new(x) as Box<dyn Ast>),").unwrap();
        writeln!(disps, "  {id} => text.parse::<{inst}>().map(|x| Box::new(x) as Box<dyn Ast>),").unwrap();
        writeln!(meta, " ZooMeta {{ name: {:?}, is_enum: {}, nslots: {}, variants: &[", t.name, t.is_enum, nslots).unwrap();
        for v in &t.vs {
            let fs: Vec<_> = v.fields.iter().map(|f| format!("({:?}, {})", f.name, f.slot)).collect();
            writeln!(meta, "   VarMeta {{ name: {:?}, fields: &[{}] }},", v.name, fs.join(", ")).unwrap();
        }
        writeln!(meta, " ] }},").unwrap();
    }
    meta.push_str("];\n");
    disp.push_str("  _ => unreachable!() }\n}\n");
    disps.push_str("  _ => unreachable!() }\n}\n");
    languages();
    let out = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("zoo.rs");
    std::fs::write(out, format!("{o}\n{meta}\n{disp}\n{disps}")).unwrap();
}

/// languages: lists of keywords
fn languages() {
    const POOL: &[&str] = &["foo", "bar", "baz", "quux", "fo", "foo_", "fooo", "Foo", "FOO", "_foo", "a", "b", "A", "aa", "a1", "a_1", "x", "X", "__", "_1", "select", "from", "where_", "SELECT",
        "fn", "type", "r#type", "r#fn", "r#match", "r#foo", "r#x", "self", "Self", "crate", "super", "true", "false", "union", "auto", "async", "await", "dyn", "let", "mut", "static", "in", "as", "if", "else",
        "é", "日本", "straße", "ſ", "K", "k", "ı", "i", "ñandú", "Ω", "a_very_long_keyword_that_goes_on_and_on_and_is_still_one_word_0123456789", "i32", "u8", "str", "expected", "keyword", "input", "ident", "span", "string", "tokens", "Keywords", "other", "state"];
    let plain = |w: &str| std::env::var("PSIM_ZOO").is_err() || w.bytes().enumerate().all(|(i, b)| b.is_ascii_alphabetic() || i > 0 && b.is_ascii_alphanumeric()) && w != "K";
    let mut r = R(77);
    let (mut o, mut t) = (String::new(), String::from("pub static LANGS: &[Lang] = &[\n"));
    for (l, n) in [0usize, 1, 1, 2, 3, 0, 5, 8, 2, 13, 4, 30, 1, 6].iter().enumerate() {
        let mut ws: Vec<&str> = vec![];
        while ws.len() < *n { let w = POOL[r.below(POOL.len())]; if !ws.contains(&w) { ws.push(w) } }
        // 30: with the first ones of the pool, which extend each other
        if *n == 30 { ws = POOL[..20].iter().chain(&POOL[24..34]).copied().collect() }
        ws.retain(|w| plain(w));
        let under = [1, 5, 6, 9, 12].contains(&l);
        let vis = ["pub", "pub(crate)", ""][l % 3];
        writeln!(o, "parsel::define_keywords! {{ {vis} mod kl{l} {{").unwrap();
        let mut names = vec![];
        for (i, w) in ws.iter().enumerate() { writeln!(o, "    {w} => K{i};").unwrap(); names.push((format!("K{i}"), w.to_string())) }
        if under { writeln!(o, "    _ => Underscore;").unwrap(); names.push(("Underscore".into(), "_".into())) }
        writeln!(o, "}} }}").unwrap();
        for (k, _) in &names { writeln!(o, "kw!(kl{l}::{k});").unwrap() }
        let list: Vec<_> = names.iter().map(|x| format!("{:?}", x.1)).collect();
        let fns: Vec<_> = names.iter().map(|x| format!("keyword::<kl{l}::{}>", x.0)).collect();
        writeln!(t, "    Lang {{ words: &[{}], ident: identifier::<kl{l}::Keywords>, kws: &[{}] }},", list.join(", "), fns.join(", ")).unwrap();
    }
    writeln!(t, "    Lang {{ words: &[], ident: identifier::<AllowAll>, kws: &[] }},").unwrap();
    writeln!(t, "];\npub static POOL: &[&str] = &{POOL:?};").unwrap();
    let out = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("languages.rs");
    std::fs::write(out, format!("{o}\n{t}")).unwrap();
}
