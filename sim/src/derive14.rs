//! C14: the real derives expanded by real compiler processes whose entropy, clock, process id, address layout,
//! environment, working directory and expansion history the simulator decides; the expansions of one item compared.
use std::collections::BTreeMap;
use std::fmt::Write;
use std::io::Read;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use crate::{out::Out, rng::Rng};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fld { name: String, ty: String, #[serde(default)] attrs: Vec<String> }
/// shape: 0 unit, 1 tuple, 2 named
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Var { name: String, shape: usize, fields: Vec<Fld> }
/// kind: 0 struct (first variant's fields), 1 enum, 2 union
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Item { kind: usize, name: String, derives: Vec<String>, #[serde(default)] attrs: Vec<String>, #[serde(default)] generics: Vec<String>, #[serde(default)] wher: Vec<String>, vars: Vec<Var> }
/// one compiler process: the items it expands, in order (several times the same is fine), and its environment
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Comp { order: Vec<usize>, entropy: u64, #[serde(default)] threads: bool, #[serde(default)] env: Vec<(String, String)>, #[serde(default)] pad: usize,
    /// further arguments; names of files that lie around; columns the items are moved right
    #[serde(default)] args: Vec<String>, #[serde(default)] files: Vec<String>, #[serde(default)] shift: usize }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct P { items: Vec<Item>, comps: Vec<Comp> }

fn fields(f: &[Fld], shape: usize, vis: &str) -> String {
    let mut s = String::new();
    for x in f {
        for a in &x.attrs { let _ = write!(s, "{a}\n"); }
        if shape == 1 { let _ = write!(s, "{vis}{}, ", x.ty); } else { let _ = write!(s, "{vis}{}: {}, ", x.name, x.ty); }
    }
    match shape { 0 => String::new(), 1 => format!("({s})"), _ => format!("{{ {s} }}") }
}
fn render(i: &Item) -> String {
    let mut s = String::new();
    for a in &i.attrs { let _ = writeln!(s, "{a}"); }
    let _ = writeln!(s, "#[derive({})]", i.derives.join(", "));
    let g = if i.generics.is_empty() { String::new() } else { format!("<{}>", i.generics.join(", ")) };
    let w = if i.wher.is_empty() { String::new() } else { format!(" where {}", i.wher.join(", ")) };
    match i.kind {
        0 => {
            let Some(v) = i.vars.first() else { return format!("{s}pub struct {}{g}{w};\n", i.name) };
            match v.shape {
                2 => { let _ = writeln!(s, "pub struct {}{g}{w} {}", i.name, fields(&v.fields, 2, "pub ")); }
                n => { let _ = writeln!(s, "pub struct {}{g}{}{w};", i.name, fields(&v.fields, n, "")); }
            }
        }
        1 => {
            let _ = writeln!(s, "pub enum {}{g}{w} {{", i.name);
            for v in &i.vars { let _ = writeln!(s, "{}{},", v.name, fields(&v.fields, v.shape, "")); }
            s.push_str("}\n");
        }
        _ => { let _ = writeln!(s, "pub union {}{g}{w} {}", i.name, fields(i.vars.first().map_or(&[][..], |v| &v.fields), 2, "")); }
    }
    s
}

const NAMES: &[&str] = &["A", "B", "Expr", "Node", "Item", "r#Type", "List"];
const VNAMES: &[&str] = &["One", "Two", "Leaf", "Branch", "Nil", "Cons", "Other", "r#Fn", "Lit", "X9", "Y9", "Z9"];
const FNAMES: &[&str] = &["lhs", "rhs", "op", "r#type", "body", "name", "sep", "init", "x", "y", "_z", "value", "other", "cond", "then"];
fn ty(rng: &mut Rng, g: &[&str], d: usize) -> String {
    let leaf = |rng: &mut Rng| -> String {
        if !g.is_empty() && rng.chance(45) { rng.pick(g).to_string() }
        else { rng.pick(&["Ident", "LitInt", "LitStr", "u8", "K0", "K1", "K2", "::std::string::String", "crate::pre::K3", "Token!(;)", "kw::If", "char", "()"]).to_string() }
    };
    if d == 0 { return leaf(rng) }
    match rng.below(14) {
        0 => format!("Vec<{}>", ty(rng, g, d - 1)),
        1 => format!("Option<{}>", ty(rng, g, d - 1)),
        2 => format!("Separated<{}, {}>", ty(rng, g, d - 1), ty(rng, g, 0)),
        3 => format!("({}, {})", ty(rng, g, d - 1), ty(rng, g, d - 1)),
        4 => format!("[{}; {}]", ty(rng, g, d - 1), rng.pick(&["K9", "3", "{ 1 + 1 }"])),
        5 => format!("Paren<{}>", ty(rng, g, d - 1)),
        6 => format!("Either<{}, {}>", ty(rng, g, d - 1), ty(rng, g, d - 1)),
        7 => format!("<{} as Tr>::Out", ty(rng, g, 0)),
        8 => format!("fn({}) -> {}", ty(rng, g, d - 1), ty(rng, g, 0)),
        9 => format!("Maybe<{}, {}>", ty(rng, g, d - 1), ty(rng, g, d - 1)),
        10 => format!("Box<dyn Tr<{}> + Send>", ty(rng, g, 0)),
        _ => leaf(rng),
    }
}
fn flds(rng: &mut Rng, g: &[&str], n: usize, d: usize) -> Vec<Fld> {
    (0..n).map(|i| {
        let mut attrs = vec![];
        if rng.chance(18) { attrs.push("#[parsel(recursive)]".into()) }
        else if rng.chance(3) { attrs.push(rng.pick(&["#[parsel(recursive = true)]", "#[parsel(recursive = false)]", "#[parsel()]"]).to_string()) }
        else if rng.chance(2) { attrs.push(rng.pick(&["#[parsel(bogus)]", "#[parsel(recursive = 3)]", "#[parsel(recursive, recursive)]", "#[parsel]"]).to_string()) }
        if rng.chance(6) { attrs.push(rng.pick(&["/// documented", "#[allow(dead_code)]", "#[doc = \"d\"]"]).to_string()) }
        let name = if i < FNAMES.len() { FNAMES[(i * 7 + n) % FNAMES.len()].to_string() } else { format!("f{i}") };
        Fld { name, ty: ty(rng, g, d), attrs }
    }).collect()
}
fn item(rng: &mut Rng) -> Item {
    let mut g: Vec<&str> = vec![];
    let mut generics: Vec<String> = vec![];
    let mut cn = false;
    if rng.chance(25) { generics.push("'a".into()); }
    for t in ["T", "U", "V"].iter().take(rng.weighted(&[35, 30, 20, 15])) {
        g.push(t);
        generics.push(match rng.below(5) { 0 => format!("{t}: Clone"), 1 => format!("{t}: Tr<{}> + Copy", g[0]), 2 if false => format!("{t} = u8"), _ => t.to_string() });
    }
    if rng.chance(30) { { generics.push("const N: usize".into()); cn = true } }
    let mut wher = vec![];
    for _ in 0..rng.weighted(&[60, 25, 15]) { wher.push(format!("{}: {}", ty(rng, &g, 1), rng.pick(&["Clone", "::parsel::Parse", "Tr<u8>", "for<'b> Tr<&'b str>"]))) }
    let big = rng.chance(12);
    let d = rng.below(3);
    let kind = if rng.chance(3) { 2 } else { rng.weighted(&[50, 50]) };
    let var = |rng: &mut Rng, name: String, n: usize| { let shape = rng.weighted(&[12, 44, 44]); let n = if shape == 0 { 0 } else { n }; Var { name, shape, fields: flds(rng, &g, n, d) } };
    let vars = if kind == 1 {
        let n = if big { rng.range(8, 20) } else { rng.range(0, 6) };
        (0..n).map(|i| { let f = rng.range(0, 4); let nm = if i < VNAMES.len() { VNAMES[i].to_string() } else { format!("V{i}") }; var(rng, nm, f) }).collect()
    } else { let n = if big { rng.range(12, 40) } else { rng.range(0, 8) }; vec![var(rng, "S".into(), n)] };
    let all = ["Parse", "ToTokens", "FromStr", "Display"];
    let mut derives: Vec<String> = match rng.below(5) { 0 => vec!["Parse".into()], 1 => vec!["ToTokens".into()], _ => all.iter().take(rng.range(2, 4)).map(|s| s.to_string()).collect() };
    if rng.chance(30) { derives.reverse() }
    let mut attrs = vec![];
    if rng.chance(10) { attrs.push("/// an item".to_string()) }
    if rng.chance(5) { attrs.push("#[repr(C)]".to_string()) }
    let mut vars = vars;
    if cn { for f in vars.iter_mut().flat_map(|v: &mut Var| &mut v.fields) { f.ty = f.ty.replace("K9", "N") } }
    Item { kind, name: rng.pick(NAMES).to_string(), derives, attrs, generics, wher, vars }
}
fn shuffle<T>(rng: &mut Rng, v: &mut [T]) { for i in (1..v.len()).rev() { let j = rng.below(i + 1); v.swap(i, j) } }

pub fn generate(rng: &mut Rng, _tier: &str) -> P {
    let n = match rng.below(10) { 0 => rng.range(30, 90), 1..=3 => rng.range(1, 4), _ => rng.range(5, 14) };
    let mut items: Vec<Item> = (0..n).map(|_| item(rng)).collect();
    // near twins: same name and shape, another detail
    for i in 1..items.len() {
        if rng.chance(25) {
            let mut t = items[rng.below(i)].clone();
            match rng.below(4) {
                0 => { t.generics.clear() }
                1 => { for v in &mut t.vars { for f in &mut v.fields { f.attrs.clear() } } }
                2 => { if let Some(v) = t.vars.last_mut() { if let Some(f) = v.fields.last_mut() { f.ty = "Twin".into() } } }
                _ => { for v in &mut t.vars { v.fields.reverse() } }
            }
            items[i] = t;
        }
    }
    let id: Vec<usize> = (0..n).collect();
    let mut comps = vec![];
    let m = rng.range(3, 5);
    for k in 0..m {
        let mut order = id.clone();
        match if k == 0 { 0 } else { rng.below(6) } {
            0 => {}
            1 => order.reverse(),
            2 | 3 => shuffle(rng, &mut order),
            4 => { shuffle(rng, &mut order); order.truncate(rng.range(1, n)) }
            _ => { let mut more = id.clone(); shuffle(rng, &mut more); more.extend(order); order = more }
        }
        let mut env = vec![];
        for key in ["CARGO_PKG_NAME", "CARGO_MANIFEST_DIR", "CARGO_CRATE_NAME", "PROFILE", "RUST_BACKTRACE", "USER", "HOSTNAME", "LANG", "DEBUG", "CI", "TZ"] {
            if rng.chance(30) { env.push((key.to_string(), rng.pick(&["1", "0", "release", "debug", "other-name", "full"]).to_string())) }
        }
        let mut args: Vec<String> = vec![];
        for a in ["-Copt-level=0", "-Copt-level=3", "-Cdebuginfo=2", "--test", "--cfg=feature=\"full\"", "--cfg=docsrs", "-Cmetadata=4f1a", "-Cextra-filename=-4f1a", "-Cpanic=abort", "-Coverflow-checks=on", "-Cdebug-assertions=on",
            "--remap-path-prefix=/tmp=/x", "-Ctarget-cpu=native", "-Ccodegen-units=1", "--verbose", "-Zthreads=4", "-Cincremental=inc", "--color=never", "--diagnostic-width=200", "-Clto=off", "--cfg=test_cfg"] {
            if rng.chance(12) { args.push(a.to_string()) }
        }
        if rng.chance(40) { args.push(format!("--crate-name={}", rng.pick(&["parsel", "parsel_derive", "my_crate", "build_script_build", "x"]))) }
        args.push(format!("--crate-type={}", rng.pick(&["lib", "lib", "rlib", "dylib", "staticlib", "cdylib"])));
        let files = ["Cargo.toml", "Cargo.lock", ".git", "build.rs", "parsel.toml", "rustfmt.toml", ".env", "target", "src"].iter().filter(|_| rng.chance(20)).map(|s| s.to_string()).collect();
        let shift = if rng.chance(50) { 0 } else { rng.below(200) };
        comps.push(Comp { args, files, shift, order, entropy: rng.next() >> 16, threads: rng.chance(25), env, pad: rng.below(4096) });
    }
    P { items, comps }
}

/// the text as a plain list of tokens
fn norm(s: &str) -> String { s.parse::<proc_macro2::TokenStream>().map_or_else(|_| s.split_whitespace().collect::<Vec<_>>().join(" "), |t| t.to_string()) }
use parsel::proc_macro2;

/// expansion (or messages) of the k-th module of one compiler process
fn compile(p: &P, c: &Comp, scratch: &PathBuf, num: usize) -> Result<Vec<String>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let rel = exe.parent().unwrap().to_path_buf();
    let deps = rel.join("deps");
    let rustc = std::fs::read_to_string(rel.join("rustc.path")).map_err(|e| format!("rustc.path: {e}"))?;
    let rlib = std::fs::read_dir(&deps).map_err(|e| e.to_string())?.flatten().filter(|e| { let n = e.file_name(); let n = n.to_string_lossy(); n.starts_with("libparsel-") && n.ends_with(".rlib") })
        .max_by_key(|e| e.metadata().and_then(|m| m.modified()).ok()).ok_or("no libparsel rlib")?.path();
    let dir = scratch.join(format!("d{num}{}", "x".repeat(c.pad % 7)));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let file = format!("lib{}.rs", c.pad % 11);
    let mut src = "\n".repeat(c.pad % 13);
    src.push_str("pub mod pre { pub use parsel::ast::*; pub use parsel::{Parse, ToTokens, FromStr, Display}; pub struct K0; pub struct K1; pub struct K2; pub struct K3; pub struct Twin; pub const K9: usize = 9; pub trait Tr<X = u8> { type Out; } pub mod kw { pub struct If; } }\n");
    let mut starts = vec![];
    for (k, i) in c.order.iter().enumerate() {
        let Some(it) = p.items.get(*i) else { continue };
        starts.push(src.matches('\n').count() + 1);
        let _ = write!(src, "mod m{k} {{\nuse crate::pre::*;\n{}{}}}\n", " ".repeat(c.shift), render(it));
    }
    for f in &c.files { let _ = std::fs::write(dir.join(f), "[package]\nname = \"parsel\"\n"); }
    std::fs::write(dir.join(&file), &src).map_err(|e| e.to_string())?;
    let mut cmd = Command::new(rustc.trim());
    cmd.current_dir(&dir).env_clear().env("PATH", "/usr/bin:/bin").env("RUSTC_BOOTSTRAP", "1").env("SIM_ENTROPY", c.entropy.to_string())
        .env("LD_PRELOAD", rel.join("simshim.so")).env("SIM_PAD", "p".repeat(c.pad));
    for (k, v) in &c.env { cmd.env(k, v); }
    cmd.args(["--edition", "2021", "-Zunpretty=expanded", "--error-format=json", "--cap-lints=allow"]);
    if !c.args.iter().any(|a| a.starts_with("--crate-type")) { cmd.arg("--crate-type=lib"); }
    cmd.args(&c.args);
    if c.threads { cmd.arg("-Zproc-macro-execution-strategy=cross-thread"); }
    cmd.arg("-L").arg(format!("dependency={}", deps.display())).arg("--extern").arg(format!("parsel={}", rlib.display())).arg(&file);
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe { cmd.pre_exec(|| { libc::personality(0x0040000); Ok(()) }); }
    let mut ch = cmd.spawn().map_err(|e| format!("rustc: {e}"))?;
    let mut er = ch.stderr.take().unwrap();
    let h = std::thread::spawn(move || { let mut s = String::new(); let _ = er.read_to_string(&mut s); s });
    let mut out = String::new();
    let _ = ch.stdout.take().unwrap().read_to_string(&mut out);
    let err = h.join().unwrap_or_default();
    let st = ch.wait().map_err(|e| e.to_string())?;
    let mut res: Vec<String> = starts.iter().map(|_| String::new()).collect();
    let mut got = vec![false; res.len()];
    let mut cur: Option<usize> = None;
    for l in out.lines() {
        if let Some(k) = l.strip_prefix("mod m").and_then(|r| r.strip_suffix(" {")).and_then(|k| k.parse::<usize>().ok()) { if k < res.len() { cur = Some(k); got[k] = true } continue }
        if l == "}" { cur = None; continue }
        if let Some(k) = cur { res[k].push_str(l); res[k].push('\n') }
    }
    if got.iter().any(|g| !g) { return Err(format!("compiler gave no expansion (status {st}): {}", err.chars().take(2000).collect::<String>())) }
    for r in &mut res { *r = norm(r) }
    // what the derives themselves reported (messages of the compiler proper have a code)
    for l in err.lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        if v["level"] != "error" || !v["code"].is_null() { continue }
        if v["message"].as_str().unwrap_or("").starts_with("cannot find") { return Err("the items are not well-formed".into()) }
        let Some(line) = v["spans"][0]["line_start"].as_u64() else { continue };
        if let Some(k) = starts.iter().rposition(|s| *s <= line as usize) {
            let _ = write!(res[k], "\nerror at line {}: {}", line as usize - starts[k], v["message"].as_str().unwrap_or(""));
        }
    }
    Ok(res)
}

pub fn exec(p: &P) -> Out {
    let mut o = Out::default();
    let base = std::env::temp_dir().join(format!("psim-{}", std::process::id()));
    let mut first: BTreeMap<usize, (usize, String)> = BTreeMap::new();
    let mut compared = 0u64;
    for (n, c) in p.comps.iter().enumerate() {
        let exps = match compile(p, c, &base, n) {
            Ok(x) => x,
            Err(e) => { let _ = std::fs::remove_dir_all(&base); let mut o = Out::skip(); o.log(&e); eprintln!("{e}"); o.probe("compiler_unusable", 1); return o }
        };
        o.steps += exps.len() as u64;
        o.fire("entropy_changed", (n > 0) as u64);
        o.fire("history_changed", (n > 0 && c.order != p.comps[0].order) as u64);
        o.fire("fresh_thread_per_expansion", c.threads as u64);
        o.fire("environment_changed", c.env.len() as u64);
        o.fire("compiler_arguments_changed", c.args.len() as u64);
        o.fire("files_lying_around", c.files.len() as u64);
        for (i, e) in c.order.iter().filter(|i| **i < p.items.len()).zip(exps) {
            o.log(&e);
            if e.contains("error at line") { o.probe("expansions_refused", 1) }
            match first.get(i) {
                None => { first.insert(*i, (n, e)); }
                Some((m, f)) => {
                    compared += 1;
                    if *f != e {
                        let at = f.chars().zip(e.chars()).take_while(|(a, b)| a == b).count();
                        let cut = |s: &str| s.chars().skip(at.saturating_sub(60)).take(160).collect::<String>();
                        o.bad("expansion differs", format!("item {i} `{}` expands differently in compiler process {m} and {n}: ...{}... / ...{}...", render(&p.items[*i]).replace('\n', " "), cut(f), cut(&e)));
                    }
                }
            }
        }
    }
    if std::env::var_os("PSIM_KEEP").is_none() { let _ = std::fs::remove_dir_all(&base); }
    o.probe("expansions_compared", compared);
    o.nontrivial = compared >= 2;
    o
}
