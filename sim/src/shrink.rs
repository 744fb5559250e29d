//! Generic minimiser over the JSON form of plans: a smaller plan is kept if it still shows the same kind of violation.
use std::time::{Duration, Instant};
use serde_json::Value;

type Same<'a> = &'a dyn Fn(&Option<(String, String)>) -> bool;

pub fn minimise(prop: &str, mut plans: Vec<Value>, same: Same, cap: Duration) -> Vec<Value> {
    let end = Instant::now() + cap;
    let holds = |p: &[Value]| Instant::now() < end && same(&crate::driver::run_seq(prop, p, 10));
    // whole plans first
    let mut chunk = plans.len() / 2;
    while chunk >= 1 && plans.len() > 1 {
        let mut i = 0;
        while i + 1 < plans.len() {
            let mut c = plans.clone();
            let hi = (i + chunk).min(plans.len() - 1);
            c.drain(i..hi);
            if holds(&c) { plans = c } else { i += chunk }
        }
        if chunk == 1 { break }
        chunk /= 2;
    }
    for k in 0..plans.len() {
        loop {
            let mut progress = false;
            let mut n = 0;
            // one pass over all candidate edits of plan k; after a success continue at the same candidate number
            while Instant::now() < end {
                let Some(c) = nth_edit(&plans[k], n) else { break };
                if c == plans[k] { n += 1; continue }
                let mut ps = plans.clone();
                ps[k] = c;
                if holds(&ps) { plans = ps; progress = true } else { n += 1 }
            }
            if !progress || Instant::now() >= end { break }
        }
    }
    plans
}

/// paths to every value in the plan, outermost first
fn paths(v: &Value, cur: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(cur.clone());
    match v {
        Value::Array(a) => for (i, x) in a.iter().enumerate() { cur.push(Step::I(i)); paths(x, cur, out); cur.pop(); },
        Value::Object(o) => for (k, x) in o { cur.push(Step::K(k.clone())); paths(x, cur, out); cur.pop(); },
        _ => {}
    }
}
#[derive(Clone)]
enum Step { I(usize), K(String) }
fn at<'a>(v: &'a Value, p: &[Step]) -> &'a Value { p.iter().fold(v, |v, s| match s { Step::I(i) => &v[*i], Step::K(k) => &v[k] }) }
fn set(v: &Value, p: &[Step], x: Value) -> Value {
    let mut r = v.clone();
    let mut m = &mut r;
    for s in p { m = match s { Step::I(i) => &mut m[*i], Step::K(k) => &mut m[k.as_str()] } }
    *m = x;
    r
}
/// The `k`th simpler form of `v`, or how many of them there are. (An array of thousands of elements has thousands of
/// simpler forms of the same length: they are never all in memory.)
fn edits(v: &Value, k: usize) -> Result<Value, usize> {
    let mut out = vec![];
    match v {
        Value::Array(a) => {
            let n = a.len();
            if n == 0 { return Err(0) }
            if k == 0 { return Ok(Value::Array(vec![])) }
            let (mut at, mut c) = (1, n / 2);
            while c >= 1 {
                let m = n.div_ceil(c);
                if k < at + m {
                    let i = (k - at) * c;
                    let mut b = a.clone();
                    b.drain(i..(i + c).min(n));
                    return Ok(Value::Array(b));
                }
                at += m;
                c /= 2;
            }
            return Err(at);
        }
        Value::Object(o) => {
            // hoist a child of a grammar node / an input group
            if let Some(Value::Array(k)) = o.get("kids") { out.extend(k.iter().cloned()) }
            if o.contains_key("g") && o.contains_key("t") {
                let mut b = o.clone();
                b.remove("g");
                b.insert("t".into(), "a".into());
                out.push(Value::Object(b));
            }
        }
        Value::String(s) => {
            let n = s.chars().count();
            if n > 1 && n < 4000 {
                let cs: Vec<char> = s.chars().collect();
                let mut c = n / 2;
                while c >= 1 {
                    let mut i = 0;
                    while i < n && out.len() < 60 { out.push(Value::String(cs[..i].iter().chain(cs[(i + c).min(n)..].iter()).collect())); i += c }
                    c /= 2;
                }
            }
        }
        Value::Number(x) => if let Some(u) = x.as_u64() {
            if u > 0 { out.push(0.into()); out.push((u / 2).into()); out.push((u - 1).into()) }
        },
        Value::Bool(true) => out.push(false.into()),
        _ => {}
    }
    let n = out.len();
    out.into_iter().nth(k).ok_or(n)
}
fn nth_edit(v: &Value, n: usize) -> Option<Value> {
    let mut ps = vec![];
    paths(v, &mut vec![], &mut ps);
    let mut k = n;
    for p in ps {
        match edits(at(v, &p), k) {
            Ok(e) => return Some(set(v, &p, e)),
            Err(n) => k -= n,
        }
    }
    None
}
