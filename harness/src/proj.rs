//! Projection of the library's objects onto the abstract state of the specifications.
use kdl::*;
use serde_json::{json, Value};

pub fn cps(s: &str) -> Value { Value::Array(s.chars().map(|c| json!(c as u32)).collect()) }
pub fn opt_id(i: Option<&KdlIdentifier>) -> Value { match i { None => json!([]), Some(i) => json!([cps(i.value())]) } }

/// Exact decimal digits of (a + b) / 2 as 0.d1d2d3... * 10^e, cut after 120 digits
/// (a final 1 stands for whatever was cut).
fn midpoint(a: f64, b: f64) -> Value {
    let one = |x: f64| -> Vec<u32> {
        // 2^1024 stands for infinity
        let (x, k) = if x.is_infinite() { (2f64.powi(1023), 2) } else { (x, 1) };
        let s = format!("{:0>1400.1080}", x);
        let mut d: Vec<u32> = s.chars().filter(|c| *c != '.').map(|c| c as u32 - 48).collect();
        if k == 2 { let mut c = 0; for i in (0..d.len()).rev() { let v = d[i] * 2 + c; d[i] = v % 10; c = v / 10; } }
        d
    };
    let (x, y) = (one(a), one(b));
    let n = x.len();
    let mut d = vec![0; n];
    let mut c = 0;
    for i in (0..n).rev() { let v = x[i] + y[i] + c; d[i] = v % 10; c = v / 10; }
    let mut r = 0;
    for i in 0..n { let v = r * 10 + d[i]; d[i] = v / 2; r = v % 2; }
    if r == 1 { d.push(5); }
    let Some(first) = d.iter().position(|v| *v != 0) else { return json!({"d": [], "e": 0}) };
    let e = (n as i64 - 1080) - first as i64;
    let mut d: Vec<u32> = d[first..].to_vec();
    if d.len() > 120 && d[120..].iter().any(|v| *v != 0) { d.truncate(120); d.push(1); } else { d.truncate(120); }
    while d.last() == Some(&0) { d.pop(); }
    json!({"d": d, "e": e})
}
/// A float: its shortest digits 0.d1d2d3... * 10^e, and the decimals half way to its neighbours.
pub fn float(f: f64) -> Value {
    let z = json!({"d": [], "e": 0});
    if f.is_nan() { return json!({"t":"f","c":"nan","n":0,"d":[],"e":0,"lo":z,"hi":z,"ev":0}); }
    let n = if f.is_sign_negative() { 1 } else { 0 };
    let a = f.abs();
    let even = 1 - (a.to_bits() & 1);
    let lo = if a == 0.0 { z.clone() } else { midpoint(f64::from_bits(a.to_bits() - 1), a) };
    if f.is_infinite() { return json!({"t":"f","c":"inf","n":n,"d":[],"e":0,"lo":lo,"hi":z,"ev":even}); }
    let hi = midpoint(a, f64::from_bits(a.to_bits() + 1));
    let s = format!("{:e}", a);
    let (m, e) = s.split_once('e').unwrap();
    let mut d: Vec<u32> = m.chars().filter(|c| *c != '.').map(|c| c as u32 - 48).collect();
    while d.last() == Some(&0) { d.pop(); }
    let e: i32 = if d.is_empty() { 0 } else { e.parse::<i32>().unwrap() + 1 };
    json!({"t":"f","c":"fin","n":n,"d":d,"e":e,"lo":lo,"hi":hi,"ev":even})
}
pub fn int(i: i128) -> Value {
    let d: Vec<u32> = i.unsigned_abs().to_string().chars().map(|c| c as u32 - 48).collect();
    json!({"t":"i","n": if i < 0 {1} else {0},"d":d})
}
pub fn val(v: &KdlValue) -> Value {
    match v {
        KdlValue::String(s) => json!({"t":"s","s":cps(s)}),
        KdlValue::Integer(i) => int(*i),
        KdlValue::Float(f) => float(*f),
        KdlValue::Bool(b) => json!({"t":"b","b": if *b {1} else {0}}),
        KdlValue::Null => json!({"t":"z"}),
    }
}
fn sp(s: miette::SourceSpan) -> Value { json!([s.offset(), s.len()]) }

#[derive(Clone, Copy)]
pub struct Opts { pub spans: bool }

pub fn entry(e: &KdlEntry, o: Opts) -> Value {
    let mut r = json!({"k": opt_id(e.name()), "y": opt_id(e.ty()), "v": val(e.value())});
    if o.spans {
        r["es"] = sp(e.span());
        r["ks"] = match e.name() { Some(i) => json!([sp(i.span())]), None => json!([]) };
        r["ys"] = match e.ty() { Some(i) => json!([sp(i.span())]), None => json!([]) };
    }
    r
}
pub fn node(n: &KdlNode, o: Opts) -> Value {
    let mut r = json!({
        "y": opt_id(n.ty()), "m": cps(n.name().value()),
        "e": n.entries().iter().map(|e| entry(e, o)).collect::<Vec<_>>(),
        "c": match n.children() { None => json!([]), Some(d) => json!([nodes(d, o)]) },
    });
    if o.spans {
        r["ns"] = sp(n.span());
        r["ms"] = sp(n.name().span());
        r["ys"] = match n.ty() { Some(i) => json!([sp(i.span())]), None => json!([]) };
        r["cs"] = match n.children() { Some(i) => json!([sp(i.span())]), None => json!([]) };
    }
    r
}
pub fn nodes(d: &KdlDocument, o: Opts) -> Value { Value::Array(d.nodes().iter().map(|n| node(n, o)).collect()) }

thread_local! { static INSIDE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
thread_local! { static AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
/// Remembers where a panic of the library came from, and prints only the harness's own.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| {
            let f: Vec<&str> = l.file().rsplit('/').take(3).collect();
            format!("{}:{}", f.into_iter().rev().collect::<Vec<_>>().join("/"), l.line())
        });
        if INSIDE.get() == 0 { eprintln!("{i}"); }
        AT.with(|a| *a.borrow_mut() = l.unwrap_or_default());
    }));
}
/// Runs f; Err holds the place and message of a panic.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    INSIDE.set(INSIDE.get() + 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    INSIDE.set(INSIDE.get() - 1);
    r.map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "panic".into() };
        (AT.with(|a| a.borrow().clone()), m)
    })
}
