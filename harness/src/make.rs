//! Values, identifiers and trees made with constructors, and how they print.
use crate::corpus;
use crate::proj::*;
use crate::rng::Rng;
use kdl::*;
use serde_json::{json, Value};

fn text(m: &str, x: &str) -> Value { json!({"m": m, "x": cps(x)}) }

pub const WORDS: [&str; 64] = ["", "a", "true", "false", "null", "inf", "-inf", "nan", "#true", "#null", "#inf", "#-inf", "#nan", "-", "+", ".", "..", "-a", "+a", ".a", "-.", "+.", "-1", "+1", "1", "0", "1a", ".5", "-.5", "+.5", ".5a", "+.a", "0x1",
    "0b", "0", "_", "_1", "\"", "\"\"", "\"\"\"", "\\", "\\n", "\\u{41}", "#", "#\"", "\"#", "r\"a\"", "/", "//", "/*", "*/", "/-", "(", "(a)", ")", "{", "}", ";", "=", "a=b", "a b", " ", "a\nb", "\n"];
pub const CHARS: [char; 64] = ['a', '1', '0', '.', '-', '+', '_', 'e', 'x', 't', 'u', 's', ' ', '\t', '\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}', '\u{a0}', '\u{1680}', '\u{2007}', '\u{202f}', '\u{3000}', '"', '\\', '/', '#', '(', ')', '{', '}', '[', ']', ';', '=', '*',
    '\0', '\u{1}', '\u{8}', '\u{e}', '\u{1b}', '\u{1f}', '\u{7f}', '\u{80}', '\u{9f}', '\u{200b}', '\u{200e}', '\u{200f}', '\u{202a}', '\u{202e}', '\u{2066}', '\u{2069}', '\u{206a}', '\u{feff}', '\u{fffe}', '\u{ffff}', '\u{e9}', '\u{1f600}', '\u{d7ff}', '\u{e000}', '\u{10ffff}'];

pub fn string(r: &mut Rng) -> String {
    if r.chance(2) {
        // a long one, plain but for one place
        let n = r.range(20, 300);
        let mut s: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        if r.chance(70) { let at = r.below(n); s.insert(at, *r.pick(&CHARS)); }
        return s;
    }
    match r.below(6) {
        0 | 1 => (*r.pick(&WORDS)).into(),
        2 => { let n = r.range(1, 5); (0..n).map(|_| *r.pick(&CHARS)).collect() }
        3 => { let n = r.range(1, 3); (0..n).map(|_| *r.pick(&WORDS)).collect() }
        4 => { let n = r.range(1, 8); (0..n).map(|_| char::from_u32(r.below(0x3100) as u32).unwrap_or('?')).collect() }
        _ => (*r.pick(&["a", "b", "name", "key", "-", "caf\u{e9}"])).into(),
    }
}
pub fn strings(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = WORDS.iter().map(|s| s.to_string()).collect();
    for a in CHARS { v.push(a.to_string()); for b in CHARS { v.push(format!("{a}{b}")); } }
    for c in 0..0x2100u32 { if let Some(c) = char::from_u32(c) { v.push(c.to_string()); v.push(format!("a{c}")); } }
    for w in corpus::words(&["-", "+", ".", "0", "1", "a", "e", "x", "_", "#", "\"", "\\"], 3) { v.push(w); }
    for _ in 0..n { v.push(string(r)); }
    v
}
pub const INTS: [i128; 24] = [0, 1, -1, 9, 10, -10, 255, i64::MAX as i128, i64::MIN as i128, i64::MAX as i128 + 1, i64::MIN as i128 - 1, u64::MAX as i128, u64::MAX as i128 + 1, i128::MAX, i128::MIN, i128::MAX - 1, i128::MIN + 1, 42, 1 << 100, -(1 << 100), 99999999999999999999, -99999999999999999999, 1000000, 16];
pub const FLOATS: [f64; 40] = [0.0, -0.0, 1.0, -1.0, 0.1, -0.1, 0.5, 1.5, 100.0, 1e10, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1e23, 1e100, 1e-5, 1e-6, 1e-7, 1e-10, 1e-100, 1e300, -1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324, -5e-324, 2.2250738585072011e-308, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 123456789.123456789, 9007199254740993.0, 0.30000000000000004, 1.7976931348623155e308];
pub fn integer(r: &mut Rng) -> i128 {
    match r.below(3) { 0 => *r.pick(&INTS), 1 => r.below(2000) as i128 - 1000, _ => { let a = ((r.next() as u128) << 64 | r.next() as u128) as i128; a >> r.below(127) } }
}
pub fn float(r: &mut Rng) -> f64 {
    match r.below(4) { 0 => *r.pick(&FLOATS), 1 => f64::from_bits(r.next()), 2 => (r.below(200000) as f64 - 100000.0) / *r.pick(&[1.0, 10.0, 8.0, 1000.0]), _ => { let x = r.below(1000) as f64; x * 10f64.powi(r.below(640) as i32 - 330) } }
}
pub fn value(r: &mut Rng) -> KdlValue {
    match r.below(8) {
        0..=2 => KdlValue::String(string(r)),
        3 => KdlValue::Integer(integer(r)),
        4 => KdlValue::Float(float(r)),
        5 => KdlValue::Bool(r.chance(50)),
        6 => KdlValue::Null,
        _ => match r.below(6) { 0 => "str".into(), 1 => string(r).into(), 2 => integer(r).into(), 3 => float(r).into(), 4 => true.into(), _ => Option::<bool>::None.into() },
    }
}
pub fn entry(r: &mut Rng) -> KdlEntry {
    let v = value(r);
    let mut e = match r.below(6) {
        0 | 1 => KdlEntry::new(v),
        2 => KdlEntry::from(v),
        3 => KdlEntry::new_prop(string(r), v),
        4 => KdlEntry::from((string(r), v)),
        _ => { let mut e = KdlEntry::new(value(r)); e.set_name(Some(string(r))); e.set_value(v); e }
    };
    if r.chance(25) { e.set_ty(string(r)); }
    if r.chance(3) { e.set_name(None::<&str>); }
    if r.chance(5) { e.keep_format(); }
    e
}
pub fn node(r: &mut Rng, depth: usize) -> KdlNode {
    let mut n = KdlNode::new(string(r));
    if r.chance(10) { n.set_name(string(r)); }
    if r.chance(25) { n.set_ty(string(r)); }
    for _ in 0..r.few(4, 40) {
        match r.below(6) {
            0..=2 => { let e = entry(r); n.push(e); }
            3 => { let k = string(r); let v = value(r); n.insert(k, v); }
            4 => { let i = n.entries().iter().filter(|e| e.name().is_none()).count(); let at = r.below(i + 1); let v = value(r); n.insert(at, v); }
            _ => { let e = entry(r); let at = r.below(n.entries().len() + 1); n.entries_mut().insert(at, e); }
        }
    }
    if depth > 0 {
        match r.below(5) {
            0 => { let d = document(r, depth - 1); n.set_children(d); }
            1 => { for _ in 0..r.below(3) { let m = node(r, depth - 1); n.ensure_children().nodes_mut().push(m); } }
            2 if r.chance(20) => { n.ensure_children(); }
            _ => {}
        }
    }
    if r.chance(10) { n.clear_format(); }
    if r.chance(5) { n.clear_format_recursive(); }
    n
}
pub fn document(r: &mut Rng, depth: usize) -> KdlDocument {
    let mut d = KdlDocument::new();
    for _ in 0..r.few(4, 30) { let n = node(r, depth); d.nodes_mut().push(n); }
    if r.chance(5) { d.clear_format_recursive(); }
    if r.chance(5) { d.autoformat(); }
    d
}

const O: Opts = Opts { spans: false };
fn done(mode: &str, r: Result<(String, Value), (String, String)>) -> Value {
    let mut v = json!({"k": "made", "t": [text("skip", "")], "ok": 2, "doc": []});
    match r {
        Ok((out, doc)) => { v["t"] = json!([text(mode, &out)]); v["ok"] = json!(1); v["doc"] = doc; }
        Err((at, m)) => { v["at"] = json!(at); v["msg"] = json!(m); }
    }
    v
}
fn arg(v: &KdlValue) -> Value { json!({"k": [], "y": [], "v": val(v)}) }
/// what = strings | values | entries | trees
pub fn records(what: &str, seed: u64, n: usize) -> Vec<Value> {
    let mut r = Rng::new(seed, what);
    let mut out = vec![];
    match what {
        "strings" => for s in strings(&mut r, n) {
            out.push(done("entry", catch(|| { let v = KdlValue::String(s.clone()); (v.to_string(), arg(&v)) })));
            out.push(done("ident", catch(|| { let v = KdlIdentifier::from(s.clone()); (v.to_string(), cps(v.value())) })));
        },
        "values" => {
            let mut vs: Vec<KdlValue> = INTS.iter().map(|i| KdlValue::Integer(*i)).collect();
            vs.extend(FLOATS.iter().map(|f| KdlValue::Float(*f)));
            for e in -330..310 { for m in [1.0, 9.0, 1.5, 1.2345678901234567] { vs.push(KdlValue::Float(m * 10f64.powi(e))); } }
            for e in 0..127 { for d in [-1, 0, 1] { vs.push(KdlValue::Integer((1i128 << e) + d)); vs.push(KdlValue::Integer(-(1i128 << e) + d)); } }
            for _ in 0..n { vs.push(value(&mut r)); }
            for v in &vs { out.push(json!({"k": "access", "t": [text("skip", "")], "ok": 1, "doc": arg(v), "kinds": [v.is_string() as u8, v.is_integer() as u8, v.is_float() as u8, v.is_bool() as u8, v.is_null() as u8],
                "as": [v.as_string().map(|x| vec![val(&KdlValue::from(x))]).unwrap_or_default(), v.as_integer().map(|x| vec![crate::proj::int(x)]).unwrap_or_default(),
                    v.as_float().map(|x| vec![crate::proj::float(x)]).unwrap_or_default(), v.as_bool().map(|x| vec![val(&KdlValue::from(x))]).unwrap_or_default(), Vec::<Value>::new()]})); }
            for v in vs { out.push(done("entry", catch(|| (v.to_string(), arg(&v))))); }
        }
        "entries" => for _ in 0..n { out.push(done("entry", catch(|| { let e = entry(&mut r); (e.to_string(), crate::proj::entry(&e, O)) }))); },
        "nodes" => for _ in 0..n { out.push(done("node", catch(|| { let e = node(&mut r, 2); (e.to_string(), json!([crate::proj::node(&e, O)])) }))); },
        "trees" => for _ in 0..n { out.push(done("doc", catch(|| { let depth = if r.chance(2) { 12 } else { 2 }; let e = document(&mut r, depth); (e.to_string(), nodes(&e, O)) }))); },
        // parsed text with new elements put into it
        "mixed" => {
            let ts = corpus::build(&format!("cases,gen:{n}"), seed);
            for t in ts {
                let Ok(mut d) = KdlDocument::parse_v2(&t) else { continue };
                out.push(done("doc", catch(|| { mix(&mut d, &mut r, true); (d.to_string(), nodes(&d, O)) })));
            }
        }
        _ => panic!("what"),
    }
    out
}
pub fn mix(d: &mut KdlDocument, r: &mut Rng, top: bool) {
    for n in d.nodes_mut() {
        if r.chance(20) { let e = entry(r); n.push(e); }
        if r.chance(20) { let e = entry(r); let at = r.below(n.entries().len() + 1); n.entries_mut().insert(at, e); }
        if r.chance(10) { let s = string(r); n.set_name(s); }
        if r.chance(10) { let s = string(r); n.set_ty(s); }
        if let Some(c) = n.children_mut() { mix(c, r, false); }
    }
    if r.chance(if top { 60 } else { 20 }) { let n = node(r, 1); let at = r.below(d.nodes().len() + 1); d.nodes_mut().insert(at, n); }
}
