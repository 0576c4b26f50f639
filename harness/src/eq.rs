//! Equality and hashing.
use crate::corpus;
use crate::gen::*;
use crate::make;
use crate::proj::cps;
use crate::rng::Rng;
use kdl::*;
use serde_json::{json, Value};
use std::hash::{Hash, Hasher};

fn text(m: &str, x: &str) -> Value { json!({"m": m, "x": cps(x)}) }
fn h<T: Hash>(x: &T) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut s); s.finish() }

// ---- everything == may look at ----
fn float(f: f64) -> Value {
    let n = f.is_sign_negative() as u8;
    if f.is_nan() { return json!({"t":"f","c":"nan","n":n,"d":[],"e":0}); }
    if f.is_infinite() { return json!({"t":"f","c":"inf","n":n,"d":[],"e":0}); }
    let s = format!("{:e}", f.abs());
    let (m, e) = s.split_once('e').unwrap();
    let mut d: Vec<u32> = m.chars().filter(|c| *c != '.').map(|c| c as u32 - 48).collect();
    while d.last() == Some(&0) { d.pop(); }
    let e: i32 = if d.is_empty() { 0 } else { e.parse::<i32>().unwrap() + 1 };
    json!({"t":"f","c":"fin","n":n,"d":d,"e":e})
}
fn val(v: &KdlValue) -> Value { match v { KdlValue::Float(f) => float(*f), v => crate::proj::val(v) } }
fn id(i: &KdlIdentifier) -> Value { json!({"v": cps(i.value()), "r": i.repr().map(|r| vec![cps(r)]).unwrap_or_default()}) }
fn oid(i: Option<&KdlIdentifier>) -> Value { json!(i.map(|i| vec![id(i)]).unwrap_or_default()) }
fn entry(e: &KdlEntry) -> Value {
    json!({"k": oid(e.name()), "y": oid(e.ty()), "v": val(e.value()), "f": e.format().map(|f| vec![json!([cps(&f.value_repr), cps(&f.leading), cps(&f.trailing), cps(&f.after_ty), cps(&f.before_ty_name), cps(&f.after_ty_name), cps(&f.after_key), cps(&f.after_eq), [f.autoformat_keep as u8]])]).unwrap_or_default()})
}
fn node(n: &KdlNode) -> Value {
    json!({"m": id(n.name()), "y": oid(n.ty()), "e": n.entries().iter().map(entry).collect::<Vec<_>>(), "c": n.children().map(|d| vec![doc(d)]).unwrap_or_default(),
        "f": n.format().map(|f| vec![json!([cps(&f.leading), cps(&f.before_ty_name), cps(&f.after_ty_name), cps(&f.after_ty), cps(&f.before_children), cps(&f.before_terminator), cps(&f.terminator), cps(&f.trailing)])]).unwrap_or_default()})
}
fn doc(d: &KdlDocument) -> Value {
    json!({"ns": d.nodes().iter().map(node).collect::<Vec<_>>(), "f": d.format().map(|f| vec![json!([cps(&f.leading), cps(&f.trailing)])]).unwrap_or_default()})
}

fn pair<T: PartialEq + Hash + Clone>(k: &str, a: &T, b: &T, proj: impl Fn(&T) -> Value) -> Value {
    let (ca, cb) = (a.clone(), b.clone());
    #[allow(clippy::eq_op)]
    let selfs = [*a == *a, *b == *b, *a == ca, ca == *a, *b == cb, h(a) == h(&ca), h(b) == h(&cb)];
    json!({"k": k, "t": [text("skip", "")], "ok": 1, "a": proj(a), "b": proj(b), "eq": [(a == b) as u8, (b == a) as u8, !(a != b) as u8], "h": (h(a) == h(b)) as u8, "self": selfs.iter().map(|x| *x as u8).collect::<Vec<_>>(), "d": ""})
}

/// a pair of values, with their order: -1, 0, 1, or 2 for none
fn ordered(a: &KdlValue, b: &KdlValue) -> Value {
    let c = |x: &KdlValue, y: &KdlValue| x.partial_cmp(y).map(|o| o as i8).unwrap_or(2);
    let mut p = pair("pair", a, b, val);
    p["ord"] = json!([c(a, b), c(b, a)]);
    p["ops"] = json!([(a < b) as u8, (a <= b) as u8, (a > b) as u8, (a >= b) as u8]);
    p
}

/// one change to a document, mostly invisible in its content; returns its name
fn tweak(d: &mut KdlDocument, r: &mut Rng) -> String {
    let x = *r.pick(&["", " ", "\n", ";", "//c\n", "/**/", "x"]);
    if d.nodes().is_empty() || r.chance(8) {
        match r.below(5) {
            0 => { d.set_span((r.below(9), 3)); return "doc span".into(); }
            1 => { if let Some(f) = d.format_mut() { f.leading = x.into(); } return "doc leading".into(); }
            2 => { if let Some(f) = d.format_mut() { f.trailing = x.into(); } return "doc trailing".into(); }
            3 => { d.clear_format(); return "doc format".into(); }
            _ => { d.nodes_mut().push(KdlNode::new("a")); return "push node".into(); }
        }
    }
    if r.chance(5) { let k = r.below(d.nodes().len()); d.nodes_mut().remove(k); return "remove node".into(); }
    if r.chance(5) { let k = r.below(d.nodes().len()); let j = r.below(d.nodes().len()); d.nodes_mut().swap(k, j); return "swap nodes".into(); }
    let k = r.below(d.nodes().len());
    let n = &mut d.nodes_mut()[k];
    if r.chance(30) { if let Some(c) = n.children_mut() { return format!("in children: {}", tweak(c, r)); } }
    if !n.entries().is_empty() && r.chance(60) {
        let i = r.below(n.entries().len());
        let j = r.below(n.entries().len());
        if r.chance(8) { n.entries_mut().swap(i, j); return "swap entries".into(); }
        if r.chance(8) { n.entries_mut().remove(i); return "remove entry".into(); }
        let e = &mut n.entries_mut()[i];
        let which = r.below(18);
        let mut f = e.format().cloned().unwrap_or_default();
        match which {
            0 => { e.set_span((r.below(9), 3)); return "entry span".into(); }
            1 => { if let Some(k) = e.name_mut() { k.set_span((r.below(9), 3)); } return "key span".into(); }
            2 => { if let Some(k) = e.ty_mut() { k.set_span((r.below(9), 3)); } return "entry type span".into(); }
            3 => { let v = make::value(r); e.set_value(v); return "value".into(); }
            4 => { let v = KdlValue::Float(*r.pick(&[f64::NAN, 0.0, -0.0, f64::INFINITY, f64::MAX, f64::NEG_INFINITY, f64::MIN])); e.set_value(v); return "float".into(); }
            5 => { let s = make::string(r); if let Some(k) = e.name_mut() { k.set_value(s); } else { e.set_name(Some(s)); } return "key".into(); }
            6 => { let s = make::string(r); e.set_ty(s); return "entry type".into(); }
            7 => { e.clear_format(); return "entry format".into(); }
            8 => { e.set_name(None::<KdlIdentifier>); return "no key".into(); }
            9 => f.value_repr = x.into(), 10 => f.leading = x.into(), 11 => f.trailing = x.into(), 12 => f.after_ty = x.into(), 13 => f.before_ty_name = x.into(),
            14 => f.after_ty_name = x.into(), 15 => f.after_key = x.into(), 16 => f.after_eq = x.into(), _ => f.autoformat_keep = true,
        }
        e.set_format(f);
        return format!("entry format field {which}");
    }
    let which = r.below(18);
    let mut f = n.format().cloned().unwrap_or_default();
    match which {
        0 => { n.set_span((r.below(9), 3)); return "node span".into(); }
        1 => { n.name_mut().set_span((r.below(9), 3)); return "name span".into(); }
        2 => { if let Some(k) = n.ty_mut() { k.set_span((r.below(9), 3)); } return "type span".into(); }
        3 => { let s = make::string(r); n.set_name(s); return "name".into(); }
        4 => { let s = make::string(r); n.name_mut().set_value(s); return "name value".into(); }
        5 => { n.name_mut().set_repr(x); return "name repr".into(); }
        6 => { let s = make::string(r); n.set_ty(s); return "type".into(); }
        7 => { *n.ty_mut() = None; return "no type".into(); }
        8 => { if n.children().is_some() { n.clear_children(); } else { n.ensure_children(); } return "children".into(); }
        9 => { n.clear_format(); return "node format".into(); }
        10 => f.leading = x.into(), 11 => f.before_ty_name = x.into(), 12 => f.after_ty_name = x.into(), 13 => f.after_ty = x.into(),
        14 => f.before_children = x.into(), 15 => f.before_terminator = x.into(), 16 => f.terminator = x.into(), _ => f.trailing = x.into(),
    }
    n.set_format(f);
    format!("node format field {which}")
}

pub fn records(what: &str, seed: u64, n: usize) -> Vec<Value> {
    let mut r = Rng::new(seed, what);
    let mut out = vec![];
    match what {
        "values" => {
            let mut vs: Vec<KdlValue> = make::FLOATS.iter().map(|f| KdlValue::Float(*f)).collect();
            vs.push(KdlValue::Float(-f64::NAN));
            vs.extend(make::INTS.iter().take(12).map(|f| KdlValue::Integer(*f)));
            vs.extend([KdlValue::Bool(true), KdlValue::Bool(false), KdlValue::Null]);
            vs.extend(["", "0", "1", "true", "null", "a", "A", "#true"].iter().map(|s| KdlValue::String(s.to_string())));
            for a in &vs { for b in &vs { out.push(ordered(a, b)); } }
            for _ in 0..n { let (a, b) = (make::value(&mut r), make::value(&mut r)); out.push(ordered(&a, &b)); }
        }
        // one parsed document and the same one with some changes
        "trees" => {
            let ts = corpus::build(&format!("cases,gen:{n}"), seed);
            for t in ts {
                if t.chars().count() > 900 { continue; }
                let Ok(a) = KdlDocument::parse_v2(&t) else { continue };
                let mut b = if r.chance(50) { KdlDocument::parse_v2(&t).unwrap() } else { a.clone() };
                let mut what = vec![];
                for _ in 0..*r.pick(&[0, 1, 1, 1, 1, 2, 2, 3]) { what.push(tweak(&mut b, &mut r)); }
                let mut p = pair("pair", &a, &b, doc);
                p["d"] = json!(format!("{t:?}: {what:?}"));
                out.push(p);
                if !a.nodes().is_empty() && b.nodes().len() == a.nodes().len() {
                    let i = r.below(a.nodes().len());
                    let mut p = pair("pair", &a.nodes()[i], &b.nodes()[i], node);
                    p["d"] = json!(format!("{t:?}: {what:?} node {i}"));
                    out.push(p);
                    if a.nodes()[i].entries().len() == b.nodes()[i].entries().len() {
                        for (x, y) in a.nodes()[i].entries().iter().zip(b.nodes()[i].entries()) { let mut p = pair("pair", x, y, entry); p["d"] = json!(format!("entry {x:?} {y:?}")); out.push(p); }
                    }
                    let mut p = pair("pair", a.nodes()[i].name(), b.nodes()[i].name(), id);
                    p["d"] = json!("name");
                    out.push(p);
                }
            }
        }
        // two texts, equal or nearly so
        "texts" => {
            let ts = corpus::build(&format!("cases,gen:{n}"), seed);
            let mut g = Gen::new(r.clone());
            for t in ts {
                if t.chars().count() > 900 { continue; }
                let u = if r.chance(20) { t.clone() } else { g.mutate(&t, "a \"b\" 1 ") };
                let (Ok(a), Ok(b)) = (KdlDocument::parse_v2(&t), KdlDocument::parse_v2(&u)) else { continue };
                out.push(json!({"k": "texts", "t": [text("doc", &t), text("doc", &u)], "ok": 1, "eq": [(a == b) as u8, (b == a) as u8, !(a != b) as u8], "h": (h(&a) == h(&b)) as u8, "self": [], "a": 0, "b": 0, "d": format!("{u:?}")}));
            }
        }
        _ => panic!("what"),
    }
    out
}
