//! Histories of reads and edits.  A step is planned as a small JSON object (by the
//! generator below, or by the specification's behaviours), carried out on the real
//! objects, and recorded with what the call returned and what the document became.
//! Elements carry an identity in their span, which nothing else looks at.
use crate::gen::{Gen, Wide};
use crate::proj::*;
use crate::rng::Rng;
use kdl::*;
use serde_json::{json, Value};

fn text(m: &str, x: &str) -> Value { json!({"m": m, "x": cps(x)}) }
pub struct Run { pub doc: KdlDocument, next: usize }

fn ids_entry(e: &mut KdlEntry, next: &mut usize) { e.set_span((*next, 0)); *next += 1; }
fn ids_node(n: &mut KdlNode, next: &mut usize) {
    n.set_span((*next, 0)); *next += 1;
    for e in n.entries_mut() { ids_entry(e, next); }
    if let Some(c) = n.children_mut() { ids_doc(c, next); }
}
fn ids_doc(d: &mut KdlDocument, next: &mut usize) { for n in d.nodes_mut() { ids_node(n, next); } }

// ---- projections -----------------------------------------------------------
fn eid(e: &KdlEntry) -> usize { e.span().offset() }
fn nid(n: &KdlNode) -> usize { n.span().offset() }
fn obs_entry(e: &KdlEntry) -> Value { json!({"id": eid(e), "k": opt_id(e.name()), "y": opt_id(e.ty()), "v": val(e.value())}) }
fn obs_node(n: &KdlNode) -> Value {
    json!({"id": nid(n), "m": cps(n.name().value()), "y": opt_id(n.ty()), "e": n.entries().iter().map(obs_entry).collect::<Vec<_>>(),
           "c": n.children().map(|c| vec![obs_doc(c)]).unwrap_or_default()})
}
fn obs_doc(d: &KdlDocument) -> Value { Value::Array(d.nodes().iter().map(obs_node).collect()) }
/// the texts an entry is printed from, for new elements
fn piece_entry(e: &KdlEntry) -> Value {
    let f = e.format().cloned().unwrap_or_default();
    let fm = e.format().is_some();
    json!({"id": eid(e), "src": 0, "k": opt_id(e.name()), "y": opt_id(e.ty()), "v": val(e.value()), "lead": cps(&f.leading),
        "kn": shown(e.name()), "ak": cps(&f.after_key), "ae": cps(&f.after_eq), "h1": cps(&format!("({}", f.before_ty_name)), "yn": shown(e.ty()),
        "h2": cps(&format!("{})", f.after_ty_name)), "aft": cps(&f.after_ty),
        "vt": cps(&if fm { f.value_repr.clone() } else { e.value().to_string() }), "trail": cps(&f.trailing), "fm": fm as u8})
}
/// how an identifier is printed
fn shown(i: Option<&KdlIdentifier>) -> Value { cps(&i.map(|i| i.to_string()).unwrap_or_default()) }
fn canonical(i: Option<&KdlIdentifier>) -> Value { cps(&i.map(|i| KdlIdentifier::from(i.value()).to_string()).unwrap_or_default()) }
fn piece_node(n: &KdlNode, prev: i64) -> Value {
    let f = n.format().cloned().unwrap_or_default();
    let (h1, h2) = (format!("({}", f.before_ty_name), format!("{}){}", f.after_ty_name, f.after_ty));
    json!({"id": nid(n), "src": 0, "y": opt_id(n.ty()), "m": cps(n.name().value()), "e": n.entries().iter().map(piece_entry).collect::<Vec<_>>(),
        "c": n.children().map(|c| vec![piece_doc(c)]).unwrap_or_default(), "lead": cps(&f.leading), "h1": cps(&h1), "yn": shown(n.ty()), "h2": cps(&h2),
        "mn": cps(&n.name().to_string()), "bc": cps(&f.before_children), "bt": cps(&f.before_terminator), "term": cps(&f.terminator), "trail": cps(&f.trailing),
        "fm": n.format().is_some() as u8, "prev": prev, "nk": n.children().is_none() as u8})
}
fn piece_doc(d: &KdlDocument) -> Value {
    let f = d.format();
    let mut prev = -1i64;
    let ns: Vec<Value> = d.nodes().iter().map(|n| { let v = piece_node(n, if d.format().is_some() { prev } else { -1 }); prev = nid(n) as i64; v }).collect();
    json!({"src": 0, "lead": cps(f.map(|f| &f.leading[..]).unwrap_or("")), "trail": cps(f.map(|f| &f.trailing[..]).unwrap_or("")), "fm": f.is_some() as u8, "nodes": ns, "last": -1})
}

// ---- making new elements ----------------------------------------------------
fn mk_value(t: &str) -> KdlValue { KdlEntry::parse(t).unwrap().value().clone() }
impl Run {
    fn mk_entry(&mut self, p: &Value) -> KdlEntry {
        let mut e = if let Some(t) = p["t"].as_str() { KdlEntry::parse(t).unwrap() } else {
            let v = mk_value(p["v"].as_str().unwrap());
            let mut e = match p["k"].as_str() { Some(k) => KdlEntry::new_prop(k, v), None => KdlEntry::new(v) };
            if let Some(y) = p["y"].as_str() { e.set_ty(y); }
            e
        };
        ids_entry(&mut e, &mut self.next);
        e
    }
    fn mk_node(&mut self, p: &Value) -> KdlNode {
        let start = self.next;
        let mut n = if let Some(t) = p["t"].as_str() { KdlNode::parse(t).unwrap() } else {
            let mut n = KdlNode::new(p["m"].as_str().unwrap());
            if let Some(y) = p["y"].as_str() { n.set_ty(y); }
            for e in p["e"].as_array().into_iter().flatten() { let e = self.mk_entry(e); n.push(e); }
            if !p["c"].is_null() { let c = self.mk_doc(&p["c"]); n.set_children(c); }
            if p["bare"].as_bool() == Some(true) { n.clear_format(); }
            n
        };
        self.next = start;
        ids_node(&mut n, &mut self.next);
        n
    }
    fn mk_doc(&mut self, p: &Value) -> KdlDocument {
        let start = self.next;
        let mut d = if let Some(t) = p["t"].as_str() { KdlDocument::parse_v2(t).unwrap() } else {
            let mut d = KdlDocument::new();
            for n in p["nodes"].as_array().into_iter().flatten() { let n = self.mk_node(n); d.nodes_mut().push(n); }
            d
        };
        self.next = start;
        ids_doc(&mut d, &mut self.next);
        d
    }
}

// ---- carrying out a step ------------------------------------------------------
fn path(v: &Value) -> Vec<usize> { v["p"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect() }
fn node_at<'a>(d: &'a mut KdlDocument, p: &[usize]) -> &'a mut KdlNode {
    let n = &mut d.nodes_mut()[p[0]];
    if p.len() == 1 { n } else { node_at(n.children_mut().as_mut().unwrap(), &p[1..]) }
}
fn doc_at<'a>(d: &'a mut KdlDocument, p: &[usize]) -> &'a mut KdlDocument {
    if p.is_empty() { d } else { node_at(d, p).children_mut().as_mut().unwrap() }
}
fn key(v: &Value) -> NodeKey {
    match v["key"]["i"].as_u64() { Some(i) => NodeKey::from(i as usize), None => NodeKey::from(v["key"]["s"].as_str().unwrap()) }
}
fn rec_key(v: &Value) -> Value { match v["i"].as_u64() { Some(i) => json!({"t": "i", "i": i, "s": [], "x": []}), None => { let s = v["s"].as_str().unwrap(); json!({"t": "s", "i": 0, "s": cps(s), "x": cps(&KdlIdentifier::from(s).to_string())}) } } }
fn r_ids(v: impl IntoIterator<Item = usize>) -> Value { json!({"k": "ids", "x": v.into_iter().collect::<Vec<_>>()}) }
fn r_vals<'a>(v: impl IntoIterator<Item = &'a KdlValue>) -> Value { json!({"k": "vals", "x": v.into_iter().map(val).collect::<Vec<_>>()}) }
fn none() -> Value { json!({"k": "none", "x": []}) }
fn r_n(n: usize) -> Value { json!({"k": "n", "x": [n]}) }
/// gives an entry a new value, and the text that goes with it
fn put(e: &mut KdlEntry, v: &KdlValue) {
    e.set_value(v.clone());
    show(e);
}
fn show(e: &mut KdlEntry) {
    let t = e.value().to_string();
    if let Some(f) = e.format_mut() { f.value_repr = t; }
}
fn name_key(e: &KdlEntry) -> Option<String> { e.name().map(|n| n.value().to_string()) }
fn named(s: &str) -> Value { json!({"c": cps(s), "x": cps(&KdlIdentifier::from(s).to_string())}) }

impl Run {
    /// Returns the step to record and its result.
    fn step(&mut self, op: &Value) -> Value {
        let o = op["o"].as_str().unwrap();
        let p = path(op);
        let mut rec = json!({"o": o, "p": op["p"]});
        if !op["key"].is_null() { rec["key"] = rec_key(&op["key"]); }
        for f in ["i", "j", "ids", "how"] { if !op[f].is_null() { rec[f] = op[f].clone(); } }
        for f in ["name", "ty"] { if let Some(s) = op[f].as_str() { rec[f] = named(s); } }
        let mut v = KdlValue::Null;
        if let Some(t) = op["v"].as_str() { v = mk_value(t); rec["v"] = json!({"v": val(&v), "x": cps(&v.to_string())}); }
        let how = op["how"].as_str().unwrap_or("");
        let ids: Vec<usize> = op["ids"].as_array().into_iter().flatten().map(|x| x.as_u64().unwrap() as usize).collect();
        let i = op["i"].as_u64().unwrap_or(1) as usize;
        let j = op["j"].as_u64().unwrap_or(1) as usize;
        let name = op["name"].as_str().unwrap_or("").to_string();
        let mut e = None;
        if !op["e"].is_null() { let x = self.mk_entry(&op["e"]); rec["e"] = piece_entry(&x); e = Some(x); }
        let mut n = None;
        if !op["n"].is_null() { let x = self.mk_node(&op["n"]); rec["n"] = piece_node(&x, -1); n = Some(x); }
        let mut d = None;
        if !op["d"].is_null() { let x = self.mk_doc(&op["d"]); rec["d"] = piece_doc(&x); d = Some(x); }
        if o == "index_set" {
            // what the call adds when there is no such property
            let mut x = KdlEntry::from((op["key"]["s"].as_str().unwrap_or(""), v.clone()));
            ids_entry(&mut x, &mut self.next);
            rec["e"] = piece_entry(&x);
        }
        let doc = &mut self.doc;
        let next = self.next;
        let mut cleared = json!({"kn": [], "yn": [], "vt": []});
        // the texts of a format
        let ft = |k: &str| op["f"][k].as_str().unwrap_or("").to_string();
        if let Some(f) = op["f"].as_object() { for (k, x) in f { rec["f"][k] = cps(x.as_str().unwrap()); } }
        let mut value_text = String::new();
        let r = catch(|| match o {
            // ---- nodes
            "get" => {
                let m = node_at(doc, &p);
                let want = m.entry(key(op)).map(eid);
                let same = match how {
                    "get" => m.get(key(op)).map(val) == m.entry(key(op)).map(|e| val(e.value())),
                    "get_mut" => m.get_mut(key(op)).map(|v| val(v)) == m.entry(key(op)).map(|e| val(e.value())),
                    "entry_mut" => m.entry_mut(key(op)).map(|e| eid(e)) == want,
                    _ => true,
                };
                if same { r_ids(want) } else { json!({"k": "differs", "x": []}) }
            }
            "index" => { let m = node_at(doc, &p); let v = match op["key"]["i"].as_u64() { Some(i) => &m[i as usize], None => &m[op["key"]["s"].as_str().unwrap()] }; r_vals([v]) }
            "index_set" => {
                let m = node_at(doc, &p);
                match op["key"]["i"].as_u64() { Some(i) => m[i as usize] = v.clone(), None => m[op["key"]["s"].as_str().unwrap()] = v.clone() }
                for e in m.entries_mut() { if eid(e) == 0 { e.set_span((next - 1, 0)); } }
                if let Some(e) = m.entry_mut(key(op)) { show(e); }
                none()
            }
            "set" => {
                let m = node_at(doc, &p);
                let there = match how {
                    "get_mut" => { let t = m.get_mut(key(op)).map(|x| *x = v.clone()).is_some(); if let Some(e) = m.entry_mut(key(op)) { show(e); } t }
                    "value_mut" => m.entry_mut(key(op)).map(|e| { *e.value_mut() = v.clone(); show(e) }).is_some(),
                    _ => m.entry_mut(key(op)).map(|e| put(e, &v)).is_some(),
                };
                r_n(there as usize)
            }
            "insert" => { let m = node_at(doc, &p); r_ids(m.insert(key(op), e.take().unwrap()).map(|e| eid(&e))) }
            "push" => { node_at(doc, &p).push(e.take().unwrap()); none() }
            "remove" => { let m = node_at(doc, &p); r_ids(m.remove(key(op)).map(|e| eid(&e))) }
            "retain" => { node_at(doc, &p).retain(|e| ids.contains(&eid(e))); none() }
            "sort" => {
                let m = node_at(doc, &p);
                match how { "desc" => m.sort_by(|a, b| name_key(b).cmp(&name_key(a))), "key" => m.sort_by_key(name_key), _ => m.sort_by(|a, b| name_key(a).cmp(&name_key(b))) }
                none()
            }
            "clear" => { node_at(doc, &p).clear(); none() }
            "len" => { let m = node_at(doc, &p); if m.is_empty() != (m.len() == 0) { panic!("is_empty") } r_n(m.len()) }
            "iter" => {
                let m = node_at(doc, &p);
                let b: Vec<usize> = m.iter_mut().map(|e| eid(e)).collect();
                let a: Vec<usize> = m.iter().map(eid).collect();
                if a == b { r_ids(a) } else { json!({"k": "differs", "x": []}) }
            }
            "kids" => {
                let m = node_at(doc, &p);
                let b: Vec<usize> = m.iter_children_mut().map(|e| nid(e)).collect();
                let a: Vec<usize> = m.iter_children().map(nid).collect();
                if a == b { r_ids(a) } else { json!({"k": "differs", "x": []}) }
            }
            "vinsert" => { node_at(doc, &p).entries_mut().insert(i - 1, e.take().unwrap()); none() }
            "vremove" => r_ids([eid(&node_at(doc, &p).entries_mut().remove(i - 1))]),
            "vswap" => { node_at(doc, &p).entries_mut().swap(i - 1, j - 1); none() }
            "each" => { for e in node_at(doc, &p).iter_mut() { put(e, &v); } none() }
            "entry_name" => {
                let m = node_at(doc, &p);
                if let Some(e) = m.entry_mut(key(op)) { match how {
                    "none" => e.set_name(None::<&str>),
                    "value" if e.name().is_some() => { let k = e.name_mut().unwrap(); k.set_value(name); k.clear_format(); }
                    _ => e.set_name(Some(name)),
                } }
                none()
            }
            "entry_ty" => {
                let m = node_at(doc, &p);
                let ty = op["ty"].as_str().unwrap();
                if let Some(e) = m.entry_mut(key(op)) { match how {
                    "value" if e.ty().is_some() => { let k = e.ty_mut().unwrap(); k.set_value(ty); k.clear_format(); }
                    _ => e.set_ty(ty),
                } }
                none()
            }
            "entry_clear" => {
                if let Some(e) = node_at(doc, &p).entry_mut(key(op)) {
                    cleared = json!({"kn": canonical(e.name()), "yn": canonical(e.ty()), "vt": cps(&e.value().to_string())});
                    e.clear_format();
                }
                none()
            }
            "efmt" => {
                if let Some(e) = node_at(doc, &p).entry_mut(key(op)) {
                    value_text = e.value().to_string();
                    if how == "mut" && e.format().is_some() {
                        let f = e.format_mut().unwrap();
                        (f.leading, f.after_key, f.after_eq, f.before_ty_name) = (ft("lead"), ft("ak"), ft("ae"), ft("b"));
                        (f.after_ty_name, f.after_ty, f.value_repr, f.trailing) = (ft("a"), ft("aft"), value_text.clone(), ft("trail"));
                    } else {
                        let mut f = KdlEntryFormat::default();
                        (f.leading, f.after_key, f.after_eq, f.before_ty_name) = (ft("lead"), ft("ak"), ft("ae"), ft("b"));
                        (f.after_ty_name, f.after_ty, f.value_repr, f.trailing) = (ft("a"), ft("aft"), value_text.clone(), ft("trail"));
                        e.set_format(f);
                    }
                }
                none()
            }
            "nfmt" => {
                let n = node_at(doc, &p);
                let mut f = n.format().cloned().unwrap_or_default();
                (f.leading, f.before_ty_name, f.after_ty_name, f.after_ty) = (ft("lead"), ft("b"), ft("a"), ft("aft"));
                (f.before_children, f.before_terminator, f.terminator, f.trailing) = (ft("bc"), ft("bt"), ft("term"), ft("trail"));
                match n.format_mut() { Some(g) if how == "mut" => *g = f, _ => n.set_format(f) }
                none()
            }
            "dfmt" => {
                let d = doc_at(doc, &p);
                let f = KdlDocumentFormat { leading: ft("lead"), trailing: ft("trail"), ..Default::default() };
                match d.format_mut() { Some(g) if how == "mut" => *g = f, _ => d.set_format(f) }
                none()
            }
            "name" => { let m = node_at(doc, &p); if how == "value" { m.name_mut().set_value(name); m.name_mut().clear_format(); } else { m.set_name(name); } none() }
            "ty" => {
                let m = node_at(doc, &p);
                let ty = op["ty"].as_str().unwrap();
                if how == "mut" { *m.ty_mut() = Some(ty.into()); } else { m.set_ty(ty); }
                none()
            }
            "noty" => { *node_at(doc, &p).ty_mut() = None; none() }
            "kids_set" => { let m = node_at(doc, &p); if how == "mut" { *m.children_mut() = d.take(); } else { m.set_children(d.take().unwrap()); } none() }
            "kids_clear" => { let m = node_at(doc, &p); if how == "take" { m.children_mut().take(); } else { m.clear_children(); } none() }
            "kids_ensure" => r_n(node_at(doc, &p).ensure_children().nodes().len()),
            // ---- documents
            "dget" => {
                let x = doc_at(doc, &p);
                let a = x.get(&name).map(nid);
                if x.get_mut(&name).map(|n| nid(n)) == a { r_ids(a) } else { json!({"k": "differs", "x": []}) }
            }
            "dlist" => {
                let x = doc_at(doc, &p);
                let a: Vec<usize> = x.nodes().iter().map(nid).collect();
                let b: Vec<usize> = (&*x).into_iter().map(nid).collect();
                let c: Vec<usize> = (&mut *x).into_iter().map(|n| nid(n)).collect();
                let d: Vec<usize> = x.clone().into_iter().map(|n| nid(&n)).collect();
                if a == b && b == c && c == d { r_ids(a) } else { json!({"k": "differs", "x": []}) }
            }
            "darg" => { let x = doc_at(doc, &p); r_vals(x.get_arg(&name)) }
            "dargs" => { let x = doc_at(doc, &p); r_vals(x.iter_args(&name)) }
            "ddash" => { let x = doc_at(doc, &p); r_vals(x.iter_dash_args(&name)) }
            "dset" => {
                let x = doc_at(doc, &p);
                let t = x.get_arg_mut(&name).map(|y| *y = v.clone()).is_some();
                if let Some(e) = x.get_mut(&name).and_then(|n| n.entry_mut(0)) { show(e); }
                r_n(t as usize)
            }
            "dpush" => { doc_at(doc, &p).nodes_mut().push(n.take().unwrap()); none() }
            "dinsert" => { doc_at(doc, &p).nodes_mut().insert(i - 1, n.take().unwrap()); none() }
            "dremove" => r_ids([nid(&doc_at(doc, &p).nodes_mut().remove(i - 1))]),
            "dswap" => { doc_at(doc, &p).nodes_mut().swap(i - 1, j - 1); none() }
            "dretain" => { doc_at(doc, &p).nodes_mut().retain(|n| ids.contains(&nid(n))); none() }
            "dclear" => { doc_at(doc, &p).nodes_mut().clear(); none() }
            _ => panic!("op {o}"),
        });
        if o == "entry_clear" { rec["new"] = cleared; }
        if o == "efmt" { rec["f"]["vt"] = cps(&value_text); }
        // a place that is not there: the objects have left the planned course before
        rec["r"] = match r { Ok(v) => v, Err((at, m)) => json!({"k": if at.contains("harness/src") { "lost" } else { "panic" }, "x": [], "m": m}) };
        rec["doc"] = obs_doc(&self.doc);
        rec
    }
}

/// Starts from a text and carries out the planned steps; plan is asked for each next step.
pub fn run(src: &str, texts: bool, mut plan: impl FnMut(&Run, usize) -> Option<Value>) -> Value {
    let mut t = vec![text("doc", src)];
    let Ok(Ok(doc)) = catch(|| KdlDocument::parse_v2(src)) else {
        return json!({"k": "edit", "t": t, "ops": [], "d": "", "read": false, "doc": []});
    };
    let mut r = Run { doc, next: 1 };
    ids_doc(&mut r.doc, &mut r.next);
    let doc0 = obs_doc(&r.doc);
    let mut ops = vec![];
    let mut d = String::new();
    let mut i = 0;
    while let Some(op) = catch(|| plan(&r, i)).unwrap_or_else(|_| Some(json!({"o": "lost"}))) {
        d.push_str(&format!("{op} "));
        let rec = catch(|| r.step(&op)).unwrap_or_else(|(_, m)| json!({"o": "lost", "p": [], "doc": [], "r": {"k": "lost", "x": [], "m": m}}));
        let lost = rec["r"]["k"] == "lost";
        if texts { match catch(|| r.doc.to_string()) {
            Ok(x) if !lost => t.push(text("doc", &x)),
            _ => t.push(text("skip", "PANIC")),
        } }
        ops.push(rec);
        if lost { break; }
        i += 1;
    }
    json!({"k": "edit", "t": t, "ops": ops, "d": d, "read": true, "doc": doc0})
}

// ---- random histories ------------------------------------------------------------
const NAMES: [&str; 8] = ["a", "b", "-", "c d", "k", "l", "true", "0"];
const SHOWN: [&str; 13] = ["a", "b", "-", "\"c d\"", "k", "l", "\"k\"", "#\"k\"#", "\"a\"", "\"\\u{6b}\"", "#\"true\"#", "\"-\"", "\"0\""];
const VALUES: [&str; 11] = ["1.5", "1", "2", "-3", "0x1F", "#true", "#null", "x", "\"x y\"", "\"\"", "#inf"];
fn name(g: &mut Gen) -> String { (*g.r.pick(&SHOWN)).into() }
fn value(g: &mut Gen) -> String { (*g.r.pick(&VALUES)).into() }
fn ty(g: &mut Gen) -> String { let (a, b) = (g.sp0(), g.sp0()); format!("({a}{}{b})", name(g)) }
fn entry(g: &mut Gen) -> String {
    let mut s = String::new();
    if g.r.chance(55) { s = name(g); s.push_str(&g.sp0()); s.push('='); s.push_str(&g.sp0()); }
    if g.r.chance(12) { s.push_str(&ty(g)); s.push_str(&g.sp0()); }
    s + &value(g)
}
fn nodes(g: &mut Gen, depth: usize) -> String {
    let mut s = g.lsp0();
    let n = g.r.below(4);
    let n = g.many(Wide::Nodes, n, 20);
    for i in 0..n {
        if g.r.chance(g.st.sd / 2) { s.push_str(&g.slashdash()); s.push_str(&node(g, 0)); s.push_str(&g.terminator()); s.push_str(&g.lsp0()); }
        s.push_str(&node(g, depth));
        if i + 1 < n || g.r.chance(60) { s.push_str(&g.terminator()); s.push_str(&g.lsp0()); }
        else if g.r.chance(5) { s.push_str(" // end"); }
        else if g.r.chance(5) { s.push_str(" \\"); }
    }
    s
}
fn node(g: &mut Gen, depth: usize) -> String {
    let mut s = String::new();
    if g.r.chance(12) { s.push_str(&ty(g)); s.push_str(&g.sp0()); }
    s.push_str(&name(g));
    let n = g.r.below(5);
    let n = g.many(Wide::Entries, n, 20);
    for _ in 0..n {
        s.push_str(&g.sp1());
        if g.r.chance(g.st.sd / 2) { s.push_str(&g.slashdash()); }
        s.push_str(&entry(g));
    }
    if depth > 0 && g.r.chance(40) {
        if g.r.chance(g.st.sd / 3) { s.push_str(" /-{"); s.push_str(&nodes(g, 0)); s.push_str("}"); }
        s.push_str(&g.sp0());
        s.push('{'); s.push_str(&nodes(g, depth - 1)); s.push('}');
        if g.r.chance(g.st.sd / 3) { s.push_str(if g.r.chance(50) { "/-{" } else { " /-{" }); s.push_str(&nodes(g, 0)); s.push_str("}"); }
    }
    s.push_str(&g.sp0());
    s
}
pub fn source(g: &mut Gen) -> String {
    g.restyle();
    loop {
        // hardly anything
        if g.r.chance(4) {
            let x = *g.r.pick(&["", "\\", " \\ ", "\\ // c", "// c", "/* c */", "\u{feff}", "\u{feff}\\", "/-a", "/-a;", "/-a\n", "/-a {}", "/-a // c", "/-a \\", "/-a /-b", "\n", ";"]);
            let s = match g.r.below(3) { 0 => x.to_string(), 1 => format!("n {{{x}\n}}"), _ => format!("n {{{x}}} // d") };
            if KdlDocument::parse_v2(&s).is_ok() { return s; }
        }
        let depth = if g.st.wide == Wide::Depth { 8 } else { 2 };
        let mut s = nodes(g, depth);
        if g.r.chance(3) { s.insert(0, '\u{feff}'); }
        if s.chars().count() <= if g.st.wide == Wide::Nothing { 160 } else { 400 } && KdlDocument::parse_v2(&s).is_ok() { return s; }
    }
}
fn plan_entry(g: &mut Gen, named: Option<bool>, key: Option<&str>) -> Value {
    if g.r.chance(30) && key.is_none() {
        loop {
            let lead = match g.r.below(4) { 0 => String::new(), 1 => "  ".into(), 2 => " /* n */ ".into(), _ => " ".into() };
            let t = format!("{lead}{}{}", entry(g), if g.r.chance(20) { " " } else { "" });
            if let Ok(e) = KdlEntry::parse(&t) { if t.contains('\n') { continue; } if named.is_none() || named == Some(e.name().is_some()) { return json!({"t": t}); } }
        }
    }
    let mut v = json!({"v": value(g)});
    let prop = named.unwrap_or(g.r.chance(50));
    if prop { v["k"] = json!(key.map(|s| s.to_string()).unwrap_or_else(|| (*g.r.pick(&NAMES)).to_string())); }
    if g.r.chance(15) { v["y"] = json!(*g.r.pick(&NAMES)); }
    v
}
fn plan_node(g: &mut Gen, depth: usize) -> Value {
    if g.r.chance(25) {
        loop {
            let mut t = node(g, depth);
            if g.r.chance(30) { t = format!("{}{t}", g.lsp0()); }
            if g.r.chance(40) { t.push_str(&g.terminator()); if g.r.chance(30) { t.push_str(&g.lsp0()); } }
            if g.r.chance(8) { t.push_str(" // end"); }
            if g.r.chance(4) { t.push_str(" \\"); }
            if g.r.chance(4) { t.push_str(" /* * */"); }
            if t.chars().count() <= 80 && KdlNode::parse(&t).is_ok() { return json!({"t": t}); }
        }
    }
    let mut v = json!({"m": *g.r.pick(&NAMES)});
    if g.r.chance(15) { v["y"] = json!(*g.r.pick(&NAMES)); }
    v["e"] = (0..g.r.below(3)).map(|_| plan_entry(g, None, None)).collect();
    if depth > 0 && g.r.chance(25) { v["c"] = plan_doc(g, depth - 1); }
    if g.r.chance(15) { v["bare"] = json!(true); }
    v
}
fn plan_doc(g: &mut Gen, depth: usize) -> Value {
    if g.r.chance(30) {
        loop {
            let t = nodes(g, depth);
            if t.chars().count() <= 60 && KdlDocument::parse_v2(&t).is_ok() { return json!({"t": t}); }
        }
    }
    json!({"nodes": (0..g.r.below(3)).map(|_| plan_node(g, depth)).collect::<Vec<_>>()})
}
fn all_paths(d: &KdlDocument, at: &[usize], nodes: &mut Vec<Vec<usize>>, docs: &mut Vec<Vec<usize>>) {
    docs.push(at.to_vec());
    for (i, n) in d.nodes().iter().enumerate() {
        let mut p = at.to_vec(); p.push(i + 1);
        nodes.push(p.clone());
        if let Some(c) = n.children() { all_paths(c, &p, nodes, docs); }
    }
}
/// the next random step
pub fn plan(run: &Run, g: &mut Gen) -> Value {
    let (mut ns, mut ds) = (vec![], vec![]);
    all_paths(&run.doc, &[], &mut ns, &mut ds);
    let mut doc = run.doc.clone();
    if ns.is_empty() || g.r.chance(35) {
        let p = g.r.pick(&ds).clone();
        let d = doc_at(&mut doc, &p.iter().map(|x| x - 1).collect::<Vec<_>>());
        let m = d.nodes().len();
        let nm = if m > 0 && g.r.chance(70) { g.r.pick(d.nodes()).name().value().to_string() } else { (*g.r.pick(&NAMES)).to_string() };
        return match g.r.below(14) {
            13 => json!({"o": "dfmt", "p": p, "how": *g.r.pick(&["mut", "set"]), "f": {"lead": *g.r.pick(&["", "// l\n", "\n", "/* l */", "/-l;"]), "trail": *g.r.pick(&["", " ", "// t\n", "/* t */ ", "\n"])}}),
            12 => json!({"o": "dlist", "p": p}),
            0 => json!({"o": "dget", "p": p, "name": nm}),
            1 => json!({"o": "darg", "p": p, "name": nm}),
            2 => json!({"o": "dargs", "p": p, "name": nm}),
            3 => json!({"o": "ddash", "p": p, "name": nm}),
            4 => json!({"o": "dset", "p": p, "name": nm, "v": value(g)}),
            5 | 6 => json!({"o": "dpush", "p": p, "n": plan_node(g, 1)}),
            7 => json!({"o": "dinsert", "p": p, "i": g.r.below(m + 1) + 1, "n": plan_node(g, 1)}),
            8 if m > 0 => json!({"o": "dremove", "p": p, "i": g.r.below(m) + 1}),
            9 if m > 0 => json!({"o": "dswap", "p": p, "i": g.r.below(m) + 1, "j": g.r.below(m) + 1}),
            10 if g.r.chance(50) => json!({"o": "dretain", "p": p, "ids": d.nodes().iter().map(nid).filter(|_| g.r.chance(50)).collect::<Vec<_>>()}),
            11 if g.r.chance(20) => json!({"o": "dclear", "p": p}),
            _ => json!({"o": "dpush", "p": p, "n": plan_node(g, 0)}),
        };
    }
    let p = g.r.pick(&ns).clone();
    let n = node_at(&mut doc, &p.iter().map(|x| x - 1).collect::<Vec<_>>()).clone();
    let args = n.entries().iter().filter(|e| e.name().is_none()).count();
    let props: Vec<String> = n.entries().iter().filter_map(name_key).collect();
    let m = n.entries().len();
    let key = |g: &mut Gen| -> Value {
        if g.r.chance(50) { json!({"i": if args > 0 && g.r.chance(85) { g.r.below(args) } else { g.r.below(args + 2) }}) }
        else if !props.is_empty() && g.r.chance(80) { json!({"s": g.r.pick(&props)}) }
        else { json!({"s": *g.r.pick(&NAMES)}) }
    };
    let k = key(g);
    let same_key = |g: &mut Gen| -> Value { // an entry that goes with the key, mostly
        match k["s"].as_str() {
            Some(s) => if g.r.chance(10) { plan_entry(g, Some(true), None) } else if g.r.chance(50) { plan_entry(g, Some(true), Some(s)) } else { plan_entry(g, Some(false), None) },
            None => { let named = g.r.chance(8); plan_entry(g, Some(named), None) }
        }
    };
    match g.r.below(32) {
        30 => { let s = &["", " ", "/*s*/", " \\\n "]; json!({"o": "efmt", "p": p, "key": k, "how": *g.r.pick(&["mut", "set"]), "f": {"lead": *g.r.pick(&["", " ", "   ", " /* l */ ", " \\\n"]),
            "ak": *g.r.pick(s), "ae": *g.r.pick(s), "b": *g.r.pick(s), "a": *g.r.pick(s), "aft": *g.r.pick(s), "trail": *g.r.pick(&["", " ", "/*t*/"])}}) }
        31 => { let s = &["", " ", "/*s*/", " \\\n "]; json!({"o": "nfmt", "p": p, "how": *g.r.pick(&["mut", "set"]), "f": {"lead": *g.r.pick(&["", "  ", "// l\n", "/* l */", "/-l;", "\n"]),
            "b": *g.r.pick(s), "a": *g.r.pick(s), "aft": *g.r.pick(s), "bc": *g.r.pick(s), "bt": *g.r.pick(&["", " ", "/*s*/", " /-{}", if n.children().is_none() { " /-x " } else { "" }]), "term": *g.r.pick(&[";", "\n", "// t\n", "\r\n"]), "trail": *g.r.pick(&["", " ", "/* e */"])}}) }
        0 | 1 => json!({"o": "get", "p": p, "key": k, "how": *g.r.pick(&["get", "get_mut", "entry_mut", ""])}),
        2 => json!({"o": "index", "p": p, "key": k}),
        3 | 4 => json!({"o": "index_set", "p": p, "key": k, "v": value(g)}),
        5 | 6 => json!({"o": "set", "p": p, "key": k, "v": value(g), "how": *g.r.pick(&["get_mut", "entry_mut", "value_mut"])}),
        7..=9 => { let e = same_key(g); json!({"o": "insert", "p": p, "key": k, "e": e}) }
        10 => json!({"o": "push", "p": p, "e": plan_entry(g, None, None)}),
        11..=13 => json!({"o": "remove", "p": p, "key": k}),
        14 => json!({"o": "retain", "p": p, "ids": n.entries().iter().map(eid).filter(|_| g.r.chance(60)).collect::<Vec<_>>()}),
        15 => json!({"o": "sort", "p": p, "how": *g.r.pick(&["asc", "desc", "key"])}),
        16 if g.r.chance(30) => json!({"o": "clear", "p": p}),
        17 => json!({"o": *g.r.pick(&["len", "iter", "kids"]), "p": p}),
        18 => json!({"o": "vinsert", "p": p, "i": g.r.below(m + 1) + 1, "e": plan_entry(g, None, None)}),
        19 if m > 0 => json!({"o": "vremove", "p": p, "i": g.r.below(m) + 1}),
        20 if m > 0 => json!({"o": "vswap", "p": p, "i": g.r.below(m) + 1, "j": g.r.below(m) + 1}),
        21 if g.r.chance(30) => json!({"o": "each", "p": p, "v": value(g)}),
        22 => {
            let how = *g.r.pick(&["value", "set", "none"]);
            json!({"o": "entry_name", "p": p, "key": k, "name": *g.r.pick(&NAMES), "how": how})
        }
        23 => json!({"o": "entry_ty", "p": p, "key": k, "ty": *g.r.pick(&NAMES), "how": *g.r.pick(&["value", "set"])}),
        24 => json!({"o": "entry_clear", "p": p, "key": k}),
        25 => json!({"o": "name", "p": p, "name": *g.r.pick(&NAMES), "how": *g.r.pick(&["value", "set"])}),
        26 => if g.r.chance(50) { json!({"o": "ty", "p": p, "ty": *g.r.pick(&NAMES), "how": *g.r.pick(&["mut", "set"])}) } else { json!({"o": "noty", "p": p}) },
        27 => json!({"o": "kids_set", "p": p, "d": plan_doc(g, 1), "how": *g.r.pick(&["mut", "set"])}),
        28 => json!({"o": "kids_clear", "p": p, "how": *g.r.pick(&["take", "clear"])}),
        29 => json!({"o": "kids_ensure", "p": p}),
        _ => json!({"o": "push", "p": p, "e": plan_entry(g, None, None)}),
    }
}
/// one random history
pub fn random(seed: u64, i: usize, texts: bool) -> Value {
    let mut g = Gen::new(Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64), "edit"));
    let src = source(&mut g);
    let k = if texts { g.r.range(2, 6) } else { g.r.range(3, 12) };
    run(&src, texts, |r, i| if i < k { Some(plan(r, &mut g)) } else { None })
}
