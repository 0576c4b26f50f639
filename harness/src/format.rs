//! Runs of autoformat and clear_format.
use crate::proj::*;
use crate::rng::Rng;
use kdl::*;
use serde_json::{json, Value};

fn text(m: &str, x: &str) -> Value { json!({"m": m, "x": cps(x)}) }

/// The same content made with constructors only.
pub fn rebuild(d: &KdlDocument) -> KdlDocument {
    let mut r = KdlDocument::new();
    for n in d.nodes() {
        let mut m = KdlNode::new(n.name().value());
        if let Some(t) = n.ty() { m.set_ty(t.value()); }
        for e in n.entries() {
            let mut x = match e.name() { Some(k) => KdlEntry::new_prop(k.value(), e.value().clone()), None => KdlEntry::new(e.value().clone()) };
            if let Some(t) = e.ty() { x.set_ty(t.value()); }
            m.push(x);
        }
        if let Some(c) = n.children() { m.set_children(rebuild(c)); }
        r.nodes_mut().push(m);
    }
    r
}

/// Drops the formatting of some elements.
fn partly_clear(d: &mut KdlDocument, r: &mut Rng) {
    if r.chance(10) && !d.nodes().is_empty() { d.clear_format(); }
    for n in d.nodes_mut() {
        if r.chance(25) { n.clear_format(); }
        for e in n.entries_mut() { if r.chance(25) { e.clear_format(); } }
        if r.chance(10) { n.name_mut().clear_format(); }
        if let Some(c) = n.children_mut() { partly_clear(c, r); }
    }
}

/// Marks every entry: it keeps its format, whatever the configuration.
fn mark(d: &mut KdlDocument) { for n in d.nodes_mut() { mark_node(n); } }
fn mark_node(n: &mut KdlNode) {
    for e in n.entries_mut() { e.keep_format(); }
    if let Some(c) = n.children_mut() { mark(c); }
}

pub struct Cfg { pub lvl: usize, pub ind: &'static str, pub nc: bool, pub keep: bool, pub via: usize }
impl Cfg {
    fn random(r: &mut Rng) -> Cfg {
        Cfg { lvl: *r.pick(&[0, 0, 1, 2]), ind: *r.pick(&["    ", "    ", "\t", "  ", "", " \u{3000}"]), nc: r.chance(30), keep: r.chance(25), via: r.below(3) }
    }
    /// one of the ways to the same configuration
    fn config(&self) -> FormatConfig<'static> {
        let b = FormatConfig::builder();
        let b = match self.via {
            0 => b.indent_level(self.lvl).indent(self.ind).no_comments(self.nc),
            1 => b.maybe_no_comments(Some(self.nc)).maybe_indent_level(Some(self.lvl)).maybe_indent(Some(self.ind)),
            _ => FormatConfigBuilder::new().indent("??").no_comments(self.nc).indent_level(7).indent(self.ind).indent_level(self.lvl).maybe_indent_level(None).maybe_indent(None).maybe_no_comments(None),
        };
        let mut c = b.build();
        // entry_autoformate_keep has no setter outside the crate
        c.entry_autoformate_keep = self.keep;
        c
    }
    /// whether a call without a configuration means the same
    fn plain(&self) -> bool { self.via > 0 && self.lvl == 0 && self.ind == "    " && !self.keep }
    fn run(&self, d: &mut KdlDocument) {
        match (self.plain(), self.nc) { (true, false) => d.autoformat(), (true, true) => d.autoformat_no_comments(), _ => d.autoformat_config(&self.config()) }
    }
    fn run_node(&self, d: &mut KdlNode) {
        match (self.plain(), self.nc) { (true, false) => d.autoformat(), (true, true) => d.autoformat_no_comments(), _ => d.autoformat_config(&self.config()) }
    }
}

fn finish(mut v: Value, r: Result<Option<Value>, (String, String)>) -> Option<Value> {
    match r {
        Ok(None) => return None,
        Ok(Some(x)) => for (k, y) in x.as_object().unwrap() { v[k] = y.clone(); },
        Err((at, m)) => { v["at"] = json!(at); v["msg"] = json!(m); }
    }
    Some(v)
}

/// autoformat_config with one configuration
pub fn rec_auto(t: &str, seed: u64, mode: &str) -> Option<Value> {
    let mut r = Rng::new(seed, t);
    let c = if r.chance(30) { Cfg { lvl: 0, ind: "    ", nc: r.chance(30), keep: false, via: r.below(3) } } else { Cfg::random(&mut r) };
    let partly = r.chance(20);
    // kept by a mark on every entry, not by the configuration; then another configuration
    let marked = !c.keep && (mode == "doc" || mode == "node") && r.chance(12);
    let c2 = Cfg::random(&mut r);
    let v = json!({"k": "auto", "t": [text("skip", t), text("skip", "")], "ok": 2, "lvl": c.lvl, "ind": cps(c.ind), "nc": c.nc as u8, "keep": (c.keep || marked) as u8, "v1": cfg!(feature = "full") as u8,
        "again": [], "reread": [], "then": [[], []], "partly": partly as u8, "d": format!("lvl={} ind={:?} nc={} keep={} marked={marked} partly={} via={}", c.lvl, c.ind, c.nc, c.keep, partly, c.via)});
    finish(v, catch(|| {
        if mode == "entry" || mode == "ident" {
            // k = "clear": an entry or identifier without a place in a document has no layout to keep
            let keep = mode == "entry" && c.keep;
            let (out, eq, other) = if mode == "entry" {
                let mut d = KdlEntry::parse(t).ok()?;
                if keep { d.keep_format(); }
                d.autoformat();
                let out = d.to_string();
                let mut again = d.clone();
                again.autoformat();
                let (e, o) = match KdlEntry::parse(&out) { Ok(mut e) => { if keep { e.keep_format(); } e.autoformat(); (e == d, e.to_string()) } Err(_) => (false, String::new()) };
                (out, [e as u8, (again == d) as u8], o)
            } else {
                let mut d = KdlIdentifier::parse(t).ok()?;
                d.autoformat();
                let out = d.to_string();
                let (e, o) = match KdlIdentifier::parse(&out) { Ok(mut e) => { e.autoformat(); (e == d, e.to_string()) } Err(_) => (false, String::new()) };
                (out, [e as u8, 1], o)
            };
            return Some(json!({"k": if keep { "kept" } else { "clear" }, "ok": 1, "t": [text(mode, t), text(mode, &out)], "eq": eq, "others": [cps(&other), cps(&other)]}));
        }
        if mode == "node" {
            let mut d = KdlNode::parse(t).ok()?;
            let src = d.to_string();
            if marked { mark_node(&mut d); }
            c.run_node(&mut d);
            let out = d.to_string();
            c.run_node(&mut d);
            let again = d.to_string();
            let reread = match KdlNode::parse(&out) { Ok(mut e) => { if marked { mark_node(&mut e); } c.run_node(&mut e); e.to_string() } Err(_) => String::new() };
            c2.run_node(&mut d);
            let then = match KdlNode::parse(&out) { Ok(mut e) => { if marked { mark_node(&mut e); } c2.run_node(&mut e); e.to_string() } Err(_) => String::new() };
            return Some(json!({"ok": 1, "t": [text("node", &src), text("node", &out)], "again": cps(&again), "reread": cps(&reread), "then": [cps(&d.to_string()), cps(&then)]}));
        }
        let mut d = KdlDocument::parse_v2(t).ok()?;
        if partly { partly_clear(&mut d, &mut r); }
        let src = d.to_string();
        if marked { mark(&mut d); }
        c.run(&mut d);
        let out = d.to_string();
        c.run(&mut d);
        let again = d.to_string();
        let reread = match KdlDocument::parse_v2(&out) { Ok(mut e) => { if marked { mark(&mut e); } c.run(&mut e); e.to_string() } Err(_) => String::new() };
        c2.run(&mut d);
        let then = match KdlDocument::parse_v2(&out) { Ok(mut e) => { if marked { mark(&mut e); } c2.run(&mut e); e.to_string() } Err(_) => String::new() };
        Some(json!({"ok": 1, "t": [text("doc", &src), text("doc", &out)], "again": cps(&again), "reread": cps(&reread), "then": [cps(&d.to_string()), cps(&then)]}))
    }))
}

/// clear_format_recursive
pub fn rec_clear(t: &str, mode: &str) -> Option<Value> {
    let v = json!({"k": "clear", "t": [text("skip", t), text("skip", "")], "ok": 2, "eq": [], "others": [], "d": ""});
    finish(v, catch(|| {
        match mode {
            "node" => {
                let mut d = KdlNode::parse(t).ok()?;
                d.clear_format_recursive();
                let out = d.to_string();
                let (e1, o1) = match KdlNode::parse(&out) { Ok(mut e) => { e.clear_format_recursive(); (e == d, e.to_string()) } Err(_) => (false, String::new()) };
                Some(json!({"ok": 1, "t": [text(mode, t), text(mode, &out)], "eq": [e1 as u8], "others": [cps(&o1)]}))
            }
            "entry" => {
                let mut d = KdlEntry::parse(t).ok()?;
                d.clear_format();
                let out = d.to_string();
                let (e1, o1) = match KdlEntry::parse(&out) { Ok(mut e) => { e.clear_format(); (e == d, e.to_string()) } Err(_) => (false, String::new()) };
                Some(json!({"ok": 1, "t": [text(mode, t), text(mode, &out)], "eq": [e1 as u8], "others": [cps(&o1)]}))
            }
            "ident" => {
                let mut d = KdlIdentifier::parse(t).ok()?;
                d.clear_format();
                let out = d.to_string();
                let (e1, o1) = match KdlIdentifier::parse(&out) { Ok(mut e) => { e.clear_format(); (e == d, e.to_string()) } Err(_) => (false, String::new()) };
                Some(json!({"ok": 1, "t": [text(mode, t), text(mode, &out)], "eq": [e1 as u8], "others": [cps(&o1)]}))
            }
            _ => {
                let mut d = KdlDocument::parse_v2(t).ok()?;
                d.clear_format_recursive();
                let out = d.to_string();
                let (e1, o1) = match KdlDocument::parse_v2(&out) { Ok(mut e) => { e.clear_format_recursive(); (e == d, e.to_string()) } Err(_) => (false, String::new()) };
                let mut b = rebuild(&d);
                b.clear_format_recursive();
                Some(json!({"ok": 1, "t": [text("doc", t), text("doc", &out)], "eq": [e1 as u8, (b == d) as u8], "others": [cps(&o1), cps(&b.to_string())]}))
            }
        }
    }))
}
