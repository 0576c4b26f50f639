//! KDL v1: texts, what the v1 parser (a crate of its own, outside the code under
//! verification) reads in them, and runs of the entry points that involve it.
use crate::proj::{catch, cps, float, int};
use crate::rng::Rng;
use kdl::*;
use serde_json::{json, Value};
use std::str::FromStr;

// ---- what the v1 parser reads -------------------------------------------------
fn opt(i: Option<&kdlv1::KdlIdentifier>) -> Value { match i { None => json!([]), Some(i) => json!([cps(i.value())]) } }
fn val(v: &kdlv1::KdlValue) -> Value {
    use kdlv1::KdlValue::*;
    match v {
        RawString(s) | String(s) => json!({"t":"s","s":cps(s)}),
        Base2(i) | Base8(i) | Base10(i) | Base16(i) => int(*i as i128),
        Base10Float(f) => float(*f),
        Bool(b) => json!({"t":"b","b": if *b {1} else {0}}),
        Null => json!({"t":"z"}),
    }
}
fn entry(e: &kdlv1::KdlEntry) -> Value { json!({"k": opt(e.name()), "y": opt(e.ty()), "v": val(e.value())}) }
fn node(n: &kdlv1::KdlNode) -> Value {
    json!({"y": opt(n.ty()), "m": cps(n.name().value()), "e": n.entries().iter().map(entry).collect::<Vec<_>>(),
           "c": match n.children() { None => json!([]), Some(d) => json!([nodes(d)]) }})
}
fn nodes(d: &kdlv1::KdlDocument) -> Value { Value::Array(d.nodes().iter().map(node).collect()) }

/// {ok, doc}: what the v1 parser makes of a text
pub fn reference(mode: &str, t: &str) -> Value {
    let r = catch(|| match mode {
        "doc" => kdlv1::KdlDocument::from_str(t).ok().map(|d| nodes(&d)),
        "node" => kdlv1::KdlNode::from_str(t).ok().map(|n| json!([node(&n)])),
        "entry" => kdlv1::KdlEntry::from_str(t).ok().map(|e| entry(&e)),
        _ => kdlv1::KdlIdentifier::from_str(t).ok().map(|i| cps(i.value())),
    });
    match r { Err(_) => json!({"ok": 2, "doc": []}), Ok(None) => json!({"ok": 0, "doc": []}), Ok(Some(d)) => json!({"ok": 1, "doc": d}) }
}

// ---- the entry points -----------------------------------------------------------
/// {ok, doc, out, err}
fn outcome<T>(f: impl FnOnce() -> Result<T, KdlError>, content: impl FnOnce(&T) -> Value, print: impl FnOnce(&T) -> String) -> Value {
    match catch(|| f().map(|x| (content(&x), print(&x)))) {
        Err(_) => json!({"ok": 2, "doc": [], "out": [], "err": []}),
        Ok(Err(e)) => json!({"ok": 0, "doc": [], "out": [], "err": e.diagnostics.iter().map(|d| json!(format!("{:?}", (d.span.offset(), d.span.len(), &d.message, &d.label, &d.help, d.severity)))).collect::<Vec<_>>()}),
        Ok(Ok((d, s))) => json!({"ok": 1, "doc": d, "out": cps(&s), "err": []}),
    }
}
const NS: crate::proj::Opts = crate::proj::Opts { spans: true };
fn c_doc(d: &KdlDocument) -> Value { json!({"c": crate::proj::nodes(d, crate::proj::Opts { spans: false }), "x": crate::proj::nodes(d, NS)}) }
fn c_node(n: &KdlNode) -> Value { json!({"c": [crate::proj::node(n, crate::proj::Opts { spans: false })], "x": crate::proj::node(n, NS)}) }
fn c_entry(e: &KdlEntry) -> Value { json!({"c": crate::proj::entry(e, crate::proj::Opts { spans: false }), "x": crate::proj::entry(e, NS)}) }
fn c_ident(i: &KdlIdentifier) -> Value { json!({"c": cps(i.value()), "x": [i.span().offset(), i.span().len()]}) }
macro_rules! points { ($t:ty, $c:expr, $m:expr, $s:expr) => {{
    let mut v = json!({
        "parse": outcome(|| <$t>::parse($s), $c, |x| x.to_string()),
        "from": outcome(|| <$t>::from_str($s), $c, |x| x.to_string()),
        "full": cfg!(feature = "full") as u8,
        "v1": outcome(|| V1::<$t>::parse_v1($s), $c, |x| x.to_string()),
        "kv1": reference($m, $s),
    });
    if !cfg!(feature = "full") { v["v1"]["ok"] = json!(3); v["kv1"]["ok"] = json!(3); }
    v
}} }
/// the v1 entry points, which the build without the feature does not have
struct V1<T>(std::marker::PhantomData<T>);
macro_rules! v1parse { ($($t:ty),*) => { $(impl V1<$t> {
    #[cfg(feature = "full")]
    fn parse_v1(s: &str) -> Result<$t, KdlError> { <$t>::parse_v1(s) }
    #[cfg(not(feature = "full"))]
    fn parse_v1(s: &str) -> Result<$t, KdlError> { <$t>::parse(s) }
})* } }
v1parse!(KdlDocument, KdlNode, KdlEntry, KdlIdentifier);

/// How the entry points treat one text; the second text puts it into a document.
pub fn rec_points(mode: &str, t: &str) -> Value {
    let mut v = match mode {
        "doc" => points!(KdlDocument, c_doc, "doc", t),
        "node" => points!(KdlNode, c_node, "node", t),
        "entry" => points!(KdlEntry, c_entry, "entry", t),
        _ => points!(KdlIdentifier, c_ident, "ident", t),
    };
    let within = match mode { "entry" => format!("n {t}"), _ => t.to_string() };
    v["k"] = json!("points");
    v["d"] = json!(mode);
    v["t"] = json!([{"m": mode, "x": cps(t)}, {"m": "doc", "x": cps(&within)}]);
    v["v2"] = outcome(|| KdlDocument::parse_v2(&within), c_doc, |x| x.to_string());
    v
}

// ---- conversion -------------------------------------------------------------------
/// v1_to_v2 of a v1 text: the reader reads what comes out
#[cfg(feature = "full")]
pub fn rec_up(t: &str) -> Value {
    let src = reference("doc", t);
    let r = catch(|| KdlDocument::v1_to_v2(t).ok());
    let (ok, out) = match r { Err(_) => (2, String::new()), Ok(None) => (0, String::new()), Ok(Some(s)) => (1, s) };
    let steps = catch(|| KdlDocument::parse_v1(t).ok().map(|mut d| {
        let o = crate::proj::Opts { spans: false };
        let a = crate::proj::nodes(&d, o);
        d.ensure_v2();
        let b = crate::proj::nodes(&d, o);
        let s = d.to_string();
        d.ensure_v2();
        json!({"before": a, "after": b, "out": cps(&s), "twice": cps(&d.to_string())})
    })).unwrap_or(None).unwrap_or(json!({"before": [], "after": [], "out": [], "twice": []}));
    json!({"k": "up", "src": cps(t), "ref": src, "ok": ok, "t": [{"m": "doc", "x": cps(&out)}], "steps": steps})
}
/// v2_to_v1 of a v2 text: the reader reads the source, the v1 parser what comes out
#[cfg(feature = "full")]
pub fn rec_down(t: &str) -> Value {
    let r = catch(|| KdlDocument::v2_to_v1(t).ok());
    let (ok, out) = match r { Err(_) => (2, String::new()), Ok(None) => (0, String::new()), Ok(Some(s)) => (1, s) };
    let rf = if ok == 1 { reference("doc", &out) } else { json!({"ok": 0, "doc": []}) };
    let steps = catch(|| KdlDocument::parse_v2(t).ok().map(|mut d| {
        let o = crate::proj::Opts { spans: false };
        d.ensure_v1();
        let b = crate::proj::nodes(&d, o);
        let s = d.to_string();
        d.ensure_v1();
        let twice = d.to_string();
        d.ensure_v2();
        json!({"after": b, "out": cps(&s), "twice": cps(&twice), "back": cps(&d.to_string())})
    })).unwrap_or(None).unwrap_or(json!({"after": [], "out": [], "twice": [], "back": []}));
    let back = steps["back"].clone();
    json!({"k": "down", "out": cps(&out), "ref": rf, "ok": ok, "t": [{"m": "doc", "x": cps(t)}, {"m": "doc", "x": back}], "steps": steps})
}

/// Documents that did not (only) come from a text of the one version or the other.
#[cfg(feature = "full")]
pub fn rec_made(seed: u64, i: usize, v1: &str, v2: &str) -> Value {
    let mut r = Rng::new(seed, &format!("convert {i}"));
    let o = crate::proj::Opts { spans: false };
    let start = catch(|| match i % 3 {
        0 => crate::make::document(&mut r, 2),
        k => {
            let d = if k == 1 { KdlDocument::parse_v2(v2) } else { KdlDocument::parse_v1(v1) };
            let mut d = d.unwrap_or_default();
            crate::make::mix(&mut d, &mut r, true);
            d
        }
    });
    let Ok(d) = start else { return json!({"k": "none", "t": [{"m": "doc", "x": []}]}) };
    let content = crate::proj::nodes(&d, o);
    let one = |up: bool| catch(|| {
        let mut d = d.clone();
        if up { d.ensure_v2() } else { d.ensure_v1() }
        (crate::proj::nodes(&d, o), d.to_string())
    });
    let (up, down) = (one(true), one(false));
    let ok = if up.is_err() || down.is_err() { 2 } else { 1 };
    let (up, down) = (up.unwrap_or_default(), down.unwrap_or_default());
    json!({"k": "made", "ok": ok, "doc": content, "afters": [up.0, down.0], "out": cps(&down.1), "ref": reference("doc", &down.1),
           "t": [{"m": "doc", "x": cps(&up.1)}]})
}

// ---- texts ---------------------------------------------------------------------------
pub struct Gen { r: Rng, /* percentages */ uni: usize, com: usize, esc: usize, sd: usize, types: usize, props: usize, kids: usize, semi: usize, quote: usize, nodes: usize, ents: usize }
const SPS: [&str; 12] = ["\t", "\u{A0}", "\u{1680}", "\u{2000}", "\u{2003}", "\u{2009}", "\u{200A}", "\u{202F}", "\u{205F}", "\u{3000}", "\u{FEFF}", "  "];
const NLS: [&str; 7] = ["\r\n", "\r", "\n", "\u{85}", "\u{c}", "\u{2028}", "\u{2029}"];
impl Gen {
    pub fn new(r: Rng) -> Self { let mut g = Gen { r, uni: 0, com: 0, esc: 0, sd: 0, types: 0, props: 0, kids: 0, semi: 0, quote: 0, nodes: 2, ents: 2 }; g.restyle(); g }
    fn restyle(&mut self) {
        let r = &mut self.r;
        self.uni = *r.pick(&[0, 0, 0, 5, 30]); self.com = *r.pick(&[0, 5, 30]); self.esc = *r.pick(&[0, 0, 5, 25]); self.sd = *r.pick(&[0, 0, 10, 35]);
        self.types = *r.pick(&[0, 10, 40]); self.props = *r.pick(&[10, 40, 70]); self.kids = *r.pick(&[0, 20, 50]); self.semi = *r.pick(&[0, 20, 60]);
        self.quote = *r.pick(&[0, 20, 70]); self.nodes = *r.pick(&[1, 2, 4]); self.ents = *r.pick(&[1, 2, 4]);
    }
    fn nl(&mut self) -> String { if self.r.chance(self.uni) { self.r.pick(&NLS).to_string() } else { "\n".into() } }
    fn usp(&mut self) -> String { if self.r.chance(self.uni) { self.r.pick(&SPS).to_string() } else { " ".into() } }
    fn block(&mut self, d: usize) -> String {
        let mut s = String::from("/*");
        for _ in 0..self.r.below(3) {
            if d < 2 && self.r.chance(30) { s += &self.block(d + 1); } else { s += self.r.pick(&["c", " x ", "\"", "true", "//", "\\", "\n", " * ", "{", "é", "/ ", "#"]); }
        }
        s + "*/"
    }
    fn line(&mut self) -> String { let c = self.r.pick(&["", " c", " \"q", "/-x", " a { b; }", " true", "é", "\\", "*/"]).to_string(); format!("//{c}{}", self.nl()) }
    fn ws(&mut self) -> String { if self.r.chance(self.com) { self.block(0) } else { self.usp() } }
    fn sp1(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..*self.r.pick(&[1, 1, 1, 2]) {
            if self.r.chance(self.esc) {
                s += "\\";
                if self.r.chance(30) { s += &self.ws(); }
                s += &if self.r.chance(self.com) { self.line() } else { self.nl() };
                if self.r.chance(50) { s += &self.usp(); }
            } else { s += &self.ws(); }
        }
        s
    }
    fn lines(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..*self.r.pick(&[0, 0, 0, 1, 2]) {
            s += &match self.r.below(4) { 0 => self.nl(), 1 if self.com > 0 => self.line(), _ => self.ws() };
        }
        s
    }
    pub fn ident(&mut self) -> String {
        if self.r.chance(self.quote / 2) { return if self.r.chance(50) { self.quoted() } else { self.raw() }; }
        self.r.pick(&["a", "b", "foo", "node", "r", "rr", "foo-bar", "-", "--", "-a", "+x", "a.b", ".x", "..", "é", "😀", "a#b", "#a", "#true", "#", "a'b", "@", "x1", "inf", "nan", "-inf", "true1", "nullx", "a_b", "|", "!?", "$", "%&", "a:b", "~", "^", "\u{b}x", "-_1", ".a1"]).to_string()
    }
    fn quoted(&mut self) -> String {
        let mut s = String::from("\"");
        for _ in 0..self.r.few(5, 40) {
            s += self.r.pick(&["a", "foo", " ", "\\n", "\\\"", "\\\\", "\\/", "/", "\\t", "\\b", "\\f", "\\r", "\\u{e9}", "\\u{1F600}", "\\u{0}", "\\u{7f}", "\\u{000041}", "é", "\n", "\n  ", "\t", "#", "r\"".trim_end_matches('"'), "true", "1", "{", "=", "\u{2028}", "\r\n", "\u{85}", "'", "\u{feff}", "\u{7f}", "\u{200e}", "\u{b}", "$", "\\u{2028}"]);
        }
        s + "\""
    }
    fn raw(&mut self) -> String {
        let k = self.r.few(3, 9);
        let mut s = String::new();
        for _ in 0..self.r.few(5, 40) { s += self.r.pick(&["a", "foo", " ", "\\", "\\n", "/", "\n", "  ", "\n ", "é", "#", "\"", "\"\"", "\"#", "true", "\u{feff}", "\u{1}", "\r"]); }
        let h = "#".repeat(k);
        while s.contains(&format!("\"{h}")) { s = s.replace(&format!("\"{h}"), ""); }
        format!("r{h}\"{s}\"{h}")
    }
    fn number(&mut self) -> String {
        let sign = *self.r.pick(&["", "", "", "-", "+"]);
        let d = |r: &mut Rng| -> String { let k = 1 + r.few(4, 40); let mut s = String::new(); for i in 0..k { s.push((b'0' + r.below(10) as u8) as char); if r.chance(10) || (i + 1 == k && r.chance(4)) { s.push('_'); } } s };
        let b = match self.r.below(10) {
            0 => format!("0x{}", self.r.pick(&["0", "ff", "dead_BEEF", "7fffffffffffffff", "1_"])),
            1 => format!("0o{}", self.r.pick(&["0", "17", "7_7", "777777777777777777777"])),
            2 => format!("0b{}", self.r.pick(&["0", "1", "1_0", "101"])),
            3 | 4 => format!("{}.{}", d(&mut self.r), d(&mut self.r)),
            5 => format!("{}.{}{}{}{}", d(&mut self.r), d(&mut self.r), self.r.pick(&["e", "E"]), self.r.pick(&["", "-", "+"]), d(&mut self.r).trim_matches('_').chars().take(2).collect::<String>()),
            6 => format!("{}e{}{}", d(&mut self.r), self.r.pick(&["", "-"]), self.r.below(40)),
            7 => self.r.pick(&["9223372036854775807", "0", "00", "007", "1e308", "1e400", "5e-324", "1e-400", "0.1", "123456789.000", "4.9406564584124654e-324", "1.0"]).to_string(),
            _ => d(&mut self.r),
        };
        format!("{sign}{b}")
    }
    fn value(&mut self) -> String {
        match self.r.below(10) { 0 | 1 | 2 => self.quoted(), 3 | 4 => self.raw(), 5 => self.r.pick(&["true", "false", "null"]).to_string(), _ => self.number() }
    }
    fn ty(&mut self) -> String { if self.r.chance(self.types) { format!("({})", self.ident()) } else { String::new() } }
    pub fn entry(&mut self) -> String {
        let k = if self.r.chance(self.props) { format!("{}=", self.ident()) } else { String::new() };
        format!("{k}{}{}", self.ty(), self.value())
    }
    fn kids(&mut self, d: usize) -> String { let n = self.r.below(3); format!("{{{}}}", self.block_of(d, n)) }
    fn block_of(&mut self, d: usize, n: usize) -> String {
        let mut s = String::new();
        for _ in 0..n { s += &self.full_node(d); }
        s + &self.lines()
    }
    pub fn node(&mut self, d: usize) -> String {
        let mut s = format!("{}{}", self.ty(), self.ident());
        for _ in 0..self.r.few(self.ents + 1, 24) {
            s += &self.sp1();
            if self.r.chance(self.sd) { s += "/-"; if self.r.chance(20) { s += &self.usp(); } s += &self.entry(); if self.r.chance(70) { s += &self.usp(); } else { continue; } }
            s += &self.entry();
        }
        if d > 0 && self.r.chance(self.kids) {
            if self.r.chance(self.sd) { s += " /-"; s += &self.kids(d - 1); }
            if self.r.chance(80) { s += &self.sp1(); }
            s += &self.kids(d - 1);
            if self.r.chance(self.sd) { s += "/-"; s += &self.kids(d - 1); }
        }
        s
    }
    fn term(&mut self) -> String {
        let mut s = if self.r.chance(15) { self.sp1() } else { String::new() };
        s += &if self.r.chance(self.semi) { let x = if self.r.chance(60) { self.nl() } else { String::new() }; format!(";{x}") } else if self.r.chance(self.com) { self.line() } else { self.nl() };
        s
    }
    fn full_node(&mut self, d: usize) -> String {
        let mut s = self.lines();
        if self.r.chance(self.sd) { s += "/-"; }
        s += &self.node(d);
        s + &self.term()
    }
    pub fn document(&mut self) -> String {
        self.restyle();
        let n = self.r.few(self.nodes + 1, 20);
        let d = if self.r.chance(3) { 10 } else { 2 };
        if d > 2 { (self.kids, self.ents) = (80, 1); }
        let mut s = self.block_of(d, n);
        if self.r.chance(25) { s += &self.lines(); s += &self.node(1); }
        s
    }
}
/// v1 texts: whole documents, nodes, entries or identifiers, a part of them spoilt
pub fn texts(kind: &str, seed: u64, n: usize) -> Vec<String> {
    let mut g = Gen::new(Rng::new(seed, kind));
    let mut m = crate::gen::Gen::new(Rng::new(seed, "v1mutate"));
    let mut v = vec![];
    while v.len() < n {
        g.restyle();
        let mut s = match kind {
            "v1" => g.document(),
            "v1node" => { let a = g.lines(); let b = g.node(1); let c = if g.r.chance(60) { g.term() } else { String::new() }; format!("{a}{b}{c}") }
            "v1ent" => { let a = if g.r.chance(40) { g.sp1() } else { String::new() }; let b = g.entry(); let c = if g.r.chance(30) { g.sp1() } else { String::new() }; format!("{a}{b}{c}") }
            _ => if g.r.chance(40) { g.ident() } else { g.value() },
        };
        if g.r.chance(12) { s = m.mutate(&s, "a true r#\"x\"# /- \\/ #true"); }
        if s.chars().count() <= 900 { v.push(s); }
    }
    v
}
