//! Sessions with the real language server, over its standard input and output.
//! A session is a list of messages, planned by the specification or at random;
//! recorded are the messages, the replies, and what the library itself makes of
//! each text.
use crate::gen::Gen;
use crate::proj::*;
use crate::rng::Rng;
use kdl::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

const URIS: [&str; 4] = ["file:///a.kdl", "file:///b.kdl", "untitled:Untitled-1", "file:///dir/%C3%A4.kdl"];
const PATIENCE: Duration = Duration::from_secs(15);
/// sessions in which a reply did not come; after some of these, no more are begun
static SILENT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// the library's diagnostics of a text, as offset, length, severity (as the LSP numbers it), message
fn library(t: &str) -> Value {
    // where the v1 fallback gives up, only the v2 diagnostics are left
    let e = catch(|| KdlDocument::parse(t).err()).unwrap_or_else(|_| KdlDocument::parse_v2(t).err());
    let sev = |s: miette::Severity| match s { miette::Severity::Error => 1, miette::Severity::Warning => 2, miette::Severity::Advice => 4 };
    Value::Array(e.map(|e| e.diagnostics.iter().map(|d| json!([d.span.offset(), d.span.len(), sev(d.severity), d.to_string()])).collect()).unwrap_or_default())
}

struct Server { child: std::process::Child, input: Option<std::process::ChildStdin>, replies: Receiver<Value>, got: HashMap<u64, Value>, err: std::thread::JoinHandle<String> }
impl Server {
    fn start(bin: &str) -> Server {
        let mut child = Command::new(bin).env_remove("RUST_LOG").env("RUST_BACKTRACE", "0").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("server");
        let mut out = BufReader::new(child.stdout.take().unwrap());
        let mut e = child.stderr.take().unwrap();
        let (tx, replies) = channel();
        std::thread::spawn(move || loop {
            let mut n = 0;
            loop {
                let mut l = String::new();
                if out.read_line(&mut l).unwrap_or(0) == 0 { return; }
                let l = l.trim();
                if l.is_empty() { break; }
                if let Some(x) = l.strip_prefix("Content-Length:") { n = x.trim().parse().unwrap_or(0); }
            }
            let mut b = vec![0; n];
            if out.read_exact(&mut b).is_err() { return; }
            if let Ok(v) = serde_json::from_slice::<Value>(&b) { if tx.send(v).is_err() { return; } }
        });
        let err = std::thread::spawn(move || { let mut s = String::new(); let _ = e.read_to_string(&mut s); s });
        Server { input: child.stdin.take(), child, replies, got: HashMap::new(), err }
    }
    fn send(&mut self, v: &Value) {
        let b = v.to_string();
        if let Some(i) = &mut self.input { let _ = i.write_all(format!("Content-Length: {}\r\n\r\n{b}", b.len()).as_bytes()).and_then(|_| i.flush()); }
    }
    /// the reply to a request, if there is one
    fn reply(&mut self, id: u64) -> Option<Value> {
        let end = Instant::now() + PATIENCE;
        loop {
            if let Some(v) = self.got.remove(&id) { return Some(v); }
            let v = self.replies.recv_timeout(end.saturating_duration_since(Instant::now())).ok()?;
            if v["method"].is_null() { if let Some(i) = v["id"].as_u64() { self.got.insert(i, v); } }
        }
    }
    /// closes the input; how the server ended, and whether it said anything more
    fn finish(mut self) -> (String, usize) {
        self.input = None;
        let end = Instant::now() + PATIENCE;
        let how = loop {
            match self.child.try_wait() {
                Ok(Some(s)) if s.success() => break "ok".to_string(),
                Ok(Some(s)) => break format!("{s}"),
                _ if Instant::now() > end => { let _ = self.child.kill(); let _ = self.child.wait(); break "hangs".to_string(); }
                _ => std::thread::sleep(Duration::from_micros(300)),
            }
        };
        let more = self.got.len() + self.replies.try_iter().filter(|v| v["method"].is_null()).count();
        let said = self.err.join().unwrap_or_default();
        let at = said.lines().find_map(|l| l.split("panicked at ").nth(1)).unwrap_or("").trim_end_matches(':').to_string();
        (if how == "ok" || at.is_empty() { how } else { format!("{how}, panicked at {at}") }, more)
    }
}

fn reading(v: Option<Value>) -> Value {
    let Some(v) = v else { return json!({"k": "silent", "dg": []}) };
    if !v["error"].is_null() { return json!({"k": "error", "dg": []}); }
    let r = &v["result"];
    if r["kind"] != "full" { return json!({"k": "value", "dg": []}); }
    let n = |v: &Value| v.as_u64().map(|x| json!(x)).unwrap_or(json!(999999));
    let empty = vec![];
    let items = r["items"].as_array().unwrap_or(&empty);
    json!({"k": "report", "dg": items.iter().map(|d| {
        let (a, b) = (&d["range"]["start"], &d["range"]["end"]);
        json!([n(&a["line"]), n(&a["character"]), n(&b["line"]), n(&b["character"]), d["severity"].as_u64().unwrap_or(0), d["message"].as_str().unwrap_or("?")])
    }).collect::<Vec<_>>()})
}

/// What the server asks of its clients: how they tell changes (0: not at all, 1: whole texts, 2: edits),
/// whether they tell about opened and closed documents, whether they tell about saved ones (1: without the
/// text, 2: with it), whether they can ask for diagnostics, and whether columns are in UTF-16 units.
fn announced(v: &Value) -> [u64; 5] {
    let c = &v["result"]["capabilities"];
    let s = &c["textDocumentSync"];
    let save = &s["save"];
    let short = s.as_u64();
    [short.or(s["change"].as_u64()).unwrap_or(0), (short.is_some_and(|k| k > 0) || s["openClose"] == true) as u64,
     if save["includeText"] == true { 2 } else if save == true || save.is_object() { 1 } else { 0 },
     c["diagnosticProvider"].is_object() as u64, (c["positionEncoding"].is_null() || c["positionEncoding"] == "utf-16") as u64]
}

/// The line and column of a character of a text.
fn position(t: &[char], at: usize) -> Value {
    let (mut line, mut col) = (0, 0);
    for i in 0..at {
        match t[i] {
            '\r' if t.get(i + 1) == Some(&'\n') => col += 1,
            '\r' | '\n' => { line += 1; col = 0; }
            c => col += c.len_utf16(),
        }
    }
    json!({"line": line, "character": col})
}
/// The edit that makes one text of another.
fn an_edit(old: &str, new: &str) -> Value {
    let (a, b): (Vec<char>, Vec<char>) = (old.chars().collect(), new.chars().collect());
    let from = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let same = a[from..].iter().rev().zip(b[from..].iter().rev()).take_while(|(x, y)| x == y).count();
    // not in the middle of a line break
    let from = from - (from > 0 && a[from - 1] == '\r') as usize;
    let same = if same > 0 && a[a.len() - same] == '\n' { same - 1 } else { same };
    json!({"range": {"start": position(&a, from), "end": position(&a, a.len() - same)}, "text": b[from..b.len() - same].iter().collect::<String>()})
}

/// A session.  Messages: o, u, xs (texts); burst: everything is sent before any reply is awaited.
pub fn session(bin: &str, plan: &[Value], burst: bool) -> Option<Value> {
    use std::sync::atomic::Ordering::Relaxed;
    if SILENT.load(Relaxed) > 10 { return None; }
    let mut s = Server::start(bin);
    let mut texts: Vec<String> = vec![];
    let mut evs = vec![];
    let mut pending = vec![];
    let mut told = [1, 1, 2, 1, 1];
    let mut latest: std::collections::HashMap<String, String> = Default::default();
    for (i, p) in plan.iter().enumerate() {
        let o = p["o"].as_str().unwrap();
        let u = p["u"].as_str().unwrap_or("");
        let mut xs: Vec<String> = p["xs"].as_array().into_iter().flatten().map(|t| match t.as_str() {
            Some(t) => t.to_string(),
            None => t.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect(),
        }).collect();
        if o == "save" && told[2] < 2 { xs.clear(); }
        let ids: Vec<usize> = xs.iter().map(|x| match texts.iter().position(|t| t == x) { Some(i) => i + 1, None => { texts.push(x.clone()); texts.len() } }).collect();
        let id = i as u64 + 1;
        let doc = json!({"uri": u});
        let mut changes = vec![];
        if o == "change" {
            for x in &xs {
                changes.push(match latest.get(u) { Some(t) if told[0] == 2 => an_edit(t, x), _ => json!({"text": x}) });
                latest.insert(u.into(), x.clone());
            }
        } else if o == "open" || (o == "save" && !xs.is_empty()) { latest.insert(u.into(), xs[0].clone()); } else if o == "close" { latest.remove(u); }
        let (req, m, params) = match o {
            "init" => (true, "initialize", json!({"capabilities": {}, "processId": null, "rootUri": null})),
            "inited" => (false, "initialized", json!({})),
            "open" => (false, "textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "kdl", "version": i, "text": xs[0]}})),
            "change" => (false, "textDocument/didChange", json!({"textDocument": {"uri": u, "version": i}, "contentChanges": changes})),
            "save" => (false, "textDocument/didSave", if xs.is_empty() { json!({"textDocument": doc}) } else { json!({"textDocument": doc, "text": xs[0]}) }),
            "close" => (false, "textDocument/didClose", json!({"textDocument": doc})),
            "diag" => (true, "textDocument/diagnostic", json!({"textDocument": doc})),
            "shut" => (true, "shutdown", Value::Null),
            "ask" => (true, if i % 2 == 0 { "textDocument/hover" } else { "kdl/unknown" }, json!({"textDocument": doc, "position": {"line": 0, "character": 0}})),
            "bad" => (true, "textDocument/diagnostic", json!({"textDocument": 5})),
            "note" => (false, match i % 3 { 0 => "$/setTrace", 1 => "workspace/didChangeConfiguration", _ => "kdl/unknown" }, json!({"value": "off", "settings": null})),
            "badnote" => (false, "textDocument/didChange", json!({"textDocument": doc})),
            _ => panic!("message {o}"),
        };
        let mut v = json!({"jsonrpc": "2.0", "method": m});
        if !params.is_null() { v["params"] = params; }
        if req { v["id"] = json!(id); }
        // a client does what the server asked for
        let unasked = match o { "change" => told[0] == 0, "open" | "close" => told[1] == 0, "save" => told[2] == 0, _ => false };
        if !unasked { s.send(&v); }
        let mut e = json!({"o": o, "u": u, "xs": ids, "r": {"k": "none", "dg": []}});
        if req {
            // the protocol has the client wait for these two
            if !burst || o == "init" || o == "shut" {
                let reply = s.reply(id);
                if o == "init" && reply.as_ref().is_some_and(|v| v["error"].is_null()) { told = announced(reply.as_ref().unwrap()); }
                e["r"] = reading(reply);
                if e["r"]["k"] == "silent" { evs.push(e); break; }
            } else { pending.push((evs.len(), id)); }
        }
        evs.push(e);
    }
    for (at, id) in pending { evs[at]["r"] = reading(s.reply(id)); if evs[at]["r"]["k"] == "silent" { evs.truncate(at + 1); break; } }
    if texts.is_empty() { texts.push(String::new()); }
    if evs.iter().any(|e| e["r"]["k"] == "silent") { SILENT.fetch_add(1, Relaxed); }
    let (end, more) = s.finish();
    Some(json!({"k": "lsp", "burst": burst, "t": texts.iter().map(|t| json!({"m": "doc", "x": cps(t)})).collect::<Vec<_>>(), "lib": texts.iter().map(|t| library(t)).collect::<Vec<_>>(),
           "ev": evs, "told": told, "end": end, "more": more, "d": serde_json::to_string(plan).unwrap()}))
}

fn a_text(g: &mut Gen) -> String {
    let odd = ["\u{85}", "\u{b}", "\u{c}", "\u{2028}", "\u{2029}", "\r", "\r\n", "\n", "\u{1F600}", "\u{e9}", "\u{20AC}", "\u{301}", "\u{FEFF}"];
    let bad = ["#no", "\"a", "1.", "a=", "(t)", "/-", "{", "}", "\\", "\u{1F600} =", "(true", "\"\\q\"", "0x", "/*", "#\"", "a\"b\""];
    if g.r.chance(3) {
        // far down, far right
        let (k, c) = (g.r.below(60), g.r.below(300));
        let s: String = (0..k).map(|_| *g.r.pick(&["a\n", "\n", "b 1\r\n", "c;\u{2028}"])).collect();
        return s + &"x \u{e9} ".repeat(c / 4) + *g.r.pick(&bad);
    }
    match g.r.below(6) {
        0 => loop { let d = g.document(); if d.chars().count() < 120 { break d; } },
        1 => (0..g.r.range(0, 3)).map(|i| format!("n{i} {}\n", g.r.below(9))).collect(),
        _ => {
            let mut s = String::new();
            for _ in 0..g.r.range(1, 5) {
                for _ in 0..g.r.range(0, 2) { s.push_str(*g.r.pick(&odd)); }
                if g.r.chance(50) { s.push_str(*g.r.pick(&["a ", "b 1", "\"\u{1F600}\u{e9}\" ", "/*\u{85}\u{1F600}*/ ", "c {\n", "}", "\u{1D11E}=", "x y"])); }
                if g.r.chance(40) { s.push_str(*g.r.pick(&bad)); }
                for _ in 0..g.r.range(0, 2) { s.push_str(*g.r.pick(&odd)); }
                if g.r.chance(40) { s.push_str(*g.r.pick(&["\n", "\r\n", "\r", ";"])); }
            }
            s
        }
    }
}
pub fn random(bin: &str, seed: u64, i: usize) -> Option<Value> {
    let mut g = Gen::new(Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64), "lsp"));
    let texts: Vec<String> = (0..g.r.range(2, 5)).map(|_| a_text(&mut g)).collect();
    let nu = g.r.range(1, URIS.len());
    let mut plan = vec![];
    if g.r.chance(10) { plan.push(json!({"o": "diag", "u": URIS[0]})); }
    if g.r.chance(97) { plan.push(json!({"o": "init"})); plan.push(json!({"o": "inited"})); }
    let mut open = [false; 4];
    for _ in 0..g.r.range(4, 24) {
        let i = g.r.below(nu);
        let u = URIS[i];
        let t = |g: &mut Gen| g.r.pick(&texts).clone();
        let k = g.r.below(24);
        // mostly what the protocol allows
        let k = if !open[i] && (4..=12).contains(&k) && g.r.chance(90) { 0 } else { k };
        if k < 4 { open[i] = true; } else if k == 11 || k == 12 { open[i] = false; }
        plan.push(match k {
            0..=3 => json!({"o": "open", "u": u, "xs": [t(&mut g)]}),
            4..=8 => { let k = [1, 1, 1, 2, 3, 0][g.r.below(6)]; json!({"o": "change", "u": u, "xs": (0..k).map(|_| t(&mut g)).collect::<Vec<_>>()}) }
            9..=10 => { let k = g.r.below(2); json!({"o": "save", "u": u, "xs": (0..k).map(|_| t(&mut g)).collect::<Vec<_>>()}) }
            11..=12 => json!({"o": "close", "u": u}),
            13 => json!({"o": *g.r.pick(&["ask", "bad", "note", "badnote"]), "u": u}),
            _ => json!({"o": "diag", "u": u}),
        });
    }
    for u in &URIS[..nu] { plan.push(json!({"o": "diag", "u": u})); }
    if g.r.chance(30) { plan.push(json!({"o": "shut"})); plan.push(json!({"o": "diag", "u": URIS[0]})); }
    session(bin, &plan, g.r.chance(50))
}
