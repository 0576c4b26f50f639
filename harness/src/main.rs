mod corpus;
mod edit;
mod eq;
mod format;
mod gen;
#[cfg(feature = "full")]
mod lsp;
mod make;
mod proj;
mod rng;
#[cfg(feature = "full")]
mod serde;
mod v1;
use kdl::*;
use miette::Diagnostic;
use proj::*;
use serde_json::{json, Value};
use std::io::Write;

fn par<T: Send + Sync, R: Send>(items: &[T], f: impl Fn(&T) -> R + Sync) -> Vec<R> {
    let n = 8usize;
    let chunk = (items.len() + n - 1) / n.max(1);
    if items.is_empty() { return vec![]; }
    std::thread::scope(|s| {
        let hs: Vec<_> = items.chunks(chunk.max(1)).map(|c| {
            let f = &f;
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || c.iter().map(f).collect::<Vec<R>>()).unwrap()
        }).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    })
}

fn write_lines(path: &str, lines: &[Value]) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for l in lines { serde_json::to_writer(&mut f, l).unwrap(); f.write_all(b"\n").unwrap(); }
}

fn text(m: &str, x: &str) -> Value { json!({"m": m, "x": cps(x)}) }
fn len(s: &str) -> usize { s.chars().count() }

/// One call of the parse function for `mode` (document: parse_v2).
fn rec_parse(mode: &str, t: &str, o: Opts) -> Value {
    let mut v = json!({"k": "read", "t": [text(mode, t)], "ok": 2, "doc": [], "out": [], "pieces": [], "len": [0, 0]});
    let r = catch(|| match mode {
        "doc" => KdlDocument::parse_v2(t).ok().map(|d| {
            let mut p = vec![len(&d.format().map(|f| f.leading.clone()).unwrap_or_default())];
            p.extend(d.nodes().iter().map(|n| len(&n.to_string())));
            p.push(len(&d.format().map(|f| f.trailing.clone()).unwrap_or_default()));
            (nodes(&d, o), d.to_string(), json!(p), json!([d.span().offset(), d.span().len()]), [d.len(), d.is_empty() as usize])
        }),
        "node" => KdlNode::parse(t).ok().map(|n| (json!([node(&n, o)]), n.to_string(), json!([]), json!([]), [n.to_string().len(), n.to_string().is_empty() as usize])),
        "entry" => KdlEntry::parse(t).ok().map(|e| (entry(&e, o), e.to_string(), json!([]), json!([]), [e.len(), e.is_empty() as usize])),
        "ident" => KdlIdentifier::parse(t).ok().map(|i| (cps(i.value()), i.to_string(), json!([]), json!([i.span().offset(), i.span().len()]), [i.len(), i.is_empty() as usize])),
        _ => panic!("mode"),
    });
    match r {
        Err((at, m)) => { v["at"] = json!(at); v["msg"] = json!(m); }
        Ok(None) => v["ok"] = json!(0),
        Ok(Some((d, out, p, sp, ln))) => { v["len"] = json!(ln); v["ok"] = json!(1); v["doc"] = d; v["out"] = cps(&out); v["pieces"] = p; if o.spans { v["ds"] = sp; v["u"] = json!(t.chars().map(|c| c.len_utf8()).collect::<Vec<_>>()); } }
    }
    v
}

/// Text that a diagnostic's source gives for a span.
fn part(s: Option<&dyn miette::SourceCode>, span: &miette::SourceSpan) -> Option<Vec<u8>> { s?.read_span(span, 0, 0).ok().map(|c| c.data().to_vec()) }
/// Where and how a diagnostic shows itself: its one label, and whether all of it is what the fields say.
fn shown(d: &KdlDiagnostic) -> Value {
    let labels: Vec<_> = d.labels().map(|l| l.collect()).unwrap_or_default();
    let same = d.severity() == Some(d.severity) && d.help().map(|h| h.to_string()) == d.help && d.message.as_ref().map(|m| *m == d.to_string()).unwrap_or(true)
        && labels.iter().all(|l| l.label() == Some(d.label.as_deref().unwrap_or("here")))
        && labels.iter().all(|l| !d.input.is_char_boundary(l.offset()) || d.input.get(l.offset()..l.offset() + l.len()).map(|x| part(d.source_code(), l.inner()).is_some_and(|y| y.starts_with(x.as_bytes()))).unwrap_or(true));
    json!([labels.iter().map(|l| json!([l.offset(), l.len()])).collect::<Vec<_>>(), same as u8])
}

/// What a parse entry point returned: accepted or its diagnostics.
fn rec_diag(ep: &str, t: &str) -> Value {
    let diags = |e: &KdlError| json!(e.diagnostics.iter().map(|d| json!([d.span.offset(), d.span.len(), (d.severity == miette::Severity::Error) as u8,
        (d.message.as_ref().map(|m| !m.is_empty()).unwrap_or(false) || d.label.as_ref().map(|m| !m.is_empty()).unwrap_or(false)) as u8, (*d.input == *t) as u8, shown(d)])).collect::<Vec<_>>());
    let r = catch(|| {
        let e: Option<KdlError> = match ep {
            "doc-v2" => KdlDocument::parse_v2(t).err(),
            "doc" => KdlDocument::parse(t).err(),
            "node" => KdlNode::parse(t).err(),
            "entry" => KdlEntry::parse(t).err(),
            "ident" => KdlIdentifier::parse(t).err(),
            #[cfg(feature = "full")]
            "doc-v1" => KdlDocument::parse_v1(t).err(),
            #[cfg(feature = "full")]
            "node-v1" => KdlNode::parse_v1(t).err(),
            #[cfg(feature = "full")]
            "entry-v1" => KdlEntry::parse_v1(t).err(),
            #[cfg(feature = "full")]
            "ident-v1" => KdlIdentifier::parse_v1(t).err(),
            #[cfg(feature = "full")]
            "v1-to-v2" => KdlDocument::v1_to_v2(t).err(),
            #[cfg(feature = "full")]
            "v2-to-v1" => KdlDocument::v2_to_v1(t).err(),
            _ => panic!("entry point"),
        };
        e.map(|e| {
            let rel: Vec<_> = e.related().map(|r| r.map(|d| d.to_string()).collect()).unwrap_or_default();
            let same = *e.input == *t && rel == e.diagnostics.iter().map(|d| d.to_string()).collect::<Vec<_>>() && part(e.source_code(), &(0, t.len()).into()).as_deref() == Some(t.as_bytes());
            (diags(&e), same as u8)
        })
    });
    let mut v = json!({"k": "diag", "d": ep, "t": [text("skip", t)], "ok": 2, "dg": [], "same": 1, "u": t.chars().map(|c| c.len_utf8()).collect::<Vec<_>>()});
    match r {
        Err((at, m)) => { v["at"] = json!(at); v["msg"] = json!(m); }
        Ok(None) => v["ok"] = json!(1),
        Ok(Some((d, same))) => { v["ok"] = json!(0); v["dg"] = d; v["same"] = json!(same); }
    }
    v
}

static WATCH: std::sync::Mutex<Vec<(std::thread::ThreadId, std::time::Instant, String)>> = std::sync::Mutex::new(vec![]);
fn watched<R>(t: &str, f: impl FnOnce() -> R) -> R {
    let id = std::thread::current().id();
    let mut w = WATCH.lock().unwrap();
    w.retain(|x| x.0 != id);
    w.push((id, std::time::Instant::now(), t.to_string()));
    drop(w);
    let r = f();
    WATCH.lock().unwrap().retain(|x| x.0 != id);
    r
}
/// Ends the run with the one record of a text that takes more than `secs` seconds.
fn watchdog(out: String, secs: u64, make: impl Fn(&str) -> Value + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let w = WATCH.lock().unwrap();
        if let Some(x) = w.iter().find(|x| x.1.elapsed().as_secs() >= secs) {
            write_lines(&out, &[make(&x.2)]);
            std::process::exit(0);
        }
    });
}

fn main() {
    quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "parse" => {
            // parse MODE CORPUS SEED OUT
            let texts = corpus::build(&a[3], a[4].parse().unwrap());
            let (mode, spans) = match a[2].strip_prefix("spans-") { Some(m) => (m, true), None => (&a[2][..], false) };
            write_lines(&a[5], &par(&texts, |t| rec_parse(mode, t, Opts { spans })));
        }
        "diag" => {
            // diag EP CORPUS SEED OUT
            let texts = corpus::build(&a[3], a[4].parse().unwrap());
            let ep = a[2].clone();
            watchdog(a[5].clone(), 20, move |t| json!({"k": "diag", "d": ep, "t": [text("skip", t)], "ok": 3, "dg": [], "same": 1, "u": t.chars().map(|c| c.len_utf8()).collect::<Vec<_>>()}));
            write_lines(&a[5], &par(&texts, |t| watched(t, || rec_diag(&a[2], t))));
        }
        "huge" => {
            // huge EP NAME OUT: on the main thread, with its ordinary stack
            if a[3] == "list" { println!("{}", corpus::HUGE.join(" ")); return; }
            let mut v = rec_diag(&a[2], &corpus::huge(&a[3]));
            v["d"] = json!(format!("{} huge {}", a[2], a[3]));
            // only the outcome matters here
            v["k"] = json!("huge");
            for f in ["dg", "u"] { v[f] = json!([]); }
            v["t"] = json!([text("skip", "")]);
            write_lines(&a[4], &[v]);
        }
        "auto" | "clear" => {
            // auto|clear MODE CORPUS SEED OUT
            let seed: u64 = a[4].parse().unwrap();
            let texts = corpus::build(&a[3], seed);
            let v: Vec<Value> = par(&texts, |t| if a[1] == "auto" { format::rec_auto(t, seed, &a[2]) } else { format::rec_clear(t, &a[2]) }).into_iter().flatten().collect();
            write_lines(&a[5], &v);
        }
        "points" => {
            // points MODE CORPUS SEED OUT
            let texts = corpus::build(&a[3], a[4].parse().unwrap());
            write_lines(&a[5], &par(&texts, |t| v1::rec_points(&a[2], t)));
        }
        #[cfg(feature = "full")]
        "convert" => {
            // convert up|down|made CORPUS SEED OUT
            let seed: u64 = a[4].parse().unwrap();
            if a[2] == "made" {
                let n: usize = a[3].parse().unwrap();
                let (v1, v2) = (corpus::build(&format!("v1:{n}"), seed), corpus::build(&format!("gen:{n}"), seed));
                let n: Vec<usize> = (0..n).collect();
                write_lines(&a[5], &par(&n, |i| v1::rec_made(seed, *i, &v1[*i % v1.len()], &v2[*i % v2.len()])));
                return;
            }
            let texts = corpus::build(&a[3], seed);
            write_lines(&a[5], &par(&texts, |t| if a[2] == "up" { v1::rec_up(t) } else { v1::rec_down(t) }));
        }
        "made" => {
            // made WHAT N SEED OUT
            write_lines(&a[5], &make::records(&a[2], a[4].parse().unwrap(), a[3].parse().unwrap()));
        }
        "eq" => {
            // eq WHAT N SEED OUT
            write_lines(&a[5], &eq::records(&a[2], a[4].parse().unwrap(), a[3].parse().unwrap()));
        }
        "edit" => {
            // edit text|content N SEED OUT: random histories
            let seed: u64 = a[4].parse().unwrap();
            let n: Vec<usize> = (0..a[3].parse().unwrap()).collect();
            write_lines(&a[5], &par(&n, |i| edit::random(seed, *i, a[2] == "text")));
        }
        "replay" => {
            // replay text|content PLANS OUT: lines [source text, step, step...]
            let plans: Vec<Value> = std::fs::read_to_string(&a[3]).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
            write_lines(&a[4], &par(&plans, |p| edit::run(p[0].as_str().unwrap(), a[2] == "text", |_, i| p.get(i + 1).cloned())));
        }
        #[cfg(feature = "full")]
        "lsp" => {
            // lsp SERVER N SEED OUT: random sessions
            let seed: u64 = a[4].parse().unwrap();
            let n: Vec<usize> = (0..a[3].parse().unwrap()).collect();
            let v: Vec<Value> = par(&n, |i| lsp::random(&a[2], seed, *i)).into_iter().flatten().collect();
            write_lines(&a[5], &v);
        }
        #[cfg(feature = "full")]
        "lsp-replay" => {
            // lsp-replay SERVER PLANS OUT: lines [message, message...]
            let plans: Vec<Value> = std::fs::read_to_string(&a[3]).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
            let n: Vec<usize> = (0..plans.len()).collect();
            let v: Vec<Value> = par(&n, |i| lsp::session(&a[2], plans[*i].as_array().unwrap(), i % 2 == 0)).into_iter().flatten().collect();
            write_lines(&a[4], &v);
        }
        #[cfg(feature = "full")]
        "serde" => {
            // serde de|ser|derived|small|known-de|known-ser N SEED OUT
            let seed: u64 = a[4].parse().unwrap();
            let n: Vec<usize> = (0..a[3].parse().unwrap()).collect();
            let v = match &a[2][..] {
                "small" => par(&serde::small_records(), |(s, t)| serde::rec_de(s, t, false)),
                "known-de" => serde::known("de"),
                "known-ser" => serde::known("ser"),
                what => par(&n, |i| serde::random(what, seed, *i)).into_iter().flatten().collect(),
            };
            write_lines(&a[5], &v);
        }
        #[cfg(feature = "full")]
        "serde-replay" => {
            // serde-replay PLANS OUT: lines {sh, v} or {sh, doc}
            let plans: Vec<Value> = std::fs::read_to_string(&a[2]).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
            write_lines(&a[3], &par(&plans, serde::replay));
        }
        "show" => {
            for t in &a[2..] {
                match catch(|| KdlDocument::parse_v2(t)) {
                    Err(_) => println!("{t:?} PANIC"),
                    Ok(Err(e)) => println!("{t:?} ERR {:?}", e.diagnostics.iter().map(|d| (d.span.offset(), d.span.len(), d.message.clone())).collect::<Vec<_>>()),
                    Ok(Ok(d)) => { println!("{t:?} OK rt={} {}", d.to_string() == *t, serde_json::to_string(&nodes(&d, Opts { spans: false })).unwrap()); }
                }
            }
        }
        x => { eprintln!("unknown command {x}"); std::process::exit(2); }
    }
}
