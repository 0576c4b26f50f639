//! Texts to run the library on.
use crate::gen::*;
use crate::rng::Rng;

pub const REPO: &str = "/repo";

pub fn case_files() -> Vec<String> {
    let mut v = vec![];
    for dir in ["tests/test_cases/input", "examples"] {
        let mut names: Vec<_> = match std::fs::read_dir(format!("{REPO}/{dir}")) { Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.path()).collect(), Err(_) => vec![] };
        names.sort();
        for p in names {
            if p.extension().map(|e| e == "kdl") != Some(true) { continue; }
            if let Ok(s) = std::fs::read_to_string(&p) { if s.chars().count() <= 1500 { v.push(s); } }
        }
    }
    v
}

pub const TOKENS: [&str; 30] = [
    "a", "-", "1", "\"b\"", "\"", "#true", "#\"r\"#", "true", "-inf", "+.5", "0x1", "1.5",
    " ", "\n", "\\\n", "\\", ";", "{", "}", "(t)", "(", ")", "=", "/-", "//", "/*", "*/", "/*c*/", "\"\"\"\nm\n\"\"\"", "#",
];

pub fn tokens_exhaustive(k: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut cur = vec![String::new()];
    for _ in 0..k {
        let mut nx = vec![];
        for p in &cur { for t in TOKENS { nx.push(format!("{p}{t}")); } }
        out.extend(nx.iter().cloned());
        cur = nx;
    }
    out
}
pub fn tokens_random(seed: u64, n: usize) -> Vec<String> {
    let mut r = Rng::new(seed, "tokens");
    let extra = [" ", " ", "\n", "a", "b ", " /-", " {", "}", ";", "/-", "a=", " 1", " (t)"];
    (0..n).map(|_| {
        let k = r.range(4, 9);
        (0..k).map(|_| if r.chance(50) { *r.pick(&TOKENS) } else { *r.pick(&extra) }).collect::<String>()
    }).collect()
}
pub fn generated(seed: u64, n: usize, maxlen: usize) -> Vec<String> {
    let mut g = Gen::new(Rng::new(seed, "gen"));
    let mut v = vec![];
    while v.len() < n {
        let d = g.document();
        if d.chars().count() <= g.limit(maxlen) { v.push(d); }
    }
    v
}
pub fn mutated(seed: u64, n: usize, maxlen: usize) -> Vec<String> {
    let mut g = Gen::new(Rng::new(seed, "mutate"));
    let base: Vec<String> = case_files().into_iter().filter(|s| s.chars().count() <= maxlen).collect();
    let gen = generated(seed ^ 77, n / 3 + 10, maxlen);
    let mut v = vec![];
    while v.len() < n {
        let pick = |g: &mut Gen| if g.r.chance(40) && !base.is_empty() { g.r.pick(&base).clone() } else { g.r.pick(&gen).clone() };
        let a = pick(&mut g);
        let b = pick(&mut g);
        let m = g.mutate(&a, &b);
        if m.chars().count() <= maxlen { v.push(m); }
    }
    v
}
/// number-shaped texts, valid and not
pub fn numbers(seed: u64, n: usize) -> Vec<String> {
    let mut g = Gen::new(Rng::new(seed, "num"));
    g.st.uni = 0;
    let mut v: Vec<String> = vec![];
    for s in ["170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729",
        "0x7fffffffffffffffffffffffffffffff", "0x80000000000000000000000000000000", "-0x80000000000000000000000000000000", "-0x80000000000000000000000000000001", "-0x7fffffffffffffffffffffffffffffff",
        "0o1777777777777777777777777777777777777777777", "0o2000000000000000000000000000000000000000000", "-0o2000000000000000000000000000000000000000000",
        "1e308", "1.7976931348623157e308", "1.7976931348623159e308", "1e309", "-1e309", "1e-400", "5e-324", "2e-324", "1e99999999999999999999", "1e-99999999999999999999", "0e99999999999", "0.0", "-0.0", "+0.0", "-0", "1e00000000000000000000000000000000000000000000000001",
        "0.1000000000000000055511151231257827021181583404541015625", "100000000000000000000000000000000000000000.0", "1.00000000000000000000000000000000000000000000000001", "9007199254740993.0", "9007199254740992.9999999999999999999999999999999999999999",
        "0.30000000000000004", "123456789012345678901234567890123456789012345678901234567890.5e-30", "_1", "1_", "1__0", "1_.5", "1._5", "1.5_", "1e_5", "1e5_", "1e+_5", "0x_1", "0x1_", "0xg", "0x", "0b2", "0b", "0o8", "0o", "00", "01", "-01", "--1", "+-1", "+1", "1.", "1.e5", ".5", "+.5", "-.5", "1.2.3", "1e5.5", "1e5e5", "1a", "1-", "1,2", "0xFG", "0X1F", "0B11", "0O17", "0x1.5", "0b1e5", "0x1e5", "1E+5", "1E-5", "-1_000_000", "#inf", "#-inf", "#nan", "#infx", "#-nan", "#+inf", "inf", "-inf", "nan", "NaN", "#INF"] {
        v.push(format!("n {s}"));
        v.push(format!("n a={s} {s}"));
    }
    let alpha = "0123456789_+-.eExXoObBafAF7";
    let al: Vec<char> = alpha.chars().collect();
    while v.len() < n {
        g.restyle();
        g.st.big = *g.r.pick(&[0, 30, 80]);
        match g.r.below(4) {
            0 => { let k = g.r.range(1, 8); let s: String = (0..k).map(|_| *g.r.pick(&al)).collect(); v.push(format!("n {s}")); }
            1 => {
                let s = g.number();
                let mut c: Vec<char> = s.chars().collect();
                let p = g.r.below(c.len());
                match g.r.below(3) { 0 => { c.remove(p); } 1 => { let x = *g.r.pick(&al); c.insert(p, x); } _ => { c[p] = *g.r.pick(&al); } }
                v.push(format!("n {}", c.into_iter().collect::<String>()));
            }
            _ => {
                let k = g.r.range(1, 3);
                let mut s = String::from("n");
                for _ in 0..k { let x = g.number(); if g.r.chance(30) { s.push_str(&format!(" k={x}")) } else if g.r.chance(10) { s.push_str(&format!(" (t){x}")) } else { s.push_str(&format!(" {x}")) } }
                if g.r.chance(10) { s.push_str("{}"); }
                v.push(s);
            }
        }
    }
    v
}
/// string-shaped texts, valid and not
pub fn strings(seed: u64, n: usize) -> Vec<String> {
    let mut g = Gen::new(Rng::new(seed, "str"));
    let mut v: Vec<String> = vec![];
    let parts = ["\"", "\"", "\"\"\"", "#", "\n", "\n", " ", "  ", "a", "b", "\\", "\\\\", "\\n", "\\\"", "\\s", "\\u{41}", "\\u{", "}", "\t", "\r\n", "\u{2028}", "\u{e9}", "\\\n", "\\ ", "\\ \n  ", "\\u{D800}", "\\q", "\\/", "\u{7f}", "\u{200e}"];
    while v.len() < n {
        g.restyle();
        match g.r.below(6) {
            0 => {
                // multi-line skeleton filled with random parts
                let hs = if g.r.chance(40) { "#".repeat(g.r.range(1, 2)) } else { String::new() };
                let k = g.r.below(7);
                let body: String = (0..k).map(|_| *g.r.pick(&parts)).collect();
                let pre = *g.r.pick(&["", " ", "  ", "\t"]);
                let nl = g.nl();
                v.push(format!("n {hs}\"\"\"{nl}{pre}{body}\n{pre}\"\"\"{hs}"));
            }
            1 => { let k = g.r.below(7); let body: String = (0..k).map(|_| *g.r.pick(&parts)).collect(); v.push(format!("n \"{body}\"")); }
            2 => { let h = "#".repeat(g.r.range(1, 3)); let k = g.r.below(6); let body: String = (0..k).map(|_| *g.r.pick(&parts)).collect(); v.push(format!("n {h}\"{body}\"{h}")); }
            3 => { let s = g.string(); v.push(format!("n {s}")); }
            4 => { let s = g.string(); v.push(format!("{s} {s}=1")); }
            _ => { let s = g.string(); let m = g.mutate(&s, "\"\"\"\n \\ "); v.push(format!("n {m}")); }
        }
    }
    v
}
/// every interesting code point in every lexical context
pub fn codepoints() -> Vec<String> {
    let mut cs: Vec<u32> = (0..=0x100).collect();
    for b in [0x1680u32, 0x180e, 0x2000, 0x200a, 0x200b, 0x200d, 0x200e, 0x200f, 0x2010, 0x2028, 0x2029, 0x202a, 0x202e, 0x202f, 0x2030, 0x205f, 0x2060, 0x2065, 0x2066, 0x2069, 0x206a, 0x3000, 0x3001, 0xd7ff, 0xe000, 0xfefe, 0xfeff, 0xff00, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x2044, 0xff1d, 0xfe66, 0x1f7f0, 0x61c, 0x2001, 0x2005, 0x2009] {
        for d in [b.wrapping_sub(1), b, b + 1] { cs.push(d); }
    }
    cs.sort(); cs.dedup();
    let mut v = vec![];
    for c in cs {
        let Some(ch) = char::from_u32(c) else { continue };
        for ctx in ["n a@b", "n @", "@", "n@1", "n \"@\"", "n #\"@\"#", "n \"\"\"\n@\n\"\"\"", "n #\"\"\"\n @x\n \"\"\"#", "//@\nn", "/*@*/n", "(@)n", "n (t)@1", "n \\@\n1", "n a@=@1", "n \"\\@\"", "n {@}", "n 1@2", "n /-@a", "n \"\\u{@}\"", "n \"a\\ @ b\"", "n #t@"] {
            v.push(ctx.replace('@', &ch.to_string()));
        }
    }
    v
}
pub fn words(al: &[&str], k: usize) -> Vec<String> {
    let mut out = vec![];
    let mut cur = vec![String::new()];
    for _ in 0..k {
        cur = cur.iter().flat_map(|p| al.iter().map(move |t| format!("{p}{t}"))).collect();
        out.extend(cur.iter().cloned());
    }
    out
}
pub fn chars_exhaustive(k: usize) -> Vec<String> {
    let al = ["a", "1", "-", ".", "\"", "#", "\\", " ", "\n", ";", "{", "}", "(", ")", "=", "/", "*", "e", "x", "0", "_"];
    let mut out = vec![];
    let mut cur = vec![String::new()];
    for _ in 0..k {
        let mut nx = vec![];
        for p in &cur { for t in al { nx.push(format!("{p}{t}")); } }
        out.extend(nx.iter().cloned());
        cur = nx;
    }
    out
}

/// texts for the parse functions of one node, entry or identifier: right and wrong ones
pub fn parts(kind: &str, seed: u64, n: usize) -> Vec<String> {
    let mut g = Gen::new(Rng::new(seed, kind));
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        g.restyle();
        let mut s = match kind {
            "ent" => {
                let mut s = g.lsp0();
                let sd = g.st.sd / 2;
                while g.r.chance(sd) { s.push_str(&g.slashdash()); s.push_str(&g.entry()); s.push_str(&g.sp1()); }
                s.push_str(&g.entry());
                s.push_str(&g.lsp0());
                s
            }
            "node" => {
                let mut s = g.lsp0();
                let sd = g.st.sd / 2;
                while g.r.chance(sd) { s.push_str(&g.slashdash()); s.push_str(&g.base_node(1)); s.push_str(&g.terminator()); s.push_str(&g.lsp0()); }
                let d = g.st.depth;
                s.push_str(&g.base_node(d));
                if g.r.chance(60) { s.push_str(&g.terminator()); s.push_str(&g.lsp0()); }
                if g.r.chance(5) { s.push_str(&g.base_node(0)); }
                s
            }
            _ => g.string(),
        };
        if g.r.chance(25) { s = g.mutate(&s, "a=1 \"x\" {n} \\"); }
        if s.chars().count() <= g.limit(300) { v.push(s); }
    }
    v
}

/// arbitrary texts, mostly not KDL
pub fn random_texts(seed: u64, n: usize) -> Vec<String> {
    let mut r = Rng::new(seed, "bytes");
    (0..n).map(|_| {
        let k = r.range(0, 24);
        (0..k).map(|_| match r.below(6) {
            0 => char::from_u32(r.below(0x80) as u32).unwrap(),
            1 => char::from_u32(r.below(0x3000) as u32).unwrap_or('\u{fffd}'),
            2 => char::from_u32(r.below(0x110000) as u32).unwrap_or('\u{10ffff}'),
            _ => *r.pick(&['a', '1', '"', '#', '\\', '{', '}', '(', ')', '/', '*', '-', '=', ';', '\n', ' ', 'u', 'e', '.']),
        }).collect()
    }).collect()
}
/// nested constructs, complete and cut off, up to the given depth
pub fn nested(max: usize) -> Vec<String> {
    let mut v = vec![];
    let pairs: [(&str, &str, &str); 16] = [
        ("a{", "", "}"), ("a {\n", "b", "\n}\n"), ("a /-{", "", "}"), ("a{b} /-{", "", "}"), ("/-a{", "x", "}"), ("/* ", "c", "*/"), ("/*/", "", "*/"),
        ("a /-b{", "", "}"), ("a /-b=1 /-{", "", "} {c}"), ("/-/-a{", "", "}"), ("(t)a (u)1 k=(v)2{", "", "}"), ("a;{", "", "}"), ("a 1x{", "", "}"), ("a \"{", "", "}"), ("a{;", "", "}"), ("a /-{/-{", "", "}}"),
    ];
    let mut ks: Vec<usize> = (1..=12).collect();
    ks.extend([16, 20, 24, 30, 40, 60, 80, 100].iter().filter(|k| **k <= max));
    for (o, m, c) in pairs {
        for k in &ks {
            let k = *k;
            v.push(format!("{}{m}{}", o.repeat(k), c.repeat(k)));
            v.push(format!("{}{m}", o.repeat(k)));
            v.push(format!("{}{m}{}", o.repeat(k), c.repeat(k - 1)));
            v.push(format!("{}{m}{}", o.repeat(k), c.repeat(k + 1)));
            if k <= 12 { v.push(format!("{}{m}{} x \"", o.repeat(k), c.repeat(k))); v.push(format!("{}1 2{}", o.repeat(k), c.repeat(k))); }
        }
    }
    v
}
/// long, not nested: must work with an ordinary stack and in reasonable time
pub const HUGE: [&str; 34] = ["close", "stars", "slashes", "quotes", "hash", "parens", "semis", "esc", "args", "nodes", "sd", "sdent", "sdkids", "str", "strnl", "rawnl", "unclosedml", "bad", "badv", "badnodes", "eq", "back", "comm", "cl2", "ty", "dash", "sp", "nl", "digits", "digits.", "rawun", "mlq", "badstr", "kids"];
pub fn huge(k: &str) -> String {
    let n = 20000usize;
    match k {
        "close" => "}".repeat(n), "stars" => format!("/*{}*/a", "*".repeat(n)), "slashes" => format!("/*{}*/a", "/ ".repeat(n)),
        "quotes" => "\"".repeat(n), "hash" => "#".repeat(n), "parens" => "(".repeat(n), "semis" => ";".repeat(n),
        "esc" => "a \\\n".to_string() + &"\\\n".repeat(n), "args" => format!("a{}", " 1".repeat(n)), "nodes" => "a\n".repeat(n), "sd" => "/-a\n".repeat(n),
        "sdent" => format!("a{}", " /-b".repeat(n)), "sdkids" => format!("a{}", " /-{}".repeat(n)), "str" => format!("a \"{}\"", "x".repeat(n)),
        "strnl" => format!("a \"\"\"\n{}\"\"\"", "x\n".repeat(n / 10)), "rawnl" => format!("a #\"\"\"\n{}\"\"\"#", "x\n".repeat(n / 10)),
        "unclosedml" => format!("a \"\"\"\n{}", "x\n".repeat(n / 10)), "bad" => "a =".repeat(n / 10), "badv" => "a 1x\n".repeat(n / 10), "badnodes" => "1 2\n".repeat(n / 10),
        "eq" => "=".repeat(n), "back" => "\\".repeat(n), "comm" => "//x\n".repeat(n), "cl2" => "a {}}".repeat(n / 10), "ty" => "(a)".repeat(n / 10), "dash" => "/-".repeat(n),
        "sp" => " ".repeat(n), "nl" => "\n".repeat(n), "digits" => format!("a {}", "1".repeat(n)), "digits." => format!("a 0.{}", "1".repeat(n)),
        "rawun" => format!("a #\"{}", "\"".repeat(n)), "mlq" => format!("a \"\"\"\n{}", "\"\"\\".repeat(n / 10)), "badstr" => "a \"\\q\"\n".repeat(n / 10), "kids" => "a {b;c 1}\n".repeat(n / 10),
        _ => panic!("huge"),
    }
}

/// long runs of a few tokens, within and outside ASCII
pub fn wide(seed: u64, n: usize) -> Vec<String> {
    let mut r = Rng::new(seed, "wide");
    let al = ["é", "éc", "😀", "\u{feff}", "\u{200e}", "\u{2028}", "é ", "x", "\"", "#\"é", "\"\"\"\né", "é=", "=", "(é", "(", ")", "{", "{é", "}", "/*é", "/*", "*/", "//é", "/-", "/-é ", "\\é", "\\", "\n", "\n é", ";", "#é", "#", "0xé", "1é", "1_", ".é", "a {\n é", "\"é\"é"];
    (0..n).map(|_| {
        let mut s = String::new();
        for _ in 0..r.range(1, 6) {
            let t = *r.pick(&al);
            // no deep nesting here
            let k = if t.contains('{') || t.contains('*') || r.chance(50) { 1 } else { r.range(1, 400) };
            s.push_str(&t.repeat(k));
            if r.chance(30) { s.push(' '); }
        }
        s
    }).collect()
}
/// name:count[,name:count...]
pub fn build(spec: &str, seed: u64) -> Vec<String> {
    let mut v = vec![];
    for part in spec.split(',') {
        let (n, c) = part.split_once(':').unwrap_or((part, "0"));
        let c: usize = c.parse().unwrap();
        v.extend(match n {
            "cases" => case_files(),
            "tok" => tokens_exhaustive(c),
            "chr" => chars_exhaustive(c),
            "tokr" => tokens_random(seed, c),
            "gen" => generated(seed, c, 400),
            "long" => generated(seed ^ 5, c, 1500),
            "mut" => mutated(seed, c, 250),
            "nex" => words(&["0", "1", "9", "_", ".", "e", "E", "+", "-", "x", "a", "b", "o"], c).into_iter().map(|w| format!("n {w}")).collect(),
            "num" => numbers(seed, c),
            "str" => strings(seed, c),
            "cp" => codepoints(),
            "nest" => nested(c),
            "wide" => wide(seed, c),
            "bytes" => random_texts(seed, c),
            "v1" | "v1node" | "v1ent" | "v1ident" => crate::v1::texts(n, seed, c),
            "ent" | "node" | "ident" => parts(n, seed, c),
            _ => panic!("corpus {n}"),
        });
    }
    v
}
