//! Grammar-directed generation of KDL v2 texts (mostly valid), and mutation of texts.
use crate::rng::Rng;

pub const NLS: [&str; 8] = ["\n", "\r\n", "\r", "\u{85}", "\u{b}", "\u{c}", "\u{2028}", "\u{2029}"];
pub const SPS: [&str; 18] = [
    "\u{0009}", "\u{0020}", "\u{00A0}", "\u{1680}", "\u{2000}", "\u{2001}", "\u{2002}", "\u{2003}",
    "\u{2004}", "\u{2005}", "\u{2006}", "\u{2007}", "\u{2008}", "\u{2009}", "\u{200A}", "\u{202F}",
    "\u{205F}", "\u{3000}",
];

/// Per-document style, so that each document concentrates on some features.
#[derive(Clone)]
pub struct Style {
    pub uni: usize,      // % of exotic whitespace, newlines, letters
    pub comments: usize, // % of comments in trivia
    pub esc: usize,      // % of esclines in trivia
    pub sd: usize,       // % slashdash
    pub types: usize,
    pub props: usize,
    pub kids: usize,
    pub numbers: usize,  // weight of numbers among values
    pub strings: usize,
    pub tight: usize,    // % of omitting optional space
    pub nodes: usize,
    pub ents: usize,
    pub depth: usize,
    pub big: usize,      // % of extreme numbers
    pub wide: Wide,      // what there is a lot of
}
/// In some documents there is much of one thing, and little of the others.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wide { Nothing, Entries, Nodes, Depth, Names, Strings, Gaps, Lines, Digits }
pub const WIDES: [Wide; 8] = [Wide::Entries, Wide::Nodes, Wide::Depth, Wide::Names, Wide::Strings, Wide::Gaps, Wide::Lines, Wide::Digits];

pub struct Gen { pub r: Rng, pub st: Style }

impl Gen {
    pub fn new(r: Rng) -> Self {
        let mut g = Gen { r, st: Style { uni: 0, comments: 0, esc: 0, sd: 0, types: 0, props: 0, kids: 0, numbers: 0, strings: 0, tight: 0, nodes: 3, ents: 3, depth: 2, big: 0, wide: Wide::Nothing } };
        g.restyle();
        g
    }
    pub fn restyle(&mut self) {
        let r = &mut self.r;
        let p = |r: &mut Rng, a: &[usize]| *r.pick(a);
        self.st = Style {
            uni: p(r, &[0, 0, 5, 30]), comments: p(r, &[0, 8, 30, 60]), esc: p(r, &[0, 0, 5, 25]), sd: p(r, &[0, 5, 20, 45]),
            types: p(r, &[0, 10, 40]), props: p(r, &[10, 40, 70]), kids: p(r, &[0, 20, 50]), numbers: p(r, &[1, 3, 10]),
            strings: p(r, &[1, 3, 10]), tight: p(r, &[0, 20, 60]), nodes: p(r, &[1, 2, 4]), ents: p(r, &[1, 2, 4]),
            depth: p(r, &[1, 2, 3]), big: p(r, &[0, 20, 60]), wide: Wide::Nothing,
        };
        if r.chance(6) {
            let w = *r.pick(&WIDES);
            let st = &mut self.st;
            st.wide = w;
            (st.nodes, st.ents, st.depth) = (2, 2, 1);
            st.comments = st.comments.min(8); st.esc = st.esc.min(5); st.uni = st.uni.min(5);
            match w {
                Wide::Entries | Wide::Nodes => (st.kids, st.types) = (10, 10),
                Wide::Depth => (st.kids, st.ents, st.depth, st.sd) = (90, 1, r.range(4, 24), st.sd.min(5)),
                Wide::Gaps => (st.comments, st.esc) = (p(r, &[0, 30]), p(r, &[0, 10])),
                Wide::Lines | Wide::Strings => (st.strings, st.numbers, st.kids) = (10, 1, 10),
                Wide::Digits => (st.strings, st.numbers, st.kids) = (1, 10, 10),
                _ => {}
            }
        }
    }
    /// what is too long
    pub fn limit(&self, most: usize) -> usize { if self.st.wide == Wide::Nothing { most } else { most.max(1200) } }
    /// how many: a few, or a lot in a document with a lot of these
    pub fn many(&mut self, w: Wide, few: usize, most: usize) -> usize {
        if self.st.wide == w && self.r.chance(40) { self.r.range(few.max(4).min(most), most.max(few)) } else { few }
    }
    pub fn nl(&mut self) -> String {
        let u = self.st.uni;
        if self.r.chance(u) { (*self.r.pick(&NLS)).into() } else { "\n".into() }
    }
    pub fn usp(&mut self) -> String {
        let u = self.st.uni;
        if self.r.chance(u) { (*self.r.pick(&SPS)).into() } else if self.r.chance(10) { "\t".into() } else { " ".into() }
    }
    fn comment_text(&mut self) -> String {
        let words = ["c", " note ", "/", "*", "-", "\"q\"", "{ x }", "#", "\\", "//", "\u{e9}", "\u{1F600}", ";", "(t)", "/-", "1=2"];
        let n = self.r.below(4);
        let n = self.many(Wide::Gaps, n, 30);
        let mut s = String::new();
        for _ in 0..n { s.push_str(*self.r.pick(&words[..])); }
        s
    }
    pub fn block_comment(&mut self, d: usize) -> String {
        let mut s = String::from("/*");
        let n = self.r.below(3);
        for _ in 0..n {
            if d < 3 && self.r.chance(30) || d < 12 && self.st.wide == Wide::Gaps && self.r.chance(60) { s.push_str(&self.block_comment(d + 1)); }
            else if self.r.chance(20) { let n = self.nl(); s.push_str(&n); }
            else {
                let t = self.comment_text();
                s.push_str(&t.replace("*/", "").replace("/*", "").replace('/', "~").replace('*', "+"));
                if self.r.chance(15) { s.push_str(" / "); }
                if self.r.chance(15) { s.push_str(" * "); }
                if self.r.chance(8) { s.push_str(" ** "); }
            }
        }
        if self.r.chance(10) { s.push_str("*"); }
        s.push_str("*/");
        s
    }
    pub fn line_comment(&mut self) -> String {
        let t = self.comment_text();
        format!("//{}{}", t, self.nl())
    }
    pub fn ws(&mut self) -> String {
        let c = self.st.comments;
        if self.r.chance(c) { self.block_comment(0) } else { self.usp() }
    }
    pub fn ws0(&mut self) -> String {
        let n = if self.r.chance(60) { 0 } else { self.r.range(1, 2) };
        (0..n).map(|_| self.ws()).collect()
    }
    pub fn escline(&mut self) -> String {
        let mut s = String::from("\\");
        s.push_str(&self.ws0());
        let c = self.st.comments;
        if self.r.chance(c) { s.push_str(&self.line_comment()); } else { s.push_str(&self.nl()); }
        s
    }
    /// node-space+
    pub fn sp1(&mut self) -> String {
        let mut s = String::new();
        let n = if self.r.chance(75) { 1 } else { self.r.range(2, 3) };
        let n = self.many(Wide::Gaps, n, 12);
        for _ in 0..n {
            let e = self.st.esc;
            if self.r.chance(e) { s.push_str(&self.ws0()); s.push_str(&self.escline()); s.push_str(&self.ws0()); }
            else { s.push_str(&self.ws()); }
        }
        s
    }
    pub fn sp0(&mut self) -> String {
        if self.r.chance(70) { String::new() } else { self.sp1() }
    }
    /// line-space*
    pub fn lsp0(&mut self) -> String {
        let mut s = String::new();
        let n = if self.r.chance(60) { 0 } else { self.r.range(1, 3) };
        let n = self.many(Wide::Gaps, n, 20);
        for _ in 0..n {
            let c = self.st.comments;
            if self.r.chance(40) { s.push_str(&self.nl()); }
            else if self.r.chance(c) { s.push_str(&self.line_comment()); }
            else { s.push_str(&self.sp1()); }
        }
        s
    }
    pub fn ident_char(&mut self) -> char {
        let u = self.st.uni;
        if self.r.chance(u) { *self.r.pick(&['\u{e9}', '\u{4e2d}', '\u{1F600}', '\u{3b1}', '\u{7fff}', '\u{10FFFF}', '\u{200b}', '\u{ad}', '\u{2060}', '\u{d7ff}', '\u{e000}']) }
        else { *self.r.pick(&['a', 'b', 'c', 'e', 'x', 'f', 'o', 'n', 't', 'r', 'u', '-', '_', '.', '+', ',', '<', '>', '\'', '!', '?', '*', '&', '|', '~', '0', '1', '9', ':', '%', '@', '$', '^', '`']) }
    }
    pub fn ident(&mut self) -> String {
        if self.r.chance(12) {
            return (*self.r.pick(&["-", "--", "+", ".", "..", "-a", "+a", "-.", "+.", "-.a", "truex", "nul", "inff", "nanny", "-infx", "a.b", "r", "x=".trim_end_matches('='), "a*", "kdl-version", "e5", "b0", "-e", "_", "_1", "true-", "+inf"])).into();
        }
        loop {
            let n = self.r.range(1, 4);
            let n = self.many(Wide::Names, n, 140);
            let s: String = (0..n).map(|_| self.ident_char()).collect();
            if valid_ident(&s) { return s; }
        }
    }
    fn escape(&mut self) -> String {
        match self.r.below(10) {
            0 => "\\n".into(), 1 => "\\t".into(), 2 => "\\\\".into(), 3 => "\\\"".into(), 4 => "\\s".into(),
            5 => "\\b".into(), 6 => "\\f".into(), 7 => "\\r".into(),
            _ => (*self.r.pick(&["\\u{41}", "\\u{0}", "\\u{7F}", "\\u{a}", "\\u{10FFFF}", "\\u{00000A}", "\\u{D7FF}", "\\u{e000}", "\\u{1F600}", "\\u{FEFF}", "\\u{2028}", "\\u{200e}"])).into(),
        }
    }
    fn wsesc(&mut self) -> String {
        let mut s = String::from("\\");
        let n = self.r.range(1, 3);
        for _ in 0..n { if self.r.chance(50) { s.push_str(&self.nl()) } else { s.push_str(&self.usp()) } }
        s
    }
    fn str_chunk(&mut self, raw: bool) -> String {
        match self.r.below(if raw { 6 } else { 10 }) {
            0 | 1 => self.ident_char().to_string(),
            2 => (*self.r.pick(&[" ", "  ", "{", "}", ";", "/", "//", "/*", "*/", "(", ")", "=", "#", "/-", "'", "[", "\t", "#\u{20}"])).into(),
            3 => (*self.r.pick(&["abc", "true", "1", "0x", "\u{e9}", "\u{1F600}", "=", "kdl"])).into(),
            4 => if raw { (*self.r.pick(&["\\", "\\n", "\\u{41}", "\\ "])).into() } else { self.escape() },
            5 => self.usp(),
            6 | 7 => self.escape(),
            8 => self.wsesc(),
            _ => self.ident_char().to_string(),
        }
    }
    pub fn quoted(&mut self) -> String {
        let n = self.r.below(5);
        let n = self.many(Wide::Strings, n, 140);
        let mut s = String::from("\"");
        for _ in 0..n { s.push_str(&self.str_chunk(false)); }
        s.push('"');
        s
    }
    pub fn raw(&mut self) -> String {
        let h = if self.r.chance(70) { 1 } else { self.r.range(2, 4) };
        let h = self.many(Wide::Strings, h, 20);
        let hs = "#".repeat(h);
        loop {
            let n = self.r.below(5);
            let n = self.many(Wide::Strings, n, 140);
            let mut b = String::new();
            for _ in 0..n {
                if self.r.chance(20) { b.push_str(*self.r.pick(&["\"", "\"#", "\"\"", "\"##", "\"\"\"", "#"])); } else { b.push_str(&self.str_chunk(true)); }
            }
            if b == "\"" || b.starts_with("\"\"") || b.contains(&format!("\"{hs}")) { continue; }
            return format!("{hs}\"{b}\"{hs}");
        }
    }
    pub fn multiline(&mut self, raw: bool) -> String {
        let hs = if raw { "#".repeat(self.r.range(1, 3)) } else { String::new() };
        let pl = self.r.below(4);
        let pl = self.many(Wide::Lines, pl, 20);
        let prefix: String = (0..pl).map(|_| self.usp()).collect();
        let mut s = format!("{hs}\"\"\"{}", self.nl());
        let n = self.r.below(4);
        let n = self.many(Wide::Lines, n, 25);
        for _ in 0..n {
            match self.r.below(6) {
                0 => {}
                1 => { let u = self.usp(); s.push_str(&u); }
                2 => { s.push_str(&prefix); }
                _ => {
                    s.push_str(&prefix);
                    let m = self.r.range(1, 4);
                    let mut line = String::new();
                    for _ in 0..m {
                        if self.r.chance(15) { line.push_str(*self.r.pick(&["\"", "\"\"", "\" "])); } else { line.push_str(&self.str_chunk(raw)); }
                    }
                    let bad = if raw { format!("\"\"\"{hs}") } else { "\"\"\"".to_string() };
                    while line.contains(&bad) { line = line.replace("\"", "'"); }
                    s.push_str(&line);
                }
            }
            s.push_str(&self.nl());
        }
        s.push_str(&prefix);
        if !raw && self.r.chance(10) { s.push_str(&self.wsesc()); }
        s.push_str(&format!("\"\"\"{hs}"));
        s
    }
    pub fn string(&mut self) -> String {
        match self.r.below(10) {
            0..=3 => self.ident(),
            4 | 5 => self.quoted(),
            6 | 7 => self.raw(),
            8 => self.multiline(false),
            _ => self.multiline(true),
        }
    }
    fn digits(&mut self, set: &[u8], n: usize) -> String {
        let n = self.many(Wide::Digits, n, 120);
        let mut s = String::new();
        for i in 0..n {
            s.push(*self.r.pick(set) as char);
            if i + 1 < n && self.r.chance(8) { s.push_str(*self.r.pick(&["_", "__"])); }
        }
        if self.r.chance(5) { s.push('_'); }
        s
    }
    pub fn number(&mut self) -> String {
        let sign = *self.r.pick(&["", "", "", "-", "-", "+"]);
        let big = self.st.big;
        match self.r.below(12) {
            0 => { let n = if self.r.chance(big) { self.r.range(28, 34) } else { self.r.range(1, 6) }; format!("{sign}{}{}", if self.r.chance(90) { "0x" } else { "0X" }, self.digits(b"0123456789abcdefABCDEF", n)) }
            1 => { let n = if self.r.chance(big) { self.r.range(40, 44) } else { self.r.range(1, 6) }; format!("{sign}{}{}", if self.r.chance(90) { "0o" } else { "0O" }, self.digits(b"01234567", n)) }
            2 => { let n = if self.r.chance(big) { self.r.range(120, 129) } else { self.r.range(1, 10) }; format!("{sign}{}{}", if self.r.chance(90) { "0b" } else { "0B" }, self.digits(b"01", n)) }
            3..=6 => {
                if self.r.chance(big) && self.r.chance(40) {
                    return format!("{sign}{}", *self.r.pick(&[
                        "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "170141183460469231731687303715884105729",
                        "170141183460469231731687303715884105726", "0000170141183460469231731687303715884105727", "340282366920938463463374607431768211455",
                        "340282366920938463463374607431768211456", "99999999999999999999999999999999999999", "999999999999999999999999999999999999999",
                        "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "0x7fffffffffffffffffffffffffffffff",
                        "0x80000000000000000000000000000000", "0x80000000000000000000000000000001", "0xffffffffffffffffffffffffffffffff", "4294967296", "2147483648", "-0".trim_start_matches('-'),
                    ]));
                }
                let n = if self.r.chance(big) { self.r.range(15, 42) } else { self.r.range(1, 6) };
                format!("{sign}{}", self.digits(b"0123456789", n))
            }
            7 | 8 => {
                let (a, b) = if self.r.chance(big) { (self.r.range(1, 45), self.r.range(1, 60)) } else { (self.r.range(1, 5), self.r.range(1, 6)) };
                format!("{sign}{}.{}", self.digits(b"0123456789", a), self.digits(b"0123456789", b))
            }
            _ => {
                let (a, b) = if self.r.chance(big) { (self.r.range(1, 42), self.r.range(1, 42)) } else { (self.r.range(1, 4), self.r.range(1, 4)) };
                let mut s = format!("{sign}{}", self.digits(b"0123456789", a));
                if self.r.chance(50) { s.push('.'); s.push_str(&self.digits(b"0123456789", b)); }
                s.push_str(*self.r.pick(&["e", "E"]));
                s.push_str(*self.r.pick(&["", "+", "-"]));
                let mx = if self.r.chance(big) { 4 } else { 2 };
                let n = self.r.range(1, mx);
                s.push_str(&self.digits(b"0123456789", n));
                s
            }
        }
    }
    pub fn keyword(&mut self) -> String {
        (*self.r.pick(&["#true", "#false", "#null", "#inf", "#-inf", "#nan"])).into()
    }
    pub fn value(&mut self) -> String {
        let (a, b) = (self.st.numbers, self.st.strings);
        let k = self.r.below(a + b + 2);
        if k < a { self.number() } else if k < a + b { self.string() } else { self.keyword() }
    }
    pub fn ty(&mut self) -> String {
        let (a, b) = (self.sp0(), self.sp0());
        let s = self.string();
        format!("({a}{s}{b})")
    }
    pub fn typed_value(&mut self) -> String {
        let t = self.st.types;
        if self.r.chance(t) { let y = self.ty(); let s = self.sp0(); format!("{y}{s}{}", self.value()) } else { self.value() }
    }
    pub fn entry(&mut self) -> String {
        let p = self.st.props;
        if self.r.chance(p) {
            let k = self.string();
            let (a, b) = (self.sp0(), self.sp0());
            format!("{k}{a}={b}{}", self.typed_value())
        } else { self.typed_value() }
    }
    pub fn slashdash(&mut self) -> String { format!("/-{}", self.lsp0()) }
    pub fn children(&mut self, depth: usize) -> String { format!("{{{}}}", self.nodes(depth, true)) }
    pub fn base_node(&mut self, depth: usize) -> String {
        let mut s = String::new();
        let t = self.st.types;
        if self.r.chance(t) { s.push_str(&self.ty()); s.push_str(&self.sp0()); }
        s.push_str(&self.string());
        let m = self.st.ents;
        let n = self.r.below(m + 1);
        let n = self.many(Wide::Entries, n, 40);
        let sd = self.st.sd;
        for _ in 0..n {
            s.push_str(&self.sp1());
            if self.r.chance(sd) { s.push_str(&self.slashdash()); }
            s.push_str(&self.entry());
        }
        let k = self.st.kids;
        let tight = self.st.tight;
        if depth > 0 {
            while self.r.chance(sd / 2) { let a = self.sp1(); let b = self.slashdash(); let c = self.children(depth - 1); s.push_str(&a); s.push_str(&b); s.push_str(&c); }
            if self.r.chance(k) {
                if !self.r.chance(tight) { s.push_str(&self.sp1()); }
                s.push_str(&self.children(depth - 1));
                while self.r.chance(sd / 2) { let a = self.sp1(); let b = self.slashdash(); let c = self.children(depth - 1); s.push_str(&a); s.push_str(&b); s.push_str(&c); }
            }
        }
        s.push_str(&self.sp0());
        s
    }
    pub fn terminator(&mut self) -> String {
        let c = self.st.comments;
        if self.r.chance(c / 2) { self.line_comment() } else if self.r.chance(25) { ";".into() } else { self.nl() }
    }
    pub fn nodes(&mut self, depth: usize, nested: bool) -> String {
        let m = self.st.nodes;
        let n = if self.st.wide == Wide::Depth { 1 } else { self.r.below(m + 1) };
        let n = self.many(Wide::Nodes, n, 40);
        let mut s = String::new();
        for i in 0..n {
            s.push_str(&self.lsp0());
            let sd = self.st.sd;
            if self.r.chance(sd) { s.push_str(&self.slashdash()); }
            s.push_str(&self.base_node(depth));
            if i + 1 == n && self.r.chance(30) {
                if !nested && self.r.chance(10) { s.push_str("// end"); }
                return s;
            }
            s.push_str(&self.terminator());
        }
        s.push_str(&self.lsp0());
        s
    }
    pub fn document(&mut self) -> String {
        self.restyle();
        let mut s = String::new();
        if self.r.chance(3) { s.push('\u{feff}'); }
        if self.r.chance(3) { s.push_str("/- kdl-version 2\n"); }
        let d = self.st.depth;
        s.push_str(&self.nodes(d, false));
        s
    }
    pub const PIECES: [&'static str; 62] = [
        "a", "b", "-", "+", ".", "1", "0", "0x1", "0b", "1.5", "1e3", "-1", "+.5", ".5", "_", "true", "#true", "#null", "#inf", "#-inf", "inf", "-inf", "#",
        "\"", "\"\"", "\"\"\"", "\"a\"", "#\"a\"#", "\"\"\"\na\n\"\"\"", "\\", "\\n", "\\u{41}", "\\u{110000}", "\\q", " ", "\t", "\n", "\r", "\r\n",
        "\u{85}", "\u{2028}", "\u{a0}", ";", "{", "}", "(", ")", "(t)", "=", "/", "//", "/*", "*/", "/-", "*", "[", "]", "\u{7f}", "\u{1}", "\u{feff}", "\u{200e}", "\u{1F600}",
    ];
    pub fn mutate(&mut self, t: &str, other: &str) -> String {
        let mut c: Vec<char> = t.chars().collect();
        let n = self.r.range(1, 3);
        for _ in 0..n {
            let len = c.len();
            let p = self.r.below(len + 1);
            match self.r.below(8) {
                0 => { let e = (p + self.r.range(1, 3)).min(len); c.drain(p..e); }
                1 => { let x = *self.r.pick(&Self::PIECES); c.splice(p..p, x.chars()); }
                2 => { let x = *self.r.pick(&Self::PIECES); let e = (p + 1).min(len); c.splice(p..e, x.chars()); }
                3 => { let e = (p + self.r.range(1, 6)).min(len); let d: Vec<char> = c[p..e].to_vec(); let q = self.r.below(len + 1); c.splice(q..q, d); }
                4 => { c.truncate(p); }
                5 => { if len > 1 { let q = self.r.below(len); let p = p.min(len - 1); c.swap(p, q); } }
                6 => { let o: Vec<char> = other.chars().collect(); let a = self.r.below(o.len() + 1); let b = (a + self.r.range(1, 8)).min(o.len()); c.splice(p..p, o[a..b].to_vec()); }
                _ => { let x = *self.r.pick(&Self::PIECES); c.splice(p..p, x.chars()); }
            }
        }
        c.into_iter().collect()
    }
}

/// Conservative test that a generated bare word is one (used only for generation).
pub fn valid_ident(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    let dig = |i: usize| c.get(i).map(|x| x.is_ascii_digit()).unwrap_or(false);
    if c.is_empty() || dig(0) { return false; }
    let sign = c[0] == '-' || c[0] == '+';
    if sign && dig(1) { return false; }
    if c[0] == '.' && dig(1) { return false; }
    if sign && c.get(1) == Some(&'.') && dig(2) { return false; }
    !["true", "false", "null", "inf", "-inf", "nan"].contains(&s)
}
