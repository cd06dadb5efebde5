//! Workload: SQL documents. Random derivations of the PostgreSQL grammar (a snapshot of the rules, used only to
//! write texts, never to judge them), spelled with varied literals, keyword case, comments and white space.
use crate::rng::Rng;
use std::collections::BTreeMap;

pub struct Grammar {
    kw: BTreeMap<String, String>,
    kw_list: Vec<String>,
    nt: BTreeMap<String, usize>,
    rules: Vec<Vec<Vec<Sym>>>,
    depth: Vec<Vec<u32>>,
    min: Vec<u32>,
    stmts: Vec<usize>,
}
#[derive(Clone, Debug)]
pub enum Sym {
    N(usize),
    T(String),
}

static GRAMMAR: &str = include_str!("../../data/grammar.txt");
pub static SQL: &[&str] = &[
    include_str!("../../data/sql/create_index.sql"),
    include_str!("../../data/sql/create_table.sql"),
    include_str!("../../data/sql/insert.sql"),
    include_str!("../../data/sql/select.sql"),
];

impl Grammar {
    pub fn load() -> Grammar {
        let mut kw = BTreeMap::new();
        let mut raw: Vec<(String, Vec<String>)> = vec![];
        for l in GRAMMAR.lines() {
            let mut p = l.split(' ');
            match p.next() {
                Some("K") => {
                    let k = p.next().unwrap().to_string();
                    kw.insert(k, p.next().unwrap().to_string());
                }
                Some("R") => {
                    let l = p.next().unwrap().to_string();
                    raw.push((l, p.map(|s| s.to_string()).collect()));
                }
                _ => {}
            }
        }
        for (a, b) in [("FORMAT_LA", "format"), ("NOT_LA", "not"), ("NULLS_LA", "nulls"), ("WITH_LA", "with"), ("WITHOUT_LA", "without")] {
            kw.insert(a.into(), b.into());
        }
        let mut nt = BTreeMap::new();
        let mut rules: Vec<Vec<Vec<Sym>>> = vec![];
        for (l, _) in &raw {
            if !nt.contains_key(l) {
                nt.insert(l.clone(), rules.len());
                rules.push(vec![]);
            }
        }
        for (l, r) in &raw {
            let i = nt[l];
            rules[i].push(r.iter().map(|s| nt.get(s).map(|n| Sym::N(*n)).unwrap_or_else(|| Sym::T(s.clone()))).collect());
        }
        const INF: u32 = 1 << 20;
        let mut min = vec![INF; rules.len()];
        loop {
            let mut ch = false;
            for i in 0..rules.len() {
                for r in &rules[i] {
                    let d = Self::rule_depth(r, &min);
                    if d < min[i] {
                        min[i] = d;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let depth = rules.iter().map(|v| v.iter().map(|r| Self::rule_depth(r, &min)).collect()).collect();
        let stmt = nt["stmt"];
        let stmts = rules[stmt].iter().filter_map(|r| if let [Sym::N(n)] = r[..] { Some(n) } else { None }).collect();
        let kw_list = kw.values().cloned().collect();
        Grammar { kw, kw_list, nt, rules, depth, min, stmts }
    }
    fn rule_depth(r: &[Sym], min: &[u32]) -> u32 {
        let mut d = 0;
        for s in r {
            d = d.max(match s {
                Sym::N(n) => min[*n],
                Sym::T(t) if t.starts_with("MODE_") => 1 << 20,
                // these would otherwise be the shortest expressions, and nearly everywhere
                Sym::T(t) if t == "DEFAULT" || t == "OVERLAPS" => 5,
                Sym::T(_) => 0,
            });
        }
        (d + 1).min(1 << 20)
    }
    /// Token names of a random statement.
    fn derive(&self, r: &mut Rng, n: usize, depth: u32, budget: &mut i32, out: &mut Vec<String>) {
        *budget -= 1;
        let lim = if *budget < 0 { self.min[n] } else { depth.max(self.min[n]) };
        let ok: Vec<usize> = (0..self.rules[n].len()).filter(|i| self.depth[n][*i] <= lim).collect();
        let rule = &self.rules[n][*r.pick(&ok)];
        for s in rule {
            match s {
                Sym::N(m) => self.derive(r, *m, depth.saturating_sub(1), budget, out),
                Sym::T(t) => out.push(t.clone()),
            }
        }
    }
}

/// How a document is written; drawn once per document (swarm style).
#[derive(Clone)]
pub struct Style {
    pub comment_pm: usize,
    pub ws: usize,
    pub caps: usize,
    pub unicode_pm: usize,
    pub odd_pm: usize,
    pub tight_pm: usize,
    pub long_pm: usize,
    pub depth: u32,
    pub budget: i32,
}
impl Style {
    pub fn random(r: &mut Rng) -> Style {
        Style {
            comment_pm: *r.pick(&[0, 0, 0, 30, 150]),
            ws: r.below(4),
            caps: r.below(3),
            unicode_pm: *r.pick(&[0, 50, 300]),
            odd_pm: *r.pick(&[50, 300, 800]),
            tight_pm: *r.pick(&[0, 300, 900]),
            long_pm: *r.pick(&[0, 0, 0, 60, 300]),
            depth: *r.pick(&[6, 9, 12, 14, 16]),
            budget: *r.pick(&[30, 80, 200]),
        }
    }
    pub fn plain() -> Style {
        Style { comment_pm: 0, ws: 0, caps: 0, unicode_pm: 0, odd_pm: 0, tight_pm: 0, long_pm: 0, depth: 10, budget: 60 }
    }
}

pub const UNI: &[&str] = &["é", "ß", "日本", "名前", "данные", "🙂", "é́", "ﬀ", "\u{a0}", "\u{2003}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10ffff}", "İ", "K"];
pub const OPS: &[&str] = &["||", "->", "->>", "#>", "#>>", "@>", "<@", "?|", "?&", "~", "~*", "!~", "!~*", "&&", "|/", "@", "<->", "##", "=~", "<<|", "&<", "^@", "@@", "!!", "-|-", "`", "?", "|", "&", "#", "~~", "*<>*", "@-@", "&+", "%%%", "<=>", "===", "~<=~"];

/// The length of a token that may be of any length: near a power of two as often as not.
pub fn size(r: &mut Rng) -> usize {
    match r.below(8) {
        0..=2 => r.range(1, 12),
        3..=4 => r.range(10, 40),
        5..=6 => ((1usize << r.range(3, 9)) + r.below(7)).saturating_sub(3),
        _ => r.range(1, 300),
    }
}
fn chars(r: &mut Rng, set: &str, n: usize) -> String {
    let c: Vec<char> = set.chars().collect();
    (0..n).map(|_| *r.pick(&c)).collect()
}
const LETTERS: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
/// What continues a quoted string: blanks with a line end among them.
fn gap(r: &mut Rng) -> String {
    let b = |r: &mut Rng, max: usize, set: &[&'static str]| (0..r.below(max)).map(|_| *r.pick(set)).collect::<String>();
    let head = b(r, 4, &[" ", "\t", "\x0c", "\x0b"]);
    let tail = b(r, 5, &[" ", "\t", "\x0c", "\x0b", "\n", "\r", "\r\n"]);
    format!("{head}{}{tail}", r.pick(&["\n", "\r", "\r\n"]))
}
/// A piece of an escape string: mostly right, sometimes wrong.
fn escape(r: &mut Rng) -> String {
    const EDGE: &[u32] = &[1, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff];
    const WIDE: &[u32] = &[0x10000, 0x10ffff, 0x1f600, 0x41];
    match r.below(14) {
        0 => format!("\\u{:04x}", r.pick(EDGE)),
        1 => format!("\\u{:04X}", *r.pick(&[0x41u32, 0x3b1, 0x4e00, 0xe000 + 5])),
        2 => format!("\\U{:08X}", if r.pm(500) { r.pick(WIDE) } else { r.pick(EDGE) }),
        3 => {
            // a surrogate pair, its ends included
            let (a, b) = (*r.pick(&[0xd800u32, 0xd83d, 0xdbff, 0xda00]), *r.pick(&[0xdc00u32, 0xde00, 0xdfff, 0xdd55]));
            if r.pm(800) { format!("\\u{a:04x}\\u{b:04X}") } else { format!("\\U{a:08x}\\U{b:08x}") }
        }
        4 => format!("\\{:o}", r.below(512)),
        5 => format!("\\x{:x}", r.below(256)),
        6 => r.pick(&["\\b", "\\f", "\\n", "\\r", "\\t", "\\v", "\\q", "\\é", "\\日", "\\ ", "\\\n", "\\8", "\\xg", "\\\""]).to_string(),
        7 => r.pick(&["\\\\", "\\'", "''"]).to_string(),
        8 if r.pm(30) => r.pick(&["\\u12", "\\U0010", "\\ud800", "\\udc00", "\\ud800\\u0041", "\\ud800x", "\\U00110000", "\\Uffffffff", "\\u0000", "\\0", "\\x0", "\\x", "\\U00000000"]).to_string(),
        9 => r.pick(&["é", "日", "🙂", "\n", "$", "--", "/*", ";", "\""]).to_string(),
        _ => r.pick(&["a", "b", "Z", "0", "7", "u", "x", " "]).to_string(),
    }
}
/// A token of some class with random text of random length.
pub fn any_token(r: &mut Rng, kinds: usize) -> String {
    let n = size(r);
    match r.below(kinds) {
        0 => format!("{}{}", chars(r, LETTERS, 1), chars(r, "abcxyzABCXYZ_0189$", n)),
        1 => format!("\"{}\"", (0..n).map(|_| r.pick(&["a", "B", "0", " ", "\"\"", ".", ";", "\n", "'", "$", "é", "-", "/*"]).to_string()).collect::<String>()),
        2 => format!("1{}", chars(r, "0123456789", n)),
        3 => {
            let k = r.below(8);
            let (a, b) = (size(r) % 20 + 1, size(r) % 4 + 1);
            let (d, e) = (chars(r, "0123456789", a), chars(r, "0123456789", b));
            let w = format!("1{}", chars(r, "0123456789", n));
            match k {
                0 => format!("{w}.{d}"),
                1 => format!("{w}."),
                2 => format!(".{w}"),
                3 => format!("{w}e{e}"),
                4 => format!("{w}.{d}E-{e}"),
                5 => format!(".{w}e+{e}"),
                6 => format!("{w}_{d}"),
                _ => format!("{w}.{d}e{e}"),
            }
        }
        4 => {
            let k = r.below(3);
            format!("{}{}", ["0x", "0o", "0b"][k], chars(r, ["0123456789abcdefABCDEF", "01234567", "01"][k], n))
        }
        5 => format!("{}'{}'", r.pick(&["", "E", "N", "e"]), (0..n).map(|_| r.pick(&["a", "B", "0", " ", "''", "\n", "\"", "$", "é", "-", "--", "/*", ";", "日", "🙂", "%"]).to_string()).collect::<String>()),
        6 => format!("{}'{}'", r.pick(&["E", "e"]), (0..n.min(40)).map(|_| escape(r)).collect::<String>()),
        7 => {
            let k = (size(r) % 24).min(n);
            let t = chars(r, LETTERS, k);
            format!("${t}${}${t}$", (0..n).map(|_| r.pick(&["a", " ", "'", "\"", "$1", "$x$", "\n", "--", "/*", ";", "é"]).to_string()).collect::<String>()).replace("$$$", "$ $")
        }
        8 => format!("{}'{}'", r.pick(&["B", "b"]), chars(r, "01", n)),
        9 => format!("{}'{}'", r.pick(&["X", "x"]), chars(r, "0123456789abcdefABCDEF", n)),
        10 => format!("${}", chars(r, "123456789", n.min(9))),
        11 => format!("{}{}", chars(r, LETTERS, 1), chars(r, "aé日ßя🙂_", n.min(100))),
        _ => {
            // an operator ends at a comment or in a character that may end one
            let mut o = chars(r, "~!@#^&|`?%<>=*", n);
            o.push(*r.pick(&['@', '~', '|', '&', '#', '%', '!']));
            o
        }
    }
}
pub fn ident(r: &mut Rng, st: &Style) -> String {
    if r.pm(st.long_pm) {
        let n = size(r);
        return if r.pm(700) { format!("v{}", chars(r, "abcxyzABCXYZ_0189", n)) } else { format!("\"{}\"", chars(r, "abc XYZ.0189é", n)) };
    }
    let base = ["a", "b", "t1", "tbl", "col_name", "x", "Foo", "id", "users", "e", "n", "u", "bb", "_x", "a$1", "x1y2", "very_long_identifier_name_that_is_longer_than_sixty_three_bytes_for_truncation"];
    if r.pm(st.unicode_pm) {
        let u = *r.pick(UNI);
        return if r.pm(500) && !u.starts_with(['\u{a0}', '\u{2003}']) { format!("{u}{}", r.pick(&base)) } else { format!("\"{}{u}\"", r.pick(&base)) };
    }
    if r.pm(st.odd_pm / 2) {
        return match r.below(6) {
            0 => "\"a b\"".into(),
            1 => "\"x\"\"y\"".into(),
            2 => "\"--no\"".into(),
            3 => "\"/*\"".into(),
            4 => "\";'\"".into(),
            _ => format!("\"line\n{}\"", r.below(10)),
        };
    }
    if r.pm(150) {
        return format!("v{}", r.below(100000));
    }
    r.pick(&base).to_string()
}
fn dtag(r: &mut Rng) -> String {
    r.pick(&["", "a", "body", "_", "x1", "é", "A", "longer_tag_here"]).to_string()
}
pub fn sconst(r: &mut Rng, st: &Style) -> String {
    if r.pm(st.long_pm) {
        let n = size(r);
        return format!("'{}'", chars(r, "abc XYZ.0189é-", n));
    }
    if !r.pm(st.odd_pm) {
        return format!("'{}'", r.pick(&["", "a", "abc", "2020-01-01", "hello world", "1", "it''s"]));
    }
    let u = if r.pm(st.unicode_pm) { *r.pick(UNI) } else { "z" };
    match r.below(16) {
        0 => format!("'{u} -- not a comment'"),
        1 => format!("'/* {u} */'"),
        2 => format!("'a;b{u}'"),
        3 => "''''".into(),
        4 => format!("'a'{}'b{u}'", gap(r)),
        5 => format!("'a'{}'b'{}'{u}'", gap(r), gap(r)),
        6 => format!("E'a\\n\\t\\'{u}\\\\'"),
        7 => format!("e'\\u00e9\\U0001F600\\x41\\101{u}'"),
        8 => {
            let n = r.range(1, 6);
            format!("E'{}'", (0..n).map(|_| escape(r)).collect::<String>())
        }
        9 => {
            let t = dtag(r);
            format!("${t}$ it's {u} ; -- /* \n $${t}$").replace("$$$", "$ $")
        }
        10 => {
            let t = dtag(r);
            format!("${t}$a $b{u}$x ${t}$")
        }
        11 => "$$$$".into(),
        12 => format!("'{}'", "long ".repeat(r.range(1, 40))),
        13 => format!("E'\\{u}'{}'x\\0'", gap(r)),
        14 => format!("'\n{u}\r\n\t'"),
        _ => format!("$q$ select $$x{u}$$ $q$"),
    }
}
fn iconst(r: &mut Rng, st: &Style) -> String {
    if r.pm(st.long_pm) {
        let n = r.below(9);
        return format!("1{}", chars(r, "0123456789", n));
    }
    if r.pm(st.odd_pm) {
        match r.below(8) {
            0 => "0x1F".into(),
            1 => "0o17".into(),
            2 => "0b101".into(),
            3 => "2147483647".into(),
            4 => "0".into(),
            5 => "007".into(),
            6 => "0XfF".into(),
            _ => format!("{}", r.below(1 << 30)),
        }
    } else {
        format!("{}", r.below(1000))
    }
}
fn fconst(r: &mut Rng) -> String {
    if r.pm(100) {
        let (a, b, c) = (size(r), size(r) % 30, size(r) % 4 + 1);
        return format!("1{}.{}{}", chars(r, "0123456789", a), chars(r, "0123456789", b), if r.pm(400) { format!("{}{}{}", r.pick(&["e", "E"]), r.pick(&["", "+", "-"]), chars(r, "0123456789", c)) } else { String::new() });
    }
    r.pick(&["1.5", ".5", "1.", "1e10", "1.5E-3", "2147483648", "99999999999999999999", "1_000", "0x1_F", "1_0.2_5", ".1e+7", "0.0"]).to_string()
}
pub fn comment(r: &mut Rng, st: &Style) -> String {
    let u = if r.pm(st.unicode_pm) { *r.pick(UNI) } else { "c" };
    if r.pm(st.long_pm) {
        let n = size(r);
        let t: String = (0..n).map(|_| *r.pick(&["a", " ", "é", "'", "$", "*", "-", ";", "x y", "\"", "/"])).collect();
        return if r.pm(500) { format!("--{t}\n") } else { format!("/* {} */", t.replace("*/", "* /").replace("/*", "/ *")) };
    }
    match r.below(8) {
        0 => format!("/* {u} */"),
        1 => format!("/* a /* nested {u} */ b */"),
        2 => format!("/*+ hint */"),
        3 => format!("-- {u}\n"),
        4 => format!("--\n"),
        5 => "/***/".into(),
        6 => format!("/* '{u} \" $$ ; */"),
        _ => format!("--it's {u} /* \r\n"),
    }
}
pub fn space(r: &mut Rng, st: &Style) -> String {
    let mut s = match st.ws {
        0 => " ".to_string(),
        1 => r.pick(&[" ", "  ", "\n", "\t", "\r\n", "\n  ", " \n\n "]).to_string(),
        2 => r.pick(&[" ", "\x0b", "\x0c", "\t", "\r", " \x0c\n"]).to_string(),
        _ => {
            if r.pm(100) {
                "\n".into()
            } else {
                " ".into()
            }
        }
    };
    while r.pm(st.comment_pm) {
        s.push_str(&comment(r, st));
        s.push_str(*r.pick(&["", " ", "\n"]));
    }
    s
}
/// Whether two tokens stay two tokens with nothing between them.
fn may_touch(a: &str, b: &str) -> bool {
    let class = |c: char| match c {
        '(' | ')' | ',' | ';' | '[' | ']' => 0,
        '+' | '-' | '*' | '/' | '<' | '>' | '=' | '~' | '!' | '@' | '#' | '%' | '^' | '&' | '|' | '`' | '?' | ':' => 1,
        _ => 2,
    };
    match (a.chars().next_back(), b.chars().next()) {
        (Some(x), Some(y)) => class(x) == 0 || class(y) == 0 || class(x) != class(y),
        _ => true,
    }
}
impl Grammar {
    pub fn keywords(&self) -> &Vec<String> {
        &self.kw_list
    }
    pub fn is_keyword(&self, w: &str) -> bool {
        self.kw_list.iter().any(|k| k.eq_ignore_ascii_case(w))
    }
    fn spell(&self, r: &mut Rng, st: &Style, t: &str) -> String {
        if let Some(k) = self.kw.get(t) {
            return match st.caps {
                0 => k.clone(),
                1 => k.to_uppercase(),
                _ => k.chars().map(|c| if r.pm(500) { c.to_ascii_uppercase() } else { c }).collect(),
            };
        }
        match t {
            "IDENT" => ident(r, st),
            "SCONST" => sconst(r, st),
            "ICONST" => iconst(r, st),
            "FCONST" => fconst(r),
            "BCONST" | "XCONST" if r.pm(200) => format!("{}'01'{}'10'", if t == "BCONST" { "b" } else { "X" }, gap(r)),
            "BCONST" => r.pick(&["B'1010'", "b''", "B'01'\n'10'", "b'xyz'"]).to_string(),
            "XCONST" => r.pick(&["X'1F'", "x''", "x'ab'\n'cd'"]).to_string(),
            "PARAM" => format!("${}", r.range(0, 12)),
            "Op" => r.pick(OPS).to_string(),
            "TYPECAST" => "::".into(),
            "COLON_EQUALS" => ":=".into(),
            "EQUALS_GREATER" => "=>".into(),
            "LESS_EQUALS" => "<=".into(),
            "GREATER_EQUALS" => ">=".into(),
            "NOT_EQUALS" => r.pick(&["<>", "!="]).to_string(),
            _ => t.trim_matches('\'').to_string(),
        }
    }
    pub fn render(&self, r: &mut Rng, st: &Style, toks: &[String]) -> String {
        let mut s = String::new();
        for (i, t) in toks.iter().enumerate() {
            let w = self.spell(r, st, t);
            if i > 0 {
                if !(may_touch(&s, &w) && r.pm(st.tight_pm)) {
                    s.push_str(&space(r, st));
                }
            }
            s.push_str(&w);
        }
        s
    }
    /// One statement, any kind. Not guaranteed to be accepted.
    pub fn statement(&self, r: &mut Rng, st: &Style) -> String {
        let n = self.stmts[r.below(self.stmts.len())];
        let mut out = vec![];
        let mut b = st.budget;
        let dp = st.depth.max(self.min[n] + r.below(4) as u32);
        self.derive(r, n, dp, &mut b, &mut out);
        self.render(r, st, &out)
    }
    /// The tokens of a statement, spelled.
    pub fn tokens(&self, r: &mut Rng, st: &Style) -> Vec<String> {
        let n = self.stmts[r.below(self.stmts.len())];
        let mut out = vec![];
        let mut b = st.budget;
        let dp = st.depth.max(self.min[n] + r.below(4) as u32);
        self.derive(r, n, dp, &mut b, &mut out);
        out.iter().map(|t| self.spell(r, st, t)).collect()
    }
    pub fn nonterminal(&self, r: &mut Rng, st: &Style, name: &str) -> String {
        let n = self.nt[name];
        let mut out = vec![];
        let mut b = st.budget;
        let dp = st.depth.max(self.min[n] + r.below(4) as u32);
        self.derive(r, n, dp, &mut b, &mut out);
        self.render(r, st, &out)
    }
    /// An accepted SELECT made of every kind of literal, operator and comment.
    pub fn literals(&self, r: &mut Rng, st: &Style) -> String {
        let add = |r: &mut Rng, s: &mut String, w: &str| {
            if !(may_touch(s, w) && r.pm(st.tight_pm)) {
                s.push_str(&space(r, st));
            }
            s.push_str(w);
        };
        let mut s = format!("{}", if st.caps == 1 { "SELECT" } else { "select" });
        let n = r.range(1, 12);
        for i in 0..n {
            if i > 0 {
                add(r, &mut s, ",");
            }
            let one = |r: &mut Rng| match r.below(10) {
                9 => any_token(r, 12),
                0 => sconst(r, st),
                1 => iconst(r, st),
                2 => fconst(r),
                3 => r.pick(&["B'1010'", "b'0'", "X'1F'", "N'n'", "x'ab'\n'cd'", "null", "true", "$1", "$22", "current_date", "count(*)"]).to_string(),
                4 => format!("{}.{}", ident(r, st), ident(r, st)),
                5 => format!("f({})", iconst(r, st)),
                6 => format!("({}::text)", sconst(r, st)),
                _ => ident(r, st),
            };
            let atom = |r: &mut Rng| match r.below(12) {
                0 => format!("({})", one(r)),
                1 => format!("f({},{})", one(r), one(r)),
                2 => format!("[{}", one(r)).replacen('[', "array[", 1) + "]",
                3 => format!("-{}", one(r)),
                _ => one(r),
            };
            let a = atom(r);
            add(r, &mut s, &a);
            let mut compared = false; // comparisons do not associate
            while r.pm(300) {
                let mut op = String::new();
                match r.below(6) {
                    0 if !compared || r.pm(100) => {
                        compared = true;
                        op.push_str(*r.pick(&["<", ">", "=", "<=", ">=", "<>", "!=", "NOT LIKE", "like", "is distinct from"]));
                    }
                    1 => {
                        compared = false;
                        op.push_str(*r.pick(&["and", "or", "AND", "and not"]))
                    }
                    2 | 0 => op.push_str(*r.pick(&["+", "-", "*", "/", "%", "^"])),
                    3 if r.pm(300) => {
                        let n = (size(r) - 1) % 62;
                        op.push_str(&format!("{}@", chars(r, "~!@#^&|`?%<>=*", n)))
                    }
                    _ => op.push_str(*r.pick(OPS)),
                }
                add(r, &mut s, &op);
                let a = atom(r);
                add(r, &mut s, &a);
            }
        }
        s
    }
    /// A document: one or more statements.
    pub fn document(&self, r: &mut Rng) -> String {
        let mut st = Style::random(r);
        let mut s = String::new();
        if r.pm(150) {
            s.push_str(&space(r, &st));
        }
        let n = *r.pick(&[1, 1, 1, 2, 3, 5]);
        for i in 0..n {
            if i > 0 {
                s.push_str(*r.pick(&[";", ";\n", " ; ", ";;", "\n;\n"]));
            }
            if r.pm(200) {
                st = Style::random(r);
            }
            match r.below(10) {
                0..=4 => s.push_str(&self.statement(r, &st)),
                5..=7 => s.push_str(&self.literals(r, &st)),
                8 => s.push_str(&format!("select {}", self.nonterminal(r, &st, "a_expr"))),
                _ => s.push_str(&self.nonterminal(r, &st, "SelectStmt")),
            }
        }
        if r.pm(300) {
            s.push(';');
        }
        if r.pm(300) {
            s.push_str(&space(r, &st));
        }
        s
    }
    /// Token soup: legal tokens in any order, mostly rejected.
    pub fn soup(&self, r: &mut Rng) -> String {
        let st = Style::random(r);
        let mut s = String::new();
        for _ in 0..r.range(1, 25) {
            match r.below(13) {
                12 => s.push_str(&any_token(r, 13)),
                0 => s.push_str(&sconst(r, &st)),
                1 => s.push_str(&ident(r, &st)),
                2 => s.push_str(&iconst(r, &st)),
                3 => s.push_str(&fconst(r)),
                4 => s.push_str(*r.pick(OPS)),
                5 => s.push_str(*r.pick(&["(", ")", ",", ";", "[", "]", ".", "..", ":", "::", ":=", "=>", "{", "}", "\\", "$", "$1", "$1a", "U&'x'", "U&\"x\"", "u&", "'", "\"", "E'", "B'", "X'", "$$", "$a$", "/*", "*/", "--", "+-", "@-", "<-", "/**/", "1e", "1e+", "0x", "0b", "0o", "1a", "1.5x", "1..2", "0b2", "0o8", "$99999999999", "E'\\", "E'\\u", "E'\\uD800'", "E'\\x'", "\u{1}", "\u{7f}", "\0", "\u{feff}"])),
                6 => s.push_str(&comment(r, &st)),
                _ => s.push_str(r.pick(&self.kw_list)),
            }
            if r.pm(800) {
                s.push_str(&space(r, &st));
            }
        }
        s
    }
    /// Weighted mixture used as delivered text.
    pub fn any(&self, r: &mut Rng) -> String {
        match r.below(20) {
            0..=14 => self.document(r),
            15 => r.pick(SQL).to_string(),
            16..=18 => self.soup(r),
            _ => {
                let n = r.below(40);
                (0..n).map(|_| if r.pm(900) { (r.range(1, 126) as u8) as char } else { r.pick(UNI).chars().next().unwrap() }).collect()
            }
        }
    }
}
