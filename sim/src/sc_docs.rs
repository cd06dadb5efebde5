//! C05, C06, C07, C11: SQL documents on their way from client through storage and transport to the parser.
//! Faults damage what is stored or lose, repeat, delay and reorder what is sent; the parser reads what arrives.
use crate::engine::*;
use wl::gen::{Grammar, Style, OPS, UNI};
use crate::model::{self, kind_of, Model, Outcome};
use wl::rng::Rng;
use crate::rt;
use crate::sc_threads::clip;
use postgresql_cst_parser::syntax_kind::SyntaxKind;
use postgresql_cst_parser::ParserError;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq)]
pub enum Which {
    Damaged,  // C05
    Backward, // C06
    Stream,   // C07
    Engines,  // C11
    Reflow,   // C22
    Empty,    // C23
    Doors,    // C13
    Contents, // C15
    Language, // C20
    Scan,     // C21
}
pub struct Docs {
    pub which: Which,
    pub g: Arc<Grammar>,
    pub corpus: Vec<String>,
    pub peer: Option<Peer>,
    /// C08: the peer is the build of the sources the generators write.
    pub shipped: bool,
    /// C20: the reference parser.
    pub tables: Option<wl::tables::Tables>,
}

pub const FAULTS: &[&str] = &["truncate", "bit flip", "lost block", "repeated block", "swapped blocks", "torn write (splice of another version)", "zeroed block", "blanked block", "newline translation", "case flip", "inserted byte", "overwritten byte", "lost line ends", "byte order mark", "moved block", "stuck byte"];
const INTERESTING: &[&str] = &["'", "\"", "$", "$$", "$a$", "/*", "*/", "--", "\n", "\r", ";", "(", ")", "[", "]", "\\", "E'", "e'\\", "U&'", "U&\"", "x'", "B'", "N'", "..", ".", ":", "::", ":=", "=>", ",", "-", "+", "@", "!", "~", "&", "#", "|", "`", "?", "%", "^", "*", "/", "<", ">", "=", "0x", "0b", "0o", "1e", "1_", "_", "1.", "{", "}", "\u{0}", "\u{1}", "\u{7f}", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "\u{2028}", "é", "\u{10ffff}", "\\u", "\\U0001", "\\x", "\\777", "''", "\"\"", "/**/", "$1", "$99999999999", "not", "with", "nulls ", "format ", "without ", "uescape '!'", " between ", " time ", " json"];

/// Applies one storage or transport fault. Positions are taken modulo what is there.
fn apply(v: &mut Vec<u8>, o: &Op, other: &[u8], from: usize) {
    let n = v.len();
    let lo = from.min(n);
    let room = n - lo;
    let at = |x: u32| lo + if room == 0 { 0 } else { x as usize % (room + 1) };
    let blk = |p: usize, b: u32| (p + b as usize).min(n);
    match o.k {
        0 => v.truncate(at(o.a)),
        1 | 9 => {
            let p = at(o.a);
            if p < n {
                v[p] ^= if o.k == 9 { 0x20 } else { 1 << (o.b % 7) };
            }
        }
        2 => {
            let p = at(o.a);
            let e = blk(p, o.b);
            v.drain(p..e);
        }
        3 => {
            let p = at(o.a);
            let e = blk(p, o.b);
            let c: Vec<u8> = v[p..e].to_vec();
            let times = 1 + (o.c % 3) as usize;
            for _ in 0..times {
                v.splice(e..e, c.iter().copied());
            }
        }
        4 | 14 => {
            let p = at(o.a);
            let e = blk(p, o.b);
            let c: Vec<u8> = v.drain(p..e).collect();
            let q = lo + (o.c as usize) % (v.len() - lo + 1);
            if o.k == 4 {
                let e2 = (q + c.len()).min(v.len());
                let d: Vec<u8> = v.drain(q..e2).collect();
                v.splice(q..q, c);
                let p = p.min(v.len());
                v.splice(p..p, d);
            } else {
                v.splice(q..q, c);
            }
        }
        5 => {
            let p = at(o.a);
            let q = if other.is_empty() { 0 } else { o.b as usize % (other.len() + 1) };
            v.truncate(p);
            v.extend_from_slice(&other[q..]);
        }
        6 | 7 => {
            let p = at(o.a);
            let e = blk(p, o.b);
            for x in &mut v[p..e] {
                *x = if o.k == 6 { 0 } else { b' ' };
            }
        }
        8 => {
            let p = at(o.a);
            let t: Vec<u8> = v.drain(p..).collect();
            for c in t {
                match (c, o.b % 3) {
                    (b'\n', 0) => v.extend(b"\r\n"),
                    (b'\n', 1) => v.push(b'\r'),
                    (b' ', 2) => v.push(b'\n'),
                    _ => v.push(c),
                }
            }
        }
        10 => {
            let p = at(o.a);
            let s = INTERESTING[o.b as usize % INTERESTING.len()].as_bytes();
            v.splice(p..p, s.iter().copied());
        }
        11 => {
            let p = at(o.a);
            let s = INTERESTING[o.b as usize % INTERESTING.len()].as_bytes();
            let e = (p + 1 + (o.c % 3) as usize).min(n);
            v.splice(p..e, s.iter().copied());
        }
        12 => {
            let mut i = at(o.a);
            let mut left = 1 + o.b % 4;
            while i < v.len() && left > 0 {
                if v[i] == b'\n' || v[i] == b'\r' {
                    v.remove(i);
                    left -= 1;
                } else {
                    i += 1;
                }
            }
        }
        13 => {
            let p = if from == 0 && o.b % 2 == 0 { 0 } else { at(o.a) };
            v.splice(p..p, [0xEF, 0xBB, 0xBF]);
        }
        _ => {
            let p = at(o.a);
            let e = blk(p, o.b % 64);
            let c = if n > 0 { v[o.c as usize % n] } else { b'x' };
            for x in &mut v[p..e] {
                *x = c;
            }
        }
    }
}
/// What the reader is handed: the stored bytes, with undecodable ones replaced.
pub fn deliver(p: &Plan) -> String {
    let other = p.docs.get(1).map(|d| d.as_bytes().to_vec()).unwrap_or_default();
    let mut v = p.docs[0].as_bytes().to_vec();
    let from = if p.kind == "backward" { p.threads[1][0].a as usize } else { 0 };
    for o in &p.threads[0] {
        apply(&mut v, o, &other, from);
        if v.len() > 300_000 {
            v.truncate(300_000);
        }
    }
    String::from_utf8_lossy(&v).into_owned()
}
pub fn fault(r: &mut Rng, len: usize, other: usize) -> Op {
    let k = *r.pick(&[0u8, 0, 1, 1, 2, 2, 3, 4, 5, 5, 6, 7, 8, 9, 10, 10, 10, 11, 11, 11, 12, 13, 14, 15]);
    let b = match k {
        2 | 3 | 4 | 6 | 7 | 14 => *r.pick(&[1, 2, 4, 8, 16, 64, 512]) as u32,
        5 => r.below(other + 1) as u32,
        _ => r.below(1000) as u32,
    };
    Op { k, a: r.below(len + 1) as u32, b, c: r.below(len.max(1) + 50) as u32 }
}
/// Long documents: one thing very often, or one very long thing, among ordinary statements.
pub fn long_doc(g: &Grammar, r: &mut Rng) -> String {
    let n = match r.below(4) {
        0 => r.range(250, 300),
        1 => r.range(4_000, 4_200),
        2 => r.range(32_700, 32_800),
        _ => r.range(65_400, 66_000),
    };
    let few = n.min(*r.pick(&[300, 1_100, 2_100, 4_200]));
    let s = |x: &str| x.repeat(n);
    let x = match r.below(20) {
        0 => format!("select{}1", s(*r.pick(&[" ", "\n", "\t"]))),
        1 => format!("select /*{}*/ 1", s(*r.pick(&["x", "*", "é", "\n", "/", "-"]))),
        2 => format!("select 1 --{}\n", s("x")),
        3 => format!("select '{}'", s(*r.pick(&["x", "''", "\n", "é"]))),
        4 => format!("select {}", s("a")),
        5 => format!("select \"{}\"", s(*r.pick(&["a", "\"\"", "é"]))),
        6 => format!("select {}", s("1")),
        7 => format!("select $a${}$a$", s(*r.pick(&["x", "$b", "$", "\n"]))),
        8 => format!("select E'{}'", s(*r.pick(&["\\n", "\\x41", "\\\\", "\\'"]))),
        9 => format!("select {}", "'a'\n".repeat(n.min(20_000))),
        10 => format!("{} select 1", s(*r.pick(&["/**/", "--\n"]))),
        11 => format!("select 1{}", ",a".repeat(few)),
        12 => "select 1;\n".repeat(few),
        13 => format!("select 1 {} 1", "+".repeat(few.min(3000))),
        14 => format!("select {} 1", "/*".repeat(few.min(2100)) + &"*/".repeat(few.min(2100))),
        15 => format!("insert into t values {}(1)", "(1,'a'),".repeat(few)),
        16 => format!("select f({}1)", "a, ".repeat(few)),
        17 => format!("select x'{}', b'{}'", s("a"), s("1")),
        18 => format!("select ${}$ ", s("a")),
        _ => s(";"),
    };
    match r.below(3) {
        0 => x,
        1 => format!("{}; {x}", g.document(r)),
        _ => format!("{x}; {}", g.document(r)),
    }
}
pub fn doc(g: &Grammar, r: &mut Rng) -> String {
    if r.pm(4) {
        return long_doc(g, r);
    }
    loop {
        let d = match r.below(12) {
            0 => g.soup(r),
            1 => r.pick(wl::gen::SQL).to_string(),
            2 => {
                // dense in literals and trivia
                let mut st = Style::random(r);
                st.odd_pm = 900;
                st.unicode_pm = 400;
                st.comment_pm = *r.pick(&[0, 200, 500]);
                g.literals(r, &st)
            }
            3 => {
                let n = r.range(1, 6);
                (0..n).map(|_| r.pick(INTERESTING).to_string() + *r.pick(&["", " ", "a", "1", "select", "\n", OPS[0], UNI[0]])).collect()
            }
            _ => g.document(r),
        };
        if d.len() < 6000 {
            return d;
        }
    }
}

pub const WS: &[u8] = b" \t\n\r\x0b\x0c";
/// What must hold of the answer to any text. None: it holds.
pub fn judge(text: &str, r: &Result<Result<Outcome, String>, String>) -> Option<(String, String)> {
    let bad = |c: &str, d: String| Some((c.to_string(), format!("{d} (delivered: {})", clip(text))));
    match r {
        Err(p) => bad("panic", format!("the parser panicked: {p}")),
        Ok(Err(_)) => None,
        Ok(Ok(Outcome::Error(e))) => {
            let ok = |p: usize| p <= text.len() && text.is_char_boundary(p);
            match e {
                ParserError::ParseError { start_byte_pos: s, end_byte_pos: e, message } => {
                    if !ok(*s) || !ok(*e) || s > e {
                        return bad("bad-position", format!("error {message:?} at {s}..{e} of {} bytes", text.len()));
                    }
                }
                ParserError::ScanReport(x) => {
                    if !ok(x.position_in_bytes) {
                        return bad("bad-position", format!("error {:?} at {} of {} bytes", x.message, x.position_in_bytes, text.len()));
                    }
                }
                _ => {}
            }
            None
        }
        Ok(Ok(Outcome::Tree(t))) => {
            let m = match guard(|| model::snapshot(t)) {
                Ok(m) => m,
                Err(p) => return bad("panic", format!("reading the tree panicked: {p}")),
            };
            judge_tree(text, &m)
        }
    }
}
pub fn judge_tree(text: &str, m: &Model) -> Option<(String, String)> {
    let bad = |c: &str, d: String| Some((c.to_string(), format!("{d} (delivered: {})", clip(text))));
    if m.text != text {
        return bad("lossy", format!("the tree's text is {}", clip(&m.text)));
    }
    let (ws, cc, sc) = (kind_of(SyntaxKind::Whitespace), kind_of(SyntaxKind::C_COMMENT), kind_of(SyntaxKind::SQL_COMMENT));
    let mut pos = 0u32;
    for (i, r, t) in m.leaves() {
        if r.start != pos || r.end < r.start || r.end as usize > text.len() || !text.is_char_boundary(r.start as usize) || !text.is_char_boundary(r.end as usize) || &text[r.start as usize..r.end as usize] != t {
            return bad("bad-leaf", format!("leaf #{i} {}..{} {} where {pos} was next", r.start, r.end, clip(t)));
        }
        pos = r.end;
        let b = t.as_bytes();
        if b.is_empty() {
            return bad("bad-leaf", format!("leaf #{i} at {} is empty", r.start));
        }
        if r.kind == ws {
            if !b.iter().all(|c| WS.contains(c)) {
                return bad("bad-trivia", format!("a white-space leaf holds {}", clip(t)));
            }
        } else if r.kind == cc {
            if !one_c_comment(b) {
                return bad("bad-trivia", format!("a comment leaf holds {}", clip(t)));
            }
        } else if r.kind == sc {
            if !b.starts_with(b"--") || b.contains(&b'\n') || b.contains(&b'\r') {
                return bad("bad-trivia", format!("a comment leaf holds {}", clip(t)));
            }
        } else if WS.contains(&b[0]) || WS.contains(&b[b.len() - 1]) {
            return bad("bad-leaf", format!("leaf #{i} of kind {} has white space around it: {}", r.kind, clip(t)));
        }
    }
    if pos as usize != text.len() {
        return bad("bad-leaf", format!("the leaves end at {pos} of {}", text.len()));
    }
    for (i, r) in m.recs.iter().enumerate() {
        if !r.tok {
            if let (Some(f), Some(l)) = (r.kids.first(), r.kids.last()) {
                if m.recs[*f as usize].start != r.start || m.recs[*l as usize].end != r.end || r.kids.windows(2).any(|w| m.recs[w[0] as usize].end != m.recs[w[1] as usize].start) {
                    return bad("bad-range", format!("node #{i} {}..{} is not the union of its children", r.start, r.end));
                }
            }
        }
    }
    None
}
fn one_c_comment(b: &[u8]) -> bool {
    if b.len() < 4 || !b.starts_with(b"/*") {
        return false;
    }
    let (mut i, mut d) = (0, 0);
    while i + 1 < b.len() {
        if &b[i..i + 2] == b"/*" {
            d += 1;
            i += 2;
        } else if &b[i..i + 2] == b"*/" {
            d -= 1;
            i += 2;
            if d == 0 {
                return i == b.len();
            }
        } else {
            i += 1;
        }
    }
    false
}
pub fn trivia(k: u32) -> bool {
    k == kind_of(SyntaxKind::Whitespace) || k == kind_of(SyntaxKind::C_COMMENT) || k == kind_of(SyntaxKind::SQL_COMMENT)
}
pub fn model_of(obs: &[u8]) -> Option<Model> {
    if obs.first() != Some(&1) {
        return None;
    }
    let n = u32::from_le_bytes(obs[1..5].try_into().unwrap()) as usize;
    Some(Model::from_bytes(std::str::from_utf8(&obs[5..5 + n]).ok()?, &obs[5 + n..]))
}
/// The statements of a document: pre-order (depth, kind, token text) without trivia and without nodes that hold none.
fn statements(m: &Model) -> Vec<Vec<(u32, u32, String)>> {
    let top = kind_of(SyntaxKind::toplevel_stmt);
    let n = m.recs.len();
    let mut real = vec![false; n];
    for i in (0..n).rev() {
        if m.recs[i].tok {
            real[i] = !trivia(m.recs[i].kind);
        }
        if real[i] && m.recs[i].parent != model::NONE {
            real[m.recs[i].parent as usize] = true;
        }
    }
    let mut out = vec![];
    let mut i = 0;
    while i < n {
        if !m.recs[i].tok && m.recs[i].kind == top {
            let mut v = vec![];
            let mut depth = vec![0u32; n - i];
            let mut j = i;
            while j < n && (j == i || { let p = m.recs[j].parent as usize; p != u32::MAX as usize && p >= i }) {
                if j > i {
                    depth[j - i] = depth[m.recs[j].parent as usize - i] + 1;
                }
                if real[j] {
                    v.push((depth[j - i], m.recs[j].kind, m.texts[j].clone()));
                }
                j += 1;
            }
            if !v.is_empty() {
                out.push(v);
            }
            i = j;
        } else {
            i += 1;
        }
    }
    out
}
/// The whole tree without trivia and without nodes that hold none but trivia.
pub fn skeleton(m: &Model) -> Vec<(u32, u32, String)> {
    let n = m.recs.len();
    let mut real = vec![false; n];
    let mut depth = vec![0u32; n];
    for i in (0..n).rev() {
        if m.recs[i].tok {
            real[i] = !trivia(m.recs[i].kind);
        }
        if real[i] && m.recs[i].parent != model::NONE {
            real[m.recs[i].parent as usize] = true;
        }
    }
    let mut v = vec![];
    for i in 0..n {
        if m.recs[i].parent != model::NONE {
            depth[i] = depth[m.recs[i].parent as usize] + 1;
        }
        if real[i] {
            v.push((depth[i], m.recs[i].kind, m.texts[i].clone()));
        }
    }
    v
}
pub fn first_difference(a: &[(u32, u32, String)], b: &[(u32, u32, String)]) -> String {
    let name = |x: &(u32, u32, String)| format!("{:?} {:?} at depth {}", <SyntaxKind as cstree::Syntax>::from_raw(cstree::RawSyntaxKind(x.1)), x.2, x.0);
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("element {i} is {} instead of {}", name(&a[i]), name(&b[i])),
        None => format!("{} elements instead of {}", a.len(), b.len()),
    }
}
/// Comments that do not sit in the smallest node that holds the tokens on both sides of them (the root, at the ends).
fn misplaced_comment(m: &Model) -> Option<String> {
    let ls: Vec<usize> = m.leaves().map(|(i, _, _)| i).collect();
    let mut prev: Vec<Option<usize>> = vec![];
    let mut last = None;
    for i in &ls {
        prev.push(last);
        if !trivia(m.recs[*i].kind) {
            last = Some(*i);
        }
    }
    let mut next = None;
    for (j, i) in ls.iter().enumerate().rev() {
        if !trivia(m.recs[*i].kind) {
            next = Some(*i);
            continue;
        }
        if m.recs[*i].kind == kind_of(SyntaxKind::Whitespace) {
            continue;
        }
        let want = match (prev[j], next) {
            (Some(a), Some(b)) => {
                let up = |mut x: usize| {
                    let mut v = vec![];
                    while m.recs[x].parent != model::NONE {
                        x = m.recs[x].parent as usize;
                        v.push(x);
                    }
                    v
                };
                let bs: std::collections::BTreeSet<usize> = up(b).into_iter().collect();
                up(a).into_iter().find(|x| bs.contains(x)).unwrap_or(0)
            }
            _ => 0,
        };
        let got = m.recs[*i].parent as usize;
        if got != want {
            let name = |x: usize| format!("{:?} {}..{}", <SyntaxKind as cstree::Syntax>::from_raw(cstree::RawSyntaxKind(m.recs[x].kind)), m.recs[x].start, m.recs[x].end);
            return Some(format!("the comment {} at {} sits in {}, the smallest node around it is {}", clip(&m.texts[*i]), m.recs[*i].start, name(got), name(want)));
        }
    }
    None
}

pub const TRIVIA: &[&str] = &[" ", "  ", "\t", "\n", "\r\n", "\x0c", "\x0b", "\r", " \n\n  ", "/* c */", "/*+ hint */", "-- x\n", "--\n", "/* ' */", "/* ; */", "/* é \u{10ffff} */", "/* a /* nested */ b */", "-- it's\r", "--x\r\n", "/**/", "/***/", "/* \" $$ */", "-- between and with\n", "/*--*/", "--/*\n", "/* first */ between /* x */", " --\n--\n", "/*traceparent='00-5bd66ef5095369c7b0d1f8f4bd33716a-c532cb4098ac3dd2-01'*/", "/*a*/\n/*b*/", "/* \n */", "--日本\n", "/* // */", "/*=*/"];
pub use wl::tables::SEP;
/// The document as sent (tokens joined by single spaces) and as delivered, with the place of every token in both.
fn reflowed(p: &Plan) -> (String, String, Vec<usize>, Vec<usize>) {
    let toks: Vec<&str> = p.docs[0].split(SEP).filter(|t| !t.is_empty()).collect();
    let n = toks.len();
    // gaps: before every token and after the last
    let stuck = |i: usize| i > 0 && i < n && toks[i - 1].ends_with('\'') && toks[i].starts_with('\'');
    let loose = |t: &str| matches!(t, "(" | ")" | "," | ";" | "[" | "]");
    let mut gap: Vec<String> = (0..=n).map(|i| if i == 0 || i == n { "" } else { " " }.to_string()).collect();
    for o in &p.threads[0] {
        let t = TRIVIA[o.b as usize % TRIVIA.len()].replace("/* first */ between /* x */", "/* first *//* x */");
        let some = |i: usize| wl::rng::mix(o.c as u64, i as u64) % 4 == 0;
        match o.k % 8 {
            0 => gap[o.a as usize % (n + 1)] = t,
            1 => gap[o.a as usize % (n + 1)].push_str(&t),
            2 => gap[o.a as usize % (n + 1)].insert_str(0, &t),
            3 => (0..=n).for_each(|i| if some(i) { gap[i] = t.clone() }),
            4 => (0..=n).for_each(|i| gap[i].push_str(&t)),
            5 => (0..=n).filter(|i| gap[*i].trim().is_empty()).collect::<Vec<_>>().into_iter().for_each(|i| gap[i] = gap[i].replace(' ', ["\n", "\t", "\r\n", "  "][o.c as usize % 4])),
            6 => (1..n).for_each(|i| if (loose(toks[i - 1]) || loose(toks[i])) && (o.c % 2 == 0 || some(i)) { gap[i] = String::new() }),
            // a lot of it
            _ => {
                let i = o.a as usize % (n + 1);
                let big = match o.c % 4 { 0 => " ".repeat(70_000), 1 => format!("/*{}*/", "x".repeat(70_000)), 2 => "-- c\n".repeat(300), _ => format!("{}{}", "/*".repeat(300), "*/".repeat(300)) };
                gap[i].push_str(&big);
            }
        }
    }
    let (mut a, mut b) = (String::new(), String::new());
    let (mut pa, mut pb) = (vec![], vec![]);
    for i in 0..=n {
        if stuck(i) {
            gap[i] = " ".into();
        }
        if i > 0 && i < n && gap[i].is_empty() && !loose(toks[i - 1]) && !loose(toks[i]) {
            gap[i] = " ".into();
        }
        if gap[i].starts_with("--") && i > 0 && toks[i - 1].ends_with('-') {
            gap[i].insert(0, ' ');
        }
        if i > 0 && i < n {
            a.push(' ');
        }
        b.push_str(&gap[i]);
        pa.push(a.len());
        pb.push(b.len());
        if i < n {
            a.push_str(toks[i]);
            b.push_str(toks[i]);
        }
    }
    (b, a, pa, pb)
}
fn budget_for(len: usize) -> u64 {
    4_000_000 + 6_000 * len as u64 + 12 * (len as u64) * (len as u64)
}

/// The other build of the parser, in a process of its own.
pub struct Peer {
    inp: std::process::ChildStdin,
    out: std::io::BufReader<std::process::ChildStdout>,
    proc: std::process::Child,
}
impl Peer {
    pub fn new(path: &str, names: bool) -> Peer {
        use std::process::*;
        let mut c = Command::new(path).args(if names { &["serve", "names"][..] } else { &["serve"][..] }).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("peer");
        Peer { inp: c.stdin.take().unwrap(), out: std::io::BufReader::new(c.stdout.take().unwrap()), proc: c }
    }
    pub fn ask(&mut self, d: &str) -> Vec<u8> {
        use std::io::{Read, Write};
        let mut go = || -> std::io::Result<Vec<u8>> {
            self.inp.write_all(&(d.len() as u32).to_le_bytes())?;
            self.inp.write_all(d.as_bytes())?;
            self.inp.flush()?;
            let mut l = [0; 4];
            self.out.read_exact(&mut l)?;
            let mut v = vec![0; u32::from_le_bytes(l) as usize];
            self.out.read_exact(&mut v)?;
            Ok(v)
        };
        match go() {
            Ok(v) => v,
            Err(_) => {
                let st = self.proc.wait();
                let mut b = vec![4u8];
                b.extend(format!("{st:?}").bytes());
                b
            }
        }
    }
}
impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.proc.kill();
        let _ = self.proc.wait();
    }
}
pub fn brief(b: &[u8]) -> String {
    match b.first() {
        Some(1) => format!("tree #{:016x}", wl::rng::hash(b)),
        _ => model::describe(b),
    }
}
pub fn document_plan(prop: &str, text: &str) -> Plan {
    let mut p = Plan::new(prop, "document", Cfg::solo());
    p.docs = vec![text.to_string()];
    p.threads = vec![vec![]];
    p
}
/// The peer's side: answers documents until end of input, each in a forked copy of the pristine process.
pub fn serve() {
    use std::io::{Read, Write};
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    init_global_maps();
    let mut w = Worker::new();
    loop {
        let mut l = [0; 4];
        if i.read_exact(&mut l).is_err() {
            return;
        }
        let mut v = vec![0; u32::from_le_bytes(l) as usize];
        i.read_exact(&mut v).unwrap();
        let b = w.reference(std::str::from_utf8(&v).unwrap(), 0).obs;
        o.write_all(&(b.len() as u32).to_le_bytes()).unwrap();
        o.write_all(&b).unwrap();
        o.flush().unwrap();
    }
}

impl Docs {
    pub fn new(which: Which, g: &Arc<Grammar>, peer: &str) -> Docs {
        let (shipped, peer) = match peer.strip_prefix("docs:") {
            Some(p) => (true, p.split(';').next().unwrap()),
            None => (false, peer),
        };
        if shipped {
            model::BY_NAME.store(true, std::sync::atomic::Ordering::Relaxed);
        }
        let tables = if matches!(which, Which::Language | Which::Scan) { wl::tables::Tables::load(peer) } else { None };
        Docs { which, shipped, tables, g: g.clone(), corpus: vec![], peer: if matches!(which, Which::Engines | Which::Empty | Which::Doors) && !peer.is_empty() { Some(Peer::new(peer, shipped)) } else { None } }
    }
    pub fn accepted(&self, w: &mut Worker, r: &mut Rng, max: usize) -> String {
        for _ in 0..40 {
            let d = doc(&self.g, r);
            if d.len() <= max && w.reference(&d, 0).obs.first() == Some(&1) {
                return d;
            }
        }
        format!("select a, b from t{} where not x between 1 and 2", r.below(10))
    }
    /// Runs a damaged document batch in one child. Ok(flags): which of them reached something new.
    fn run_batch(&self, w: &mut Worker, cfg: Cfg, texts: Vec<String>) -> Result<Vec<u8>, (usize, Violation)> {
        let sh: *const Shared = &w.sh;
        let (end, out, mark) = child(&w.sh, 120, move |o| {
            let sh = unsafe { &*sh };
            let _b = begin(sh, &cfg);
            let shp = sh as *const Shared as usize;
            let res = on_thread(move || {
                let mut flags = vec![];
                let mut o = Out::of(unsafe { &*(shp as *const Shared) });
                for (i, t) in texts.iter().enumerate() {
                    o.mark(i as u64);
                    unsafe { rt::sim_budget(budget_for(t.len())) };
                    let rep = unsafe { &*(&*(shp as *const Shared)).rep };
                    let n0 = rep.new_cells;
                    let s0 = rt::my_steps();
                    let r = parse_armed(t, 0);
                    let s1 = rt::my_steps();
                    if let Some((c, d)) = judge(t, &r) {
                        return Err((i as u64, c, d));
                    }
                    let kind = match &r {
                        Ok(Ok(Outcome::Tree(_))) => 1u8,
                        _ => 0,
                    };
                    let dense = ((s1 - s0) / 50 / (t.len() as u64 + 400)).min(63) as u8;
                    flags.push(kind | (((rep.new_cells > n0) as u8) << 1) | (dense << 2));
                }
                Ok(flags)
            });
            match res {
                Ok(f) => {
                    o.put(&[0]);
                    o.put(&f);
                }
                Err((i, c, d)) => {
                    o.put(&[1]);
                    o.put(&i.to_le_bytes());
                    o.put(c.as_bytes());
                    o.put(b"\x01");
                    o.put(d.as_bytes());
                }
            }
            unsafe { rt::sim_end() };
        });
        w.note_run();
        if end == End::Exit(0) && out.first() == Some(&0) {
            return Ok(out[1..].to_vec());
        }
        if end == End::Exit(0) && out.first() == Some(&1) {
            let i = u64::from_le_bytes(out[1..9].try_into().unwrap()) as usize;
            let s = String::from_utf8_lossy(&out[9..]).into_owned();
            let (c, d) = s.split_once('\u{1}').unwrap();
            return Err((i, Violation { class: c.into(), detail: d.into() }));
        }
        let v = w.verdict(&end, &out).err().unwrap_or(Violation { class: "harness".into(), detail: "no result".into() });
        Err((mark as usize, v))
    }
    fn backward(&self, w: &mut Worker, p: &Plan) -> Verdict {
        let base = w.reference(&p.docs[0], 0);
        let Some(m) = model_of(&base.obs) else { return Ok(()) };
        let k = (p.threads[1][0].a as usize).min(p.docs[0].len());
        let t = deliver(p);
        // the damage may only begin at k
        let same = p.docs[0].bytes().zip(t.bytes()).take_while(|(a, b)| a == b).count();
        let k = if same < k { same } else { k };
        let toks: Vec<u32> = m.leaves().filter(|(_, r, _)| !trivia(r.kind) && (r.start as usize) < k).map(|(_, r, _)| r.start).collect();
        let bound = if toks.len() < 2 { 0 } else { toks[toks.len() - 2] };
        let got = w.reference(&t, 0);
        match got.obs.first() {
            Some(0) => {
                w.count("damaged_rejected", 1);
                if let Some((pos, _)) = model::error_span(&got.obs) {
                    if (pos as u64) < bound as u64 {
                        return bad("reached-back", format!("damage from byte {k} on, but the error is at byte {pos}, before byte {bound}: {} (delivered: {})", model::describe(&got.obs), clip(&t)));
                    }
                }
                Ok(())
            }
            Some(1) => {
                w.count("damaged_accepted", 1);
                let Some(m2) = model_of(&got.obs) else { return bad("harness", "unreadable observation") };
                let f = |m: &Model| -> Vec<(u32, u32, u32)> { m.leaves().filter(|(_, r, _)| r.end <= bound).map(|(_, r, _)| (r.kind, r.start, r.end)).collect() };
                let (a, b) = (f(&m), f(&m2));
                if a != b {
                    let d = a.iter().zip(&b).find(|(x, y)| x != y).map(|(x, y)| format!("{x:?} became {y:?}")).unwrap_or(format!("{} leaves became {}", a.len(), b.len()));
                    return bad("reached-back", format!("damage from byte {k} on changed what stands before byte {bound}: {d} (delivered: {})", clip(&t)));
                }
                Ok(())
            }
            _ => Ok(()), // panics and crashes are C05's
        }
    }
    fn stream(&self, w: &mut Worker, p: &Plan) -> Verdict {
        // docs: the statements; threads[0]: deliveries (a: statement, b: separator), in order
        let mut text = String::new();
        let mut want: Vec<Vec<(u32, u32, String)>> = vec![];
        let mut first_bad: Option<(usize, usize)> = None;
        for (i, o) in p.threads[0].iter().enumerate() {
            let d = &p.docs[o.a as usize % p.docs.len()];
            let x = w.reference(d, 0);
            match x.obs.first() {
                Some(1) => {
                    let Some(m) = model_of(&x.obs) else { return bad("harness", "unreadable observation") };
                    let s = statements(&m);
                    if s.len() != 1 {
                        return Ok(());
                    }
                    want.push(s[0].clone());
                }
                Some(0) => {
                    // rejected at one of its own tokens?
                    match model::error_span(&x.obs) {
                        Some((s, e)) if e > s && e <= d.len() && d[e..].trim_matches(|c: char| WS.contains(&(c as u8)) && c.is_ascii()) != "" => {
                            if first_bad.is_none() {
                                first_bad = Some((i, text.len() + s));
                            }
                        }
                        _ => return Ok(()),
                    }
                }
                _ => return Ok(()),
            }
            text.push_str(d);
            if i + 1 < p.threads[0].len() {
                text.push_str(["\n;\n", "\n;", "\n ; ", "\n;\n/* between */\n", "\n;-- b\n"][o.b as usize % 5]);
                if o.b % 5 == 3 || o.b % 5 == 4 {
                    w.count("comments_between_statements", 1);
                }
            }
        }
        let got = w.reference(&text, 0);
        match (got.obs.first(), first_bad) {
            (Some(0), None) => bad("lost-statement", format!("{} statements, each accepted alone, are rejected together: {} (delivered: {})", want.len(), model::describe(&got.obs), clip(&text))),
            (Some(0), Some((i, pos))) => {
                w.count("streams_rejected", 1);
                if let Some((q, _)) = model::error_span(&got.obs) {
                    if q != pos {
                        return bad("wrong-place", format!("statement {i} is rejected alone at what is byte {pos} here, but the document is rejected at byte {q} (delivered: {})", clip(&text)));
                    }
                }
                Ok(())
            }
            (Some(1), Some((i, pos))) => bad("accepted", format!("statement {i} is rejected alone (at what is byte {pos} here) but the document is accepted (delivered: {})", clip(&text))),
            (Some(1), None) => {
                let Some(m) = model_of(&got.obs) else { return bad("harness", "unreadable observation") };
                let s = statements(&m);
                w.count("streams_accepted", 1);
                if s.len() != want.len() {
                    return bad("statement-count", format!("{} statements were delivered, the tree holds {} (delivered: {})", want.len(), s.len(), clip(&text)));
                }
                for (i, (a, b)) in s.iter().zip(&want).enumerate() {
                    if a != b {
                        let d = a.iter().zip(b).find(|(x, y)| x != y).map(|(x, y)| format!("{x:?} instead of {y:?}")).unwrap_or_else(|| format!("{} elements instead of {}", a.len(), b.len()));
                        return bad("other-statement", format!("statement {i} is not the one parsed alone: {d} (delivered: {})", clip(&text)));
                    }
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }
}
impl Scenario for Docs {
    fn prop(&self) -> &'static str {
        match self.which {
            Which::Damaged => "C05",
            Which::Backward => "C06",
            Which::Stream => "C07",
            Which::Engines if self.shipped => "C08",
            Which::Engines => "C11",
            Which::Reflow => "C22",
            Which::Empty => "C23",
            Which::Doors => "C13",
            Which::Contents => "C15",
            Which::Language => "C20",
            Which::Scan => "C21",
        }
    }
    fn start_stream(&mut self, seed: u64, s: u64, n: u64) {
        self.corpus.clear();
        if let Some(t) = &mut self.tables {
            t.start(seed, s, n);
        }
    }
    fn history(&self, ps: &[Plan]) -> Option<Plan> {
        if self.which != Which::Damaged {
            return None;
        }
        let mut p = Plan::new("C05", "history", ps[0].cfg.clone());
        p.docs = ps.iter().map(deliver).collect();
        p.threads = vec![(0..ps.len() as u32).map(|i| Op { k: 0, a: i, b: 0, c: 0 }).collect()];
        Some(p)
    }
    fn make(&mut self, w: &mut Worker, r: &mut Rng, _run: u64) -> Plan {
        let mut cfg = Cfg::solo();
        cfg.hash_seed = r.u64();
        let mut p = Plan::new(self.prop(), "", cfg);
        match self.which {
            Which::Language => {
                p.kind = "language".into();
                self.make_language(w, r, &mut p);
            }
            Which::Scan => {
                p.kind = "scan".into();
                self.make_scan(r, &mut p);
            }
            Which::Contents => {
                p.kind = "contents".into();
                self.make_contents(w, r, &mut p);
            }
            Which::Doors => {
                if self.peer.is_some() && r.pm(300) {
                    p.kind = "engine".into();
                    self.make_engine(w, r, &mut p);
                    return p;
                }
                p.kind = "doors".into();
                self.make_doors(w, r, &mut p);
            }
            Which::Damaged | Which::Engines | Which::Empty => {
                p.kind = "damaged".into();
                let g = self.g.clone();
                let d = if !self.corpus.is_empty() && r.pm(350) { r.pick(&self.corpus).clone() } else { doc(&g, r) };
                let e = if !self.corpus.is_empty() && r.pm(300) { r.pick(&self.corpus).clone() } else { doc(&g, r) };
                let n = if self.which == Which::Empty { *r.pick(&[0, 0, 0, 1, 2]) } else if self.which == Which::Engines { *r.pick(&[0, 0, 1, 2, 4]) } else { *r.pick(&[0, 0, 1, 1, 1, 1, 2, 3, 8]) };
                let fs = (0..n).map(|_| fault(r, d.len(), e.len())).collect();
                p.docs = vec![d, e];
                p.threads = vec![fs];
            }
            Which::Backward => {
                p.kind = "backward".into();
                let max = *r.pick(&[60, 200, 800]);
                let mut d = self.accepted(w, r, max);
                if r.pm(300) {
                    // a word that what follows may re-label, where a name stands
                    if let Some(m) = model_of(&w.reference(&d, 0).obs) {
                        let names: Vec<(usize, usize)> = m.leaves().filter(|(_, r, _)| r.kind == kind_of(SyntaxKind::IDENT)).map(|(_, r, _)| (r.start as usize, r.end as usize)).collect();
                        if !names.is_empty() {
                            let (a, b) = *r.pick(&names);
                            let word = if r.pm(700) { *r.pick(&["nulls", "format", "without", "not", "with"]) } else { r.pick(self.g.keywords()).as_str() };
                            let x = format!("{}{word}{}", &d[..a], &d[b..]);
                            if w.reference(&x, 0).obs.first() == Some(&1) {
                                d = x;
                            }
                        }
                    }
                }
                // the tail: another document, or words that re-label what stands before them
                let words = r.pm(250);
                let e = if words {
                    (0..r.range(1, 5)).map(|_| format!(" {}", if r.pm(500) { *r.pick(&["first", "last", "time", "ordinality", "json", "between", "in", "like", "ilike", "similar", ")", "(", ",", "a", ";"]) } else { r.pick(self.g.keywords()).as_str() })).collect()
                } else {
                    doc(&self.g, r)
                };
                let mut k = r.below(d.len() + 1);
                if r.pm(500) {
                    // at a token edge
                    if let Some(m) = model_of(&w.reference(&d, 0).obs) {
                        let st: Vec<u32> = m.leaves().map(|(_, r, _)| r.start).collect();
                        if !st.is_empty() {
                            k = (st[r.below(st.len())] as usize + *r.pick(&[0, 0, 1])).min(d.len());
                        }
                    }
                }
                let n = *r.pick(&[1, 1, 2, 4]);
                let mut fs: Vec<Op> = (0..n).map(|_| { let mut f = fault(r, d.len() - k.min(d.len()), e.len()); if r.pm(300) { f.a = 0; } f }).collect();
                if words {
                    fs.insert(0, Op { k: 5, a: 0, b: 0, c: 0 });
                    let keep = *r.pick(&[1, 1, 1, 2]);
                    fs.truncate(keep);
                }
                p.docs = vec![d, e];
                p.threads = vec![fs, vec![Op { k: 100, a: k as u32, b: 0, c: 0 }]];
            }
            Which::Reflow => {
                p.kind = "reflow".into();
                self.make_reflow(w, r, &mut p);
            }
            Which::Stream => {
                p.kind = "stream".into();
                let n = r.range(2, 7);
                let bad_pm = *r.pick(&[0, 0, 0, 150]);
                let mut i = 0;
                while p.docs.len() < n && i < 200 {
                    i += 1;
                    let mut st = Style::random(r);
                    st.budget = st.budget.min(120);
                    let d = match r.below(6) {
                        0 => self.g.literals(r, &st),
                        1 => self.g.nonterminal(r, &st, "SelectStmt"),
                        2 => r.pick(&["select 1", "begin", "commit", "end", "rollback", "select 'a'", "values (1)", "table t", "create table t(a int)", "select a from b where c = $1", "set x to 1", "declare c cursor for select 1", "explain select 1", "begin isolation level serializable, read only"]).to_string(),
                        _ => self.g.statement(r, &st),
                    };
                    if d.len() > 1500 {
                        continue;
                    }
                    let ok = w.reference(&d, 0).obs.first() == Some(&1);
                    if ok || r.pm(bad_pm) {
                        p.docs.push(d);
                    }
                }
                if r.pm(8) {
                    // a very long batch of the shortest of them
                    p.docs.retain(|d| d.len() <= 60);
                    p.docs.push("select 1".into());
                    let n = *r.pick(&[300, 1100, 2100, 4200]);
                    p.threads = vec![(0..n).map(|_| Op { k: 0, a: r.below(p.docs.len()) as u32, b: r.below(5) as u32, c: 0 }).collect()];
                    return p;
                }
                // clients send their statements in order; the network loses, repeats and delays them
                let mut q: Vec<Op> = vec![];
                for i in 0..p.docs.len() {
                    q.push(Op { k: 0, a: i as u32, b: r.below(5) as u32, c: 0 });
                }
                for _ in 0..r.below(4) {
                    if q.is_empty() {
                        break;
                    }
                    let i = r.below(q.len());
                    match r.below(3) {
                        0 => {
                            q.remove(i);
                        }
                        1 => {
                            let o = q[i];
                            let j = r.below(q.len() + 1);
                            q.insert(j, o);
                        }
                        _ => {
                            let o = q.remove(i);
                            let j = r.below(q.len() + 1);
                            q.insert(j, o);
                        }
                    }
                }
                p.threads = vec![q];
            }
        }
        p
    }
    fn components(&self) -> Option<(&'static str, &'static str)> {
        match self.which {
            Which::Doors => Some(("postgresql-cst-parser and postgresql-cst-parser-wasm natively under the simulated machine, on real pthreads passing a baton; and compiled for wasm32-unknown-unknown in node's WebAssembly engine, single-threaded", "thread scheduling, futex, sleep, clocks, getrandom, getenv, open, the heap; for the engine: the functions wasm-bindgen imports, the most its memory may grow to")),
            _ => None,
        }
    }
    fn exec(&self, w: &mut Worker, p: &Plan) -> Verdict {
        match self.which {
            Which::Damaged if p.kind == "deep" => self.deep(w, p),
            Which::Damaged if p.kind == "history" => {
                let texts = p.threads[0].iter().map(|o| p.docs[o.a as usize % p.docs.len()].clone()).collect();
                self.run_batch(w, p.cfg.clone(), texts).map(|_| ()).map_err(|e| e.1)
            }
            Which::Damaged => self.run_batch(w, p.cfg.clone(), vec![deliver(p)]).map(|_| ()).map_err(|e| e.1),
            Which::Backward => self.backward(w, p),
            Which::Stream => self.stream(w, p),
            Which::Engines => self.engines(w, p),
            Which::Reflow => self.reflow(w, p),
            Which::Empty => self.empties(w, p),
            Which::Doors if p.kind == "engine" => self.engine(w, p),
            Which::Doors => self.doors(w, p),
            Which::Contents => self.contents(w, p),
            Which::Language => self.language(w, p),
            Which::Scan => self.scanned(w, p),
        }
    }
    fn exec_batch(&mut self, w: &mut Worker, ps: &[Plan]) -> Option<(usize, Violation)> {
        if matches!(self.which, Which::Damaged | Which::Engines | Which::Empty) || self.which == Which::Backward {
            for p in ps {
                for o in &p.threads[0] {
                    w.count(&format!("fault: {}", FAULTS[o.k as usize % FAULTS.len()]), 1);
                }
            }
        }
        if self.which == Which::Stream {
            for p in ps {
                w.count("statements_sent", p.docs.len() as u64);
                w.count("statements_delivered", p.threads[0].len() as u64);
                let a: Vec<u32> = p.threads[0].iter().map(|o| o.a).collect();
                w.count("streams_with_a_fault", (a != (0..p.docs.len() as u32).collect::<Vec<_>>()) as u64);
            }
        }
        if self.which == Which::Language {
            return self.language_batch(w, ps);
        }
        if self.which == Which::Scan {
            return self.scan_batch(w, ps);
        }
        if self.which != Which::Damaged {
            for (i, p) in ps.iter().enumerate() {
                if let Err(v) = self.exec(w, p) {
                    return Some((i, v));
                }
            }
            return None;
        }
        match self.run_batch(w, ps[0].cfg.clone(), ps.iter().map(deliver).collect()) {
            Ok(f) => {
                for (p, f) in ps.iter().zip(f) {
                    w.count(if f & 1 == 1 { "accepted" } else { "rejected" }, 1);
                    w.max("max_steps_per_byte", (f >> 2) as u64 * 50);
                    if f & 2 != 0 && p.docs[0].len() < 8000 {
                        w.count("reached_new_code_or_table_cells", 1);
                        if self.corpus.len() < 400 {
                            self.corpus.push(deliver(p));
                        } else {
                            let i = w.counters["reached_new_code_or_table_cells"] as usize % 400;
                            self.corpus[i] = deliver(p);
                        }
                    }
                }
                None
            }
            Err(e) => Some(e),
        }
    }
    fn batch(&self) -> usize {
        match self.which {
            Which::Damaged => 50,
            Which::Language => 40,
            Which::Scan => 40,
            _ => 1,
        }
    }
    fn runs(&self, thorough: bool) -> u64 {
        let q = match self.which {
            Which::Damaged => 120_000,
            Which::Backward => 64_000,
            Which::Stream => 16_000,
            Which::Engines => 12_000,
            Which::Reflow => 24_000,
            Which::Empty => 16_000,
            Which::Doors => 12_000,
            Which::Contents => 24_000,
            Which::Language => 260_000,
            Which::Scan => 400_000,
        };
        if thorough {
            q * 20
        } else {
            q
        }
    }
    fn rule(&self) -> String {
        match self.which {
            Which::Damaged => "a run: one SQL document (generated from the grammar, from dense literals, token soup, the repository's examples or an earlier document that reached new code or table cells) put through 0-8 storage and transport faults and parsed under a step budget; the answer is checked against the text. Non-trivial: every run; distinct by document and fault trace",
            Which::Backward => "a run: an accepted document damaged from a random byte on by 1-4 faults; the answer is compared with the undamaged tree. Non-trivial: every run; distinct by document and fault trace",
            Which::Stream => "a run: 2-7 statements from clients, lost, repeated and reordered on the way, joined into a document; compared with each statement alone. Non-trivial: every run; distinct by statements and delivery",
            Which::Engines => "a run: one document through 0-4 storage and transport faults, delivered to both builds of the parser in processes of their own; outcomes compared byte for byte. Non-trivial: every run; distinct by document and fault trace",
            Which::Reflow => "a run: the tokens of one document (two fifths with tokens lost, repeated or swapped) sent through 1-6 rewrites of what stands between them (comments added, changed and stripped, white space changed, newlines translated); compared with the same tokens joined by single spaces. Non-trivial: every run; distinct by document and rewrites",
            Which::Doors => "a run: 1-4 documents, each through 0-4 storage and transport faults, delivered by two clients in orders of their own, one to the WebAssembly entry point and one to the library, on two threads of one process under a random schedule; the answers of the first are compared with the renderings of the second's; or the documents are delivered, some repeatedly, to the WebAssembly build in node's engine, whose instances are lost and sometimes start over with little memory, and each answer is compared with the library's rendering in a fresh process. Non-trivial: every run; distinct by documents, deliveries and schedule",
            Which::Contents => "a run: the tokens of one accepted document (a third of them with tokens lost, repeated or swapped afterwards), 1-8 or all of which get other contents of the same kind on the way (other literals, names, operators, letter case of words); compared with the same tokens with their own contents. Non-trivial: every run; distinct by document and rewrites",
            Which::Scan => "a run: one text (a document, items with all but nothing between them, or a few pieces of one of nine small alphabets where a rule of the scanner has its corners) through 0-3 losses, repetitions, swaps, moves, bit flips, cuts, replacements and insertions of characters; parsed, and compared with what a reference scanner and the reference grammar make of it. Non-trivial: every run; distinct by text and faults",
            Which::Language => "a run: a token stream (tokens of an accepted document, an expression of operators of all levels, a walk through the reference automaton towards what it has seen least, several statements), two fifths of them through 1-4 losses, repetitions, swaps, cuts and foreign tokens; fed to the parser and to the reference parser. Non-trivial: every run; distinct by tokens and fault trace",
            Which::Empty => "a run: one document through 0-2 storage and transport faults, delivered to both builds of the parser in processes of their own; outcomes compared, empty nodes and the node trivia hang on aside. Non-trivial: every run; distinct by document and fault trace",
        }
        .into()
    }
    fn droppable(&self, _p: &Plan, o: &Op) -> bool {
        o.k < 100
    }
    fn nontrivial(&self) -> &'static str {
        "any"
    }
    fn extra(&self, p: &Plan) -> Vec<(String, String)> {
        match self.which {
            Which::Stream | Which::Doors => vec![],
            Which::Scan => vec![("delivered".into(), crate::sc_scan::received(p))],
            Which::Language => vec![("delivered".into(), crate::sc_gram::delivered(p).join(" "))],
            Which::Contents => vec![("delivered".into(), crate::sc_transit::contents_texts(p).1)],
            Which::Reflow => vec![("delivered".into(), reflowed(p).0)],
            _ if p.kind == "deep" || p.kind == "history" => vec![],
            _ => vec![("delivered".into(), deliver(p))],
        }
    }
}
pub const DEEP: &[&str] = &["parens", "plus", "statements", "columns", "case", "comments", "brackets", "subselects", "not", "joins"];
pub fn deep_text(kind: usize, n: usize) -> String {
    let r = |s: &str| s.repeat(n);
    match DEEP[kind % DEEP.len()] {
        "parens" => format!("select {}1{}", r("("), r(")")),
        "plus" => format!("select 1{}", r("+1")),
        "statements" => r("select 1;"),
        "columns" => format!("select 1{}", r(",1")),
        "case" => format!("select {}1{}", r("case when a then "), r(" end")),
        "comments" => format!("select {} {} 1", "/*".repeat(n.min(3000)), "*/".repeat(n.min(3000))),
        "brackets" => format!("select a{}", r("[1]")),
        "subselects" => format!("{}select 1{}", r("select * from ("), r(") x")),
        "not" => format!("select {}a", r("not ")),
        _ => format!("select 1 from a{}", r(" join b on c")),
    }
}
pub fn deep_plan(kind: usize, n: usize, mb: usize) -> Plan {
    let mut p = Plan::new("C05", "deep", Cfg::solo());
    p.threads = vec![vec![Op { k: 101, a: kind as u32, b: n as u32, c: mb as u32 }]];
    p
}
pub fn deep_id(p: &Plan) -> String {
    let o = p.threads[0][0];
    format!("deep:{}:{}:{}M", DEEP[o.a as usize % DEEP.len()], o.b, o.c)
}
impl Docs {
    /// A document that nests or lists `b` levels, on a thread with `c` MiB of stack.
    fn deep(&self, w: &mut Worker, p: &Plan) -> Verdict {
        let Some(o) = p.threads[0].first().copied() else { return Ok(()) };
        let t = deep_text(o.a as usize, o.b as usize);
        let sh: *const Shared = &w.sh;
        let cfg = p.cfg.clone();
        let (end, out, _) = child(&w.sh, 120, move |out| {
            let sh = unsafe { &*sh };
            let _b = begin(sh, &cfg);
            unsafe { rt::sim_budget(budget_for(t.len())) };
            let t2 = t.clone();
            let r = std::thread::Builder::new()
                .stack_size((o.c as usize) << 20)
                .spawn(move || {
                    let r = parse_armed(&t2, 0);
                    match &r {
                        Ok(Ok(Outcome::Tree(x))) if u32::from(x.text_range().end()) as usize != t2.len() => Some(("lossy".to_string(), "the tree does not cover the text".to_string())),
                        Err(p) => Some(("panic".to_string(), p.clone())),
                        _ => None,
                    }
                })
                .unwrap()
                .join();
            if let Ok(Some((c, d))) = r {
                out.put(c.as_bytes());
                out.put(b"\x01");
                out.put(d.as_bytes());
            }
            unsafe { rt::sim_end() };
        });
        w.verdict(&end, &out).map_err(|v| Violation { class: v.class, detail: format!("{} on {}", v.detail, deep_id(p)) })
    }
    fn make_reflow(&self, w: &mut Worker, r: &mut Rng, p: &mut Plan) {
        let mut toks: Vec<String> = vec![];
        if r.pm(700) {
            let max = *r.pick(&[60, 200, 800, 3000]);
            let d = self.accepted(w, r, max);
            if let Some(m) = model_of(&w.reference(&d, 0).obs) {
                toks = m.leaves().filter(|(_, r, _)| !trivia(r.kind)).map(|(_, _, t)| t.to_string()).collect();
            }
        }
        if toks.is_empty() {
            let mut st = Style::random(r);
            st.budget = st.budget.min(80);
            toks = self.g.tokens(r, &st);
        }
        let faults = *r.pick(&[0, 0, 0, 1, 2]);
        for _ in 0..faults {
            if toks.is_empty() {
                break;
            }
            let i = r.below(toks.len());
            let j = r.below(toks.len());
            match r.below(4) {
                0 => {
                    toks.remove(i);
                }
                1 => toks.swap(i, j),
                2 => {
                    let t = toks[i].clone();
                    toks.insert(j, t);
                }
                _ => toks[i] = r.pick(&["(", ")", "not", "between", "with", "time", "nulls", "first", "format", "json", "as", ",", ";", "without", "+", "a", "1"]).to_string(),
            }
        }
        toks.retain(|t| !t.contains(SEP) && !t.is_empty());
        w.count("tokens_lost_repeated_or_swapped", faults as u64);
        p.docs = vec![toks.join(&SEP.to_string())];
        let big = r.pm(15);
        let n = r.range(1, 7);
        p.threads = vec![(0..n).map(|i| Op { k: if big && i == 0 { 7 } else { *r.pick(&[0, 0, 1, 1, 2, 2, 3, 4, 5, 6]) }, a: r.below(toks.len() + 1) as u32, b: r.below(TRIVIA.len()) as u32, c: r.below(1000) as u32 }).collect()];
    }
    /// The same tokens with other trivia between them.
    fn reflow(&self, w: &mut Worker, p: &Plan) -> Verdict {
        let (text, base, pa, pb) = reflowed(p);
        let (x, y) = (w.reference(&base, 0).obs, w.reference(&text, 0).obs);
        for o in &p.threads[0] {
            w.count(["fault: gap replaced", "fault: trivia appended to a gap", "fault: trivia put before a gap", "fault: a quarter of the gaps replaced", "fault: trivia in every gap", "fault: blanks translated", "fault: gaps dropped", "fault: very much trivia"][o.k as usize % 8], 1);
        }
        match (x.first(), y.first()) {
            (Some(1), Some(1)) => {
                w.count("accepted", 1);
                let (Some(a), Some(b)) = (model_of(&x), model_of(&y)) else { return bad("harness", "unreadable observation") };
                let (sa, sb) = (skeleton(&a), skeleton(&b));
                if sa != sb {
                    return bad("other-tree", format!("with other trivia {} (delivered: {})", first_difference(&sb, &sa), clip(&text)));
                }
                // all that was delivered stands in the tree, the comments no less than the tokens
                let told: String = b.leaves().map(|(_, _, t)| t).collect();
                let rest = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
                if rest(&told) != rest(&text) {
                    return bad("lost-trivia", format!("{} of {} bytes stand in the tree (delivered: {})", told.len(), text.len(), clip(&text)));
                }
                if let Some(d) = misplaced_comment(&b) {
                    return bad("misplaced-comment", format!("{d} (delivered: {})", clip(&text)));
                }
                Ok(())
            }
            (Some(0), Some(0)) => {
                w.count("rejected", 1);
                // at the same place of the same token
                if let (Some((s, _)), Some((t, _)), 1, 1) = (model::error_span(&x), model::error_span(&y), x[1], y[1]) {
                    let place = |v: &[usize], s: usize| { let i = v.iter().rposition(|q| *q <= s).unwrap_or(0); (i, s.saturating_sub(v[i])) };
                    let (a, b) = (place(&pa, s), place(&pb, t));
                    let end = pa.len() - 1;
                    if a != b && !(a.0 >= end && b.0 >= end) && !(a.0 == end || b.0 == end) {
                        return bad("other-place", format!("joined by blanks the document is rejected at token {} byte {}, with other trivia at token {} byte {} (delivered: {})", a.0, a.1, b.0, b.1, clip(&text)));
                    }
                }
                Ok(())
            }
            (Some(a @ (0 | 1)), Some(b @ (0 | 1))) if a != b => bad("other-verdict", format!("joined by blanks: {}; with other trivia: {} (delivered: {})", brief(&x), brief(&y), clip(&text))),
            _ => Ok(()),
        }
    }
    fn empties(&self, w: &mut Worker, p: &Plan) -> Verdict {
        let t = deliver(p);
        let a = w.reference(&t, 0).obs;
        let peer = self.peer.as_ref().expect("no peer") as *const Peer as *mut Peer;
        let b = unsafe { (*peer).ask(&t) };
        w.count(if a.first() == Some(&1) { "accepted" } else { "rejected" }, 1);
        if let (Some(x), Some(y)) = (model_of(&a), model_of(&b)) {
            let (s, u) = (skeleton(&x), skeleton(&y));
            if s != u {
                return bad("other-tree", format!("in the default build {} (delivered: {})", first_difference(&s, &u), clip(&t)));
            }
            let f = |m: &Model| -> Vec<(u32, u32, u32)> { m.leaves().map(|(_, r, _)| (r.kind, r.start, r.end)).collect() };
            if f(&x) != f(&y) {
                return bad("other-leaves", format!("the builds have different leaves (delivered: {})", clip(&t)));
            }
            if let Some(i) = (1..x.recs.len()).find(|i| !x.recs[*i].tok && x.recs[*i].kids.is_empty()) {
                return bad("empty-node", format!("the default build left an empty node (record {i}) in the tree (delivered: {})", clip(&t)));
            }
            w.count("empty_nodes_taken_out", (y.recs.len() - x.recs.len()) as u64);
            return Ok(());
        }
        if a != b {
            return bad("different-outcome", format!("default build: {}; build with empty nodes: {} (delivered: {})", brief(&a), brief(&b), clip(&t)));
        }
        Ok(())
    }
    fn engines(&self, w: &mut Worker, p: &Plan) -> Verdict {
        let t = deliver(p);
        let a = w.reference(&t, 0).obs;
        let peer = self.peer.as_ref().expect("no peer") as *const Peer as *mut Peer;
        let b = unsafe { (*peer).ask(&t) };
        w.count(if a.first() == Some(&1) { "accepted" } else { "rejected" }, 1);
        if a != b {
            if self.shipped {
                return bad("shipped-differs", format!("shipped sources: {}; sources generated from the specifications: {} (document: {})", brief(&a), brief(&b), clip(&t)));
            }
            return bad("different-outcome", format!("default build: {}; regex-match build: {} (delivered: {})", model::describe(&a), model::describe(&b), clip(&t)));
        }
        Ok(())
    }
}
