//! C21: the scanner against a reference scanner, and after it the grammar against its reference: documents damaged character by character.
use crate::engine::*;
use crate::model::{describe, error_span, kind_of};
use crate::sc_docs::*;
use crate::sc_threads::clip;
use postgresql_cst_parser::syntax_kind::SyntaxKind as S;
use wl::gen::{any_token, comment, size, space, Style, OPS};
use wl::rng::Rng;
use wl::tables::Fate;

const KINDS: &[&str] = &["", "fault: character lost", "fault: characters lost", "fault: characters repeated", "fault: cut short", "fault: characters inserted", "fault: character replaced", "fault: characters swapped", "fault: bit flipped", "fault: piece moved"];
/// What stands at the edges of the scanner's rules.
const PIECES: &[&str] = &[
    "'", "''", "\"", "\"\"", "\\", "$", "$$", "$a$", "$1", "--", "/*", "*/", "-", "*", "/", "+", "E'", "e'", "b'", "B'", "x'", "X'", "n'", "N'", "u", "&", "_", ".", "..", "0x", "0X", "0b", "0o", "0O", "1", "9", "a", "F", "e", "E", "e+", "e-", ":",
    "::", ":=", "=", "=>", "<", "<=", ">=", "<>", "!=", ">", "!", "~", "@", "#", "%", "^", "|", "`", "?", "\n", "\r", " ", "\t", "\x0b", "\x0c", "\x01", "\x1f", "\x7f", "{", "}", "[", "]", "(", ")", ",", ";", "é", "\u{a0}", "\u{2003}",
    "\u{85}", "🙂", "ÿ", "\\u", "\\ud800", "\\udc00", "\\U0010ffff", "\\U00110000", "\\u0000", "\\x", "\\0", "\\'", "'\n'", "' \n\t'", "'\r'", "' '", "'--\n'", "'\n--\n'", "\u{2028}", "K", "ſ",
];
/// Alphabets: small enough that a short text over one meets every corner, and where such a text stands.
const SMALL: &[(&[&str], &[(&str, &str)])] = &[
    (&["0", "1", "9", "_", ".", "e", "E", "x", "X", "b", "o", "a", "f", "g", "+", "-", "$", "2147483647", "2147483648", "é", "..", " "], &[("select ", ""), ("select 1", ""), ("select 0", ""), ("select .", ""), ("select a[", "]"), ("select $", "")]),
    (&["+", "-", "*", "/", "<", ">", "=", "~", "!", "@", "#", "%", "^", "&", "|", "`", "?", "--", "/*", "*/", ":", ".", "::", " ", "\n", "a"], &[("select a ", " b"), ("select a", "b"), ("select 1", "1"), ("select ", " a"), ("select a<", " b"), ("select a@", "/* */b")]),
    (&["'", "''", "\\", " ", "\n", "\r", "\t", "\x0b", "a", "--", "-", "/*", "$", "\"", "é", "0", ";"], &[("select '", "'"), ("select e'", "'"), ("select u&'", "' 1.."), ("select U&'", ""), ("select b'", "'"), ("select X'", "'"), ("select n'", "'"), ("select 'a'", ""), ("select e'\\", "'"), ("select 'a'\n", "'"), ("select B'1'", "'1'")]),
    (&["\\u", "\\U", "\\x", "\\", "0", "00", "0000", "d8", "D800", "dc00", "1", "7", "8", "f", "ffff", "0010ffff", "0000d83d", "g", "'", "\n", "a", "é", "🙂"], &[("select e'", "'"), ("select E'\\u", "'"), ("select E'\\ud83d", "'"), ("select 'a', E'a'\n'", "'")]),
    (&["$", "$$", "$a$", "$b", "a", "é", "1", "_", " ", "'", "\n", "$a", "a$", "A"], &[("select $$", "$$"), ("select $a$", "$a$"), ("select ", ""), ("select $", ""), ("select a", ""), ("select $aé_1$", "$aé_1$")]),
    (&["/*", "*/", "/", "*", "-", "--", "\n", "\r", "+", "a", "'", "$$", " ", "é"], &[("/*", "*/ select 1"), ("select 1 /*", "*/"), ("--", "\nselect 1"), ("select 1 --", ""), ("select a +", " b"), ("select a ~", "b")]),
    (&["\"", "\"\"", "a", "A", " ", "\n", "'", "$", "é", ".", "\\"], &[("select \"", "\""), ("select a", ""), ("select \"\"\"", "\""), ("select a.\"", "\""), ("select \"a\", u&\"", "\" 1"), ("select u&\"", "")]),
    (&["a", "b", "e", "n", "x", "u", "&", "'", "\"", "_", "$", "1", "é", " ", "N", "B", "E", "X", "U", "'1'"], &[("select ", ""), ("select ", "'1'"), ("select ", " 'a'"), ("select _", "")]),
    (&[":", "=", ".", "[", "]", "1", "a", "(", ")", ",", " ", "{", "}", "\\", "\x01", "\x7f", ";", "::", ":="], &[("select a[1", ":2]"), ("select f(a ", " 1)"), ("select a", "int"), ("select a", "")]),
];

/// Where one character more decides.
const BRINKS: &[&str] = &[
    "", "0", "1", "00", "0_", "0_1", "0x", "0X", "0x_", "0x1", "0xF", "0x1_", "0xf_a", "0x1g", "0o", "0O_", "0o7", "0o7_", "0o1_1", "0b", "0B_", "0b1", "0b1_", "0b0_1", "1_", "1_0", "1_0_", "1_0$", "1$", "1a", "1_a", "1.", "1._", "1.5", "1.5_", "1.5_0", "1.5a", ".5", ".5_", ".5_5", ".5a",
    "1e", "1E", "1e+", "1e-", "1e5", "1e5_", "1e5_0", "1e+5", "1E-5_", "1e+5_0", "1e5a", "1.e", "1.e+", "1.e5", "1.5e", "1.5e-", "1.5e+5", "1.5e5_", ".5e", ".5e+", ".5e5", "1_0e5", "1..", "1...", "..", ".", "$", "$1", "$12", "$_", "$a", "$a1", "$é", "$$", "$a$", "$$ $", "$$ $$", "$$ $a", "$$ $1", "$a$ $", "$a$ $a", "$a$ $ab", "$a$ $$",
    "'", "' '", "''", "'a'", "'a' ", "'a'\n", "'a'\n ", "'a' \r", "'a'-", "'a' -", "'a'\n-", "b'", "b'1", "b'1'", "b'1'\n", "X'", "x'f'", "X'f'\n", "n'", "N", "e", "b", "x", "u", "U", "u&", "U&", "_", "é", "a$", "a1", "aé", "日", "\"", "\"a", "\"a\"", "\"\"\"", "\"a\"\"",
    "e'", "e'a", "e'a'", "e'a'\n", "E'\\", "e'\\0", "e'\\01", "e'\\012", "e'\\x", "e'\\x1", "e'\\x1f", "e'\\u", "e'\\u0", "e'\\u00", "e'\\u004", "e'\\u0041", "e'\\U", "e'\\U0", "e'\\U00", "e'\\U000", "e'\\U0000", "e'\\U00000", "e'\\U000000", "e'\\U0000004", "e'\\U00000041", "e'\\u123", "e'\\ud83",
    "e'\\ud83d", "e'\\ud83d\\", "e'\\ud83d\\u", "e'\\ud83d\\ud", "e'\\ud83d\\ude", "e'\\ud83d\\ude0", "e'\\ud83d\\ude00", "e'\\ud83d\\U", "e'\\ud83d\\U0", "e'\\ud83d\\U00", "e'\\ud83d\\U000", "e'\\ud83d\\U0000", "e'\\ud83d\\U0000d", "e'\\ud83d\\U0000de", "e'\\ud83d\\U0000de0", "e'\\ud83d\\U0000de00", "e'\\U0000d83d",
    "/*", "/* *", "/* /", "/* **", "/**", "/*/", "/* /* ", "/*/*", "/* /* */", "--", "-- a", "-", "+", "*", "/", "<", ">", "=", "!", "~", "@", "^", "&", "|", "`", "?", "%", "#", "<>", "!=", "=>", "<=", ">=", "+-", "-+", "@-", "@+", "*-", "=-", "<->", "~~", ":", "::", ":=", "a ", "\n", "\r", "a;", "(", "[", ",",
];
const AFTER: &[&str] = &["", "", "", "1", "'", "''", " 1", "0'", "a'", "dc00'", "$$", " $a$", "*/ 1", "\"", " a", "\n1", "\n'b'", ")", "+", "-1", "_1", "e5"];
/// Any character: ASCII as often as not.
fn any_char(r: &mut Rng) -> char {
    if r.pm(750) {
        return r.range(1, 127) as u8 as char;
    }
    let n = *r.pick(&[0x80u32, 0x800, 0x10000, 0x110000]);
    char::from_u32(r.below(n as usize) as u32).filter(|c| *c != '\0').unwrap_or('é')
}
/// A number, near the largest that is an integer as often as not, its digits in groups.
fn number(r: &mut Rng) -> String {
    let (prefix, base) = *r.pick(&[("", 10u32), ("", 10), ("", 10), ("0x", 16), ("0X", 16), ("0o", 8), ("0O", 8), ("0b", 2), ("0B", 2)]);
    let mut v: u64 = match r.below(6) {
        0 | 1 => (1u64 << 31) - 3 + r.below(6) as u64,
        2 => (1u64 << *r.pick(&[7, 8, 15, 16, 30, 31, 32, 33, 63])) - 2 + r.below(4) as u64,
        3 => 10u64.pow(r.below(13) as u32),
        _ => {
            let bits = r.range(1, 33);
            r.below(1 << bits) as u64
        }
    };
    let mut digits = vec![];
    loop {
        let c = char::from_digit((v % base as u64) as u32, base).unwrap_or('0');
        digits.push(if r.pm(300) { c.to_ascii_uppercase() } else { c });
        v /= base as u64;
        if v == 0 {
            break;
        }
    }
    if r.pm(300) {
        digits.extend((0..r.below(12)).map(|_| '0'));
    }
    let groups = *r.pick(&[0, 0, 100, 300, 700, 1000]);
    let mut s = prefix.to_string();
    for (k, c) in digits.iter().rev().enumerate() {
        if (k > 0 || base != 10) && r.pm(groups) {
            s.push('_');
        }
        s.push(*c);
    }
    if base == 10 && r.pm(250) {
        s.push_str(r.pick(&[".", ".5", ".1_5", ".5_0_1", "e5", "E+1_0", "e-1_2_3", ".0e1_1"]));
    }
    s
}
/// The text that is delivered.
pub fn received(p: &Plan) -> String {
    let mut v: Vec<char> = p.docs[0].chars().collect();
    for o in &p.threads[0] {
        let n = v.len();
        let (i, j) = (o.a as usize % n.max(1), o.b as usize % n.max(1));
        let other: Vec<char> = p.docs.get(1 + o.c as usize).map_or(vec![], |d| d.chars().collect());
        match o.k {
            1 if n > 0 => {
                v.remove(i);
            }
            2 if n > 0 => {
                v.drain(i..(i + 1 + o.b as usize % 9).min(n));
            }
            3 if n > 0 => {
                let c: Vec<char> = v[i..(i + 1 + o.b as usize % 9).min(n)].to_vec();
                v.splice(i..i, c);
            }
            4 => v.truncate(i),
            5 => {
                let at = o.a as usize % (n + 1);
                v.splice(at..at, other);
            }
            6 if n > 0 => {
                v.splice(i..i + 1, other);
            }
            7 if n > 0 => v.swap(i, j),
            8 if n > 0 => {
                if let Some(c) = char::from_u32(v[i] as u32 ^ 1 << (o.b % 7)) {
                    v[i] = c;
                }
            }
            9 if n > 0 => {
                let c: Vec<char> = v.drain(i..(i + 1 + o.c as usize % 7).min(n)).collect();
                let at = j.min(v.len());
                v.splice(at..at, c);
            }
            _ => {}
        }
    }
    v.into_iter().filter(|c| *c != '\0').collect()
}
fn char_kind(c: &str) -> Option<u32> {
    Some(kind_of(match c {
        "(" => S::LParen,
        ")" => S::RParen,
        "[" => S::LBracket,
        "]" => S::RBracket,
        "," => S::Comma,
        ";" => S::Semicolon,
        ":" => S::Colon,
        "." => S::Dot,
        "+" => S::Plus,
        "-" => S::Minus,
        "*" => S::Star,
        "/" => S::Slash,
        "%" => S::Percent,
        "^" => S::Caret,
        "<" => S::Less,
        ">" => S::Greater,
        "=" => S::Equals,
        _ => return None,
    }))
}

impl Docs {
    pub fn make_scan(&self, r: &mut Rng, p: &mut Plan) {
        let d = match r.below(20) {
            0..=5 => {
                let d = doc(&self.g, r);
                if d.len() > 3000 {
                    "select 1".into()
                } else {
                    d
                }
            }
            6..=11 => {
                // items with all but nothing between them
                let st = Style::random(r);
                let mut s = String::from("select ");
                for k in 0..r.range(1, 8) {
                    if k > 0 {
                        match r.below(6) {
                            0 | 1 => s.push(','),
                            2 => s.push_str(&space(r, &st)),
                            3 => s.push_str(r.pick(OPS)),
                            4 => {
                                let n = size(r).min(80);
                                s.extend((0..n).map(|_| *r.pick(&['+', '-', '*', '/', '<', '>', '=', '~', '!', '@', '%', '^', '|', '?'])));
                            }
                            _ => s.push_str(*r.pick(&["+", "-", "*", "/", "::", "and", " or ", ".", "\n", "/**/", "--\n", ", "])),
                        }
                    }
                    match r.below(8) {
                        0 => s.push('a'),
                        1 => s.push_str(*r.pick(PIECES)),
                        2 => s.push_str(&comment(r, &st)),
                        3 => s.push_str(r.pick(self.g.keywords())),
                        _ => s.push_str(&any_token(r, 13)),
                    }
                }
                s
            }
            12 if r.pm(350) => {
                let numbers: Vec<String> = (0..r.range(1, 6)).map(|_| number(r)).collect();
                format!("select {}", numbers.join(r.pick(&[", ", " + ", " ", "..", "-"])))
            }
            12 if r.pm(600) => {
                // a run of a length near one that matters, and what a scanner may give back of it
                let n = if r.pm(30) { *r.pick(&[512usize, 1024, 4096, 8192, 65536]) } else { *r.pick(&[8usize, 16, 32, 62, 64, 64, 64, 128, 256]) };
                let n = n + r.below(7) - 3;
                let (signs, whole) = *r.pick(&[("*/<>=", true), ("~!@#%^&|`?", true), ("*/<>=~!@#%^&|`?+-", true), ("0123456789", false), ("01_", false), ("abé_1", false), ("abcdef", false), (" \n\t\r\x0c", false), (" ", false)]);
                let signs: Vec<char> = signs.chars().collect();
                let one = r.pm(400).then(|| *r.pick(&signs));
                let run: String = (0..n).map(|_| one.unwrap_or_else(|| *r.pick(&signs))).collect();
                let run = run.replace("/*", "//");
                match whole {
                    true => format!("select a {run}{} b", r.pick(&["", "-", "+", "+-", "-+-", "--x\n", "/*x*/", "*/", "/**/-", "- -", "::"])),
                    false => format!("select {}{run}{}", r.pick(&["", "1", "a", ".", "1.", "$", "$a", "0x", "0b", "1e", "'", "'a'", "'a'\n", "b''", "x''", "e''", "e'\\", "\"", "b'", "1 --", "/*"]), r.pick(&["", "$", ".", "..", "..1", "e", "_", "'", "\"", "*/", "\n1", "$ 1 $", "--", "-- a\n'b'", "''", "\\"])),
                }
            }
            12..=14 => {
                let before = *r.pick(&["select ", "select ", "select ", "select a", "select 1 ", "select 1", "", "select a[", "select ("]);
                let mut s = format!("{before}{}", r.pick(BRINKS));
                s.push(any_char(r));
                s.push_str(*r.pick(AFTER));
                s
            }
            _ => {
                let (alphabet, places) = r.pick(SMALL);
                let (a, b) = *r.pick(places);
                let n = *r.pick(&[1, 2, 3, 4, 5, 6, 8, 12, 20]);
                let mut s = a.to_string();
                let odd = *r.pick(&[0, 0, 60, 300]);
                for _ in 0..n {
                    if r.pm(odd) {
                        s.push(any_char(r));
                    } else {
                        s.push_str(*r.pick(alphabet));
                    }
                }
                if r.pm(300) {
                    s.push(any_char(r));
                }
                s + b
            }
        };
        let n = d.chars().count();
        p.docs = vec![d];
        p.threads = vec![vec![]];
        for _ in 0..*r.pick(&[0usize, 0, 0, 1, 1, 1, 2, 3]) {
            let k = r.range(1, 9) as u8;
            let c = p.docs.len() as u32 - 1;
            if k == 5 || k == 6 {
                p.docs.push(match r.below(8) {
                    0 => any_token(r, 13),
                    1..=3 => any_char(r).to_string(),
                    _ => r.pick(PIECES).to_string(),
                });
            }
            // near the end as often as anywhere: what comes late is not hidden behind earlier damage
            let a = if r.pm(300) { n.saturating_sub(r.below(6)) } else { r.below(n.max(1) * 2) };
            p.threads[0].push(Op { k, a: a as u32, b: r.below(n.max(1) * 2) as u32, c });
        }
    }
    pub fn scan_batch(&mut self, w: &mut Worker, ps: &[Plan]) -> Option<(usize, Violation)> {
        w.prefetch(&ps.iter().map(received).collect::<Vec<_>>());
        for (i, p) in ps.iter().enumerate() {
            if self.scanned(w, p).is_err() {
                // alone, in a process of its own
                w.unlearn(&received(p));
                if let Err(v) = self.scanned(w, p) {
                    return Some((i, v));
                }
                w.count("otherwise_in_company", 1);
            }
        }
        None
    }
    pub fn scanned(&self, w: &mut Worker, p: &Plan) -> Verdict {
        let Some(tb) = &self.tables else { return bad("harness", "no tables") };
        for o in &p.threads[0] {
            w.count(KINDS[(o.k as usize).min(9)], 1);
        }
        let text = received(p);
        let want = match tb.text(&text) {
            Ok(f) => f,
            Err(why) => {
                w.count(&format!("skipped: {why}"), 1);
                return Ok(());
            }
        };
        let got = w.reference(&text, 0).obs;
        let said = |got: &[u8]| if got.first() == Some(&1) { "a tree".to_string() } else { describe(got) };
        match want {
            Fate::Leaves(leaves) => {
                let Some(m) = model_of(&got) else { return bad("rejected-sentence", format!("{} (delivered: {})", describe(&got), clip(&text))) };
                w.count("accepted", 1);
                w.count("leaves_compared", leaves.len() as u64);
                let mut have = m.leaves();
                for (k, (name, start, end)) in leaves.iter().enumerate() {
                    let Some((_, r, t)) = have.next() else { return bad("leaf-missing", format!("leaf {k} is to be {name} {:?} (delivered: {})", &text[*start..*end], clip(&text))) };
                    let is = format!("{:?}", <S as cstree::Syntax>::from_raw(cstree::RawSyntaxKind(r.kind)));
                    let same = match name.strip_prefix('\'').and_then(|n| n.strip_suffix('\'')) {
                        Some(c) => char_kind(c) == Some(r.kind),
                        None => is == *name,
                    };
                    if !same || t != &text[*start..*end] || (r.start as usize, r.end as usize) != (*start, *end) {
                        return bad("other-token", format!("leaf {k} is {is} {:?} at {}..{}, the scanner's rules say {name} {:?} at {start}..{end} (delivered: {})", clip(t), r.start, r.end, clip(&text[*start..*end]), clip(&text)));
                    }
                }
                if let Some((_, r, t)) = have.next() {
                    return bad("leaf-too-many", format!("{:?} at {} after the last (delivered: {})", t, r.start, clip(&text)));
                }
            }
            Fate::Syntax(at) => {
                w.count("rejected by the grammar", 1);
                let syntax = got.len() > 1 && got[0] == 0 && got[1] == 1;
                match error_span(&got).filter(|_| syntax) {
                    Some((b, _)) if b == at => {}
                    _ => return bad("error-elsewhere", format!("{}; the rules say: a syntax error at byte {at} (delivered: {})", said(&got), clip(&text))),
                }
            }
            Fate::Scan(msg, at) => {
                w.count(&format!("rejected by the scanner: {msg}"), 1);
                let kind = if at.is_some() { 2 } else { 0 };
                let fits = got.len() > 10 && got[0] == 0 && got[1] == kind && String::from_utf8_lossy(&got[10..]).contains(&format!("message: {msg:?}")) && at.map_or(true, |a| error_span(&got).is_some_and(|(b, _)| a == b));
                if !fits {
                    return bad("other-complaint", format!("{}; the rules say: {msg}{} (delivered: {})", said(&got), at.map_or(String::new(), |a| format!(" at byte {a}")), clip(&text)));
                }
            }
        }
        Ok(())
    }
}
