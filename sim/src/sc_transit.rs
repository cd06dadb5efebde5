//! C13 and C15: the same documents at both doors of the library, and documents whose token contents are rewritten on the way.
use crate::engine::*;
use wl::gen::{any_token, OPS};
use crate::model::{self, kind_of, Outcome};
use wl::rng::Rng;
use crate::rt;
use crate::sc_docs::*;
use crate::sc_threads::clip;
use postgresql_cst_parser::syntax_kind::SyntaxKind;
use std::sync::Arc;

/// Contents of the same kind: 0 identifier, 1 string, 2 bit string, 3 hexadecimal string, 4 integer, 5 other number, 6 parameter,
/// 7 operator, 8 the same word in other letter case.
fn same_kind(class: u32, kind: u32, old: &str, new: &str, keyword: &dyn Fn(&str) -> bool) -> bool {
    let is = |k: SyntaxKind| kind == kind_of(k);
    let word = |c: char| c.is_ascii_alphanumeric() || matches!(c, '_' | '$' | 'é' | '日' | 'я' | 'ß' | '🙂' | '\u{212a}' | 'ſ' | 'İ' | 'ı' | 'Ａ');
    let quoted = |q: char, s: &str| -> Option<String> {
        let s = s.strip_prefix(q)?.strip_suffix(q)?.to_string();
        (!s.replace(&format!("{q}{q}"), "").contains(q)).then_some(s)
    };
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    if new.is_empty() || new.contains(['\0', SEP]) {
        return false;
    }
    match class {
        0 => is(SyntaxKind::IDENT) && (quoted('"', new).is_some_and(|s| !s.is_empty()) || (new.chars().all(word) && !new.starts_with(|c: char| c.is_ascii_digit() || c == '$') && !keyword(new))),
        1 => {
            // a string with only whole, harmless escapes
            let harmless = |s: String| {
                let mut c = s.chars();
                while let Some(x) = c.next() {
                    if x == '\\' && !c.next().is_some_and(|y| "nt\\brf\"".contains(y)) {
                        return false;
                    }
                }
                true
            };
            let dollar = |s: &str| {
                s.split_once('$').is_some_and(|(tag, rest)| {
                    let end = format!("${tag}$");
                    tag.chars().all(|c| c.is_ascii_alphabetic() || c == '_') && rest.strip_suffix(&end).is_some_and(|body| !format!("{body}{}", &end[..end.len() - 1]).contains(&end))
                })
            };
            is(SyntaxKind::SCONST) && (quoted('\'', new).is_some() || new.strip_prefix(['e', 'E']).and_then(|s| quoted('\'', s)).is_some_and(harmless) || new.strip_prefix('$').is_some_and(dollar))
        }
        2 => is(SyntaxKind::BCONST) && new.strip_prefix(['b', 'B']).and_then(|s| quoted('\'', s)).is_some_and(|s| s.bytes().all(|b| b == b'0' || b == b'1')),
        3 => is(SyntaxKind::XCONST) && new.strip_prefix(['x', 'X']).and_then(|s| quoted('\'', s)).is_some_and(|s| s.bytes().all(|b| b.is_ascii_hexdigit())),
        4 => {
            // in any notation, in groups or not
            let groups = |s: &str, radix: u32| s.split('_').all(|g| !g.is_empty() && g.chars().all(|c| c.is_digit(radix))) && i32::from_str_radix(&s.replace('_', ""), radix).is_ok();
            let tail = |s: &str| s.strip_prefix('_').unwrap_or(s).to_string();
            is(SyntaxKind::ICONST)
                && match new.get(..2).map(str::to_ascii_lowercase).as_deref() {
                    Some("0x") => groups(&tail(&new[2..]), 16),
                    Some("0o") => groups(&tail(&new[2..]), 8),
                    Some("0b") => groups(&tail(&new[2..]), 2),
                    _ => groups(new, 10),
                }
        }
        5 => {
            let (m, e) = match new.split_once(['e', 'E']) {
                Some((m, e)) => (m, Some(e)),
                None => (new, None),
            };
            let mantissa = match m.split_once('.') {
                Some((a, b)) => (digits(a) || a.is_empty()) && (digits(b) || b.is_empty()) && !(a.is_empty() && b.is_empty()),
                None => digits(m) && (e.is_some() || m.trim_start_matches('0').len() > 10),
            };
            is(SyntaxKind::FCONST) && mantissa && e.map_or(true, |e| digits(e.strip_prefix(['+', '-']).unwrap_or(e)))
        }
        6 => is(SyntaxKind::PARAM) && new.strip_prefix('$').is_some_and(|s| digits(s) && s.parse::<i32>().is_ok()),
        7 => is(SyntaxKind::Op) && OPS.contains(&new),
        _ => old.eq_ignore_ascii_case(new) && old.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && old.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_'),
    }
}
/// The document with its own contents and with the other ones, and where the tokens begin in both.
pub fn contents_texts(p: &Plan) -> (String, String, Vec<usize>, Vec<usize>) {
    let mut toks: Vec<(String, String)> = p.docs[0].split(SEP).filter(|t| !t.is_empty()).map(|t| (t.to_string(), t.to_string())).collect();
    for o in &p.threads[0] {
        let n = toks.len();
        if n == 0 {
            break;
        }
        let (i, j) = (o.a as usize % n, o.b as usize % n);
        match o.k % 4 {
            0 => {
                if let Some(d) = p.docs.get(o.b as usize) {
                    toks[i].1 = d.clone();
                }
            }
            1 => {
                toks.remove(i);
            }
            2 => toks.swap(i, j),
            _ => {
                let t = toks[i].clone();
                toks.insert(j, t);
            }
        }
    }
    let (mut a, mut b) = (String::new(), String::new());
    let (mut pa, mut pb) = (vec![], vec![]);
    for (i, (x, y)) in toks.iter().enumerate() {
        if i > 0 {
            a.push(' ');
            b.push(' ');
        }
        pa.push(a.len());
        pb.push(b.len());
        a.push_str(x);
        b.push_str(y);
    }
    (a, b, pa, pb)
}
const CASES: &[&str] = &["fault: other name", "fault: other string", "fault: other bit string", "fault: other hexadecimal string", "fault: other integer", "fault: other number", "fault: other parameter", "fault: other operator", "fault: other letter case"];

impl Docs {
    pub fn make_contents(&self, w: &mut Worker, r: &mut Rng, p: &mut Plan) {
        let max = *r.pick(&[60, 200, 800]);
        let d = self.accepted(w, r, max);
        p.threads = vec![vec![]];
        p.docs = vec![String::new()];
        let Some(m) = model_of(&w.reference(&d, 0).obs) else { return };
        let toks: Vec<(u32, String)> = m.leaves().filter(|(_, r, t)| !trivia(r.kind) && !t.contains(SEP)).map(|(_, r, t)| (r.kind, t.to_string())).collect();
        p.docs = vec![toks.iter().map(|t| t.1.as_str()).collect::<Vec<_>>().join(&SEP.to_string())];
        if toks.is_empty() {
            return;
        }
        let every = r.pm(150);
        let n = if every { toks.len() } else { r.range(1, 8) };
        let huge = r.pm(10);
        for k in 0..n {
            let i = if every { k } else { r.below(toks.len()) };
            let kind = toks[i].0;
            let is = |k: SyntaxKind| kind == kind_of(k);
            let old = &toks[i].1;
            let many = |r: &mut Rng, s: &[&'static str]| {
                if huge {
                    let n = *r.pick(&[5_000usize, 70_000]);
                    return r.pick(s).repeat(n);
                }
                let n = wl::gen::size(r);
                (0..n).map(|_| *r.pick(s)).collect::<String>()
            };
            let (c, new) = if is(SyntaxKind::IDENT) && r.pm(850) {
                (
                    0,
                    match r.below(8) {
                        5 => {
                            // a key word's double: a letter that only Unicode folds to one of the word's, one missing, or one doubled
                            let k = r.pick(self.g.keywords()).to_string();
                            let k = if r.pm(300) { k.to_ascii_uppercase() } else { k };
                            match r.below(3) {
                                0 => k.replace(['k', 'K'], "\u{212a}").replace('s', "ſ").replace('i', *r.pick(&["İ", "ı"])),
                                1 => k[1..].to_string(),
                                _ => format!("{}{}", &k[..k.len() - 1], if r.pm(500) { "" } else { &k[k.len() - 1..] }.repeat(2)),
                            }
                        }
                        6 => format!("{}{}", r.pick(self.g.keywords()), r.pick(self.g.keywords())),
                        7 => format!("{}{}", r.pick(&["é", "ß", "_", "x", "b_", "e_", "u_", "n_", "Ａ"]), r.pick(self.g.keywords())),
                        0 => format!("{}{}", r.pick(self.g.keywords()), r.pick(&["_", "1", "x", "$", "é", "_x"])),
                        1 => format!("\"{}\"", many(r, &["a", "B", " ", "\"\"", "--", "/*", ";", "'", "$$", "é", "select"])),
                        2 => format!("v{}", many(r, &["a", "b", "Z", "_", "0", "$", "é", "日"])),
                        3 => format!("\"{}\"", r.pick(self.g.keywords())),
                        _ => any_token(r, 2),
                    },
                )
            } else if is(SyntaxKind::SCONST) {
                (
                    1,
                    match r.below(5) {
                        4 => {
                            let t = *r.pick(&["", "q", "Q", "tag", "_", "a_b"]);
                            let u = if t == "" { "x" } else { t };
                            format!("${t}${}${t}$", many(r, &["a", " ", "'", "\n", "é", "$", "$b$", "$A$", "q$", "$1"]).replace(&format!("${t}$"), u).trim_end_matches('$'))
                        }
                        0 => format!("'{}'", many(r, &["a", " ", "''", "\\", "\n", "--", "/*", "*/", ";", "$$", "\"", "é", "select ", "\r\n", "%", "'' ''"])),
                        1 => format!("{}'{}'", r.pick(&["E", "e"]), many(r, &["a", "\\n", "\\\\", "''", "\\t", ";", "--", "é"])),
                        2 => format!("$q${}$q$", many(r, &["a", " ", "'", "\"", "\n", "--", "/*", ";", "é", "$1 "])),
                        _ => r.pick(&["''", "''''", "'\\'", "'--'", "'/*'", "' '", "'\n'", "$$$$", "E''", "'$$'", "';'"]).to_string(),
                    },
                )
            } else if is(SyntaxKind::BCONST) {
                (2, format!("b'{}'", many(r, &["0", "1"])))
            } else if is(SyntaxKind::XCONST) {
                (3, format!("X'{}'", many(r, &["0", "a", "F", "9"])))
            } else if is(SyntaxKind::ICONST) {
                (
                    4,
                    match r.below(6) {
                        3 => {
                            let v = if r.pm(200) { 0x7fff_ffff } else if r.pm(400) { r.below(0x110) } else { r.below(1 << 31) };
                            match r.below(6) {
                                0 => format!("0x{v:x}"),
                                1 => format!("0X{v:08X}"),
                                2 => format!("0o{v:o}"),
                                3 => format!("0O_{v:o}"),
                                4 => format!("0b{v:b}"),
                                _ => format!("0B_{v:031b}"),
                            }
                        }
                        4 => r.pick(&["1_0", "1_000", "0_1", "2_147_483_647", "0x_1f", "0x1_F", "0b1_0", "0o1_7", "0_0", "1_2_3_4", "0x7fff_ffff"]).to_string(),
                        0 => r.pick(&["0", "1", "2147483647", "00", "0000000000000000000001", "2147483646", "1000000000", "65536", "32768"]).to_string(),
                        1 => format!("0{}", r.below(10)),
                        _ => format!("{}", r.below(1 << 31)),
                    },
                )
            } else if is(SyntaxKind::FCONST) {
                (5, if r.pm(500) { format!("{}.{}", many(r, &["1", "0", "7"]), many(r, &["3", "0"])) } else { format!("1{}e{}", many(r, &["1", "0", "7"]), r.below(400)) })
            } else if is(SyntaxKind::PARAM) {
                (6, format!("${}", *r.pick(&[0usize, 1, 2, 9, 10, 255, 256, 65535, 65536, 2147483647])))
            } else if is(SyntaxKind::Op) {
                (7, r.pick(OPS).to_string())
            } else {
                (
                    8,
                    match r.below(3) {
                        0 => old.to_ascii_uppercase(),
                        1 => old.to_ascii_lowercase(),
                        _ => old.chars().map(|c| if r.pm(500) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                    },
                )
            };
            if &new != old && same_kind(c, kind, old, &new, &|x| self.g.is_keyword(x)) && !p.threads[0].iter().any(|o| o.a as usize == i) {
                p.threads[0].push(Op { k: 0, a: i as u32, b: p.docs.len() as u32, c });
                p.docs.push(new);
            }
        }
        if r.pm(350) {
            for _ in 0..r.range(1, 2) {
                p.threads[0].push(Op { k: r.range(1, 3) as u8, a: r.below(toks.len()) as u32, b: r.below(toks.len()) as u32, c: 0 });
            }
        }
    }
    /// The same tokens with other contents of the same kinds.
    pub fn contents(&self, w: &mut Worker, p0: &Plan) -> Verdict {
        // what may be rewritten is decided on the document as it parses undamaged
        let mut p = p0.clone();
        p.threads[0].clear();
        let base = contents_texts(&p).0;
        let Some(m) = model_of(&w.reference(&base, 0).obs) else { return Ok(()) };
        let toks: Vec<&str> = p0.docs[0].split(SEP).filter(|t| !t.is_empty()).collect();
        let leaves: Vec<(u32, &str)> = m.leaves().filter(|(_, r, _)| !trivia(r.kind)).map(|(_, r, t)| (r.kind, t)).collect();
        if toks.is_empty() || leaves.len() != toks.len() || leaves.iter().zip(&toks).any(|(a, b)| a.1 != *b) {
            w.count("skipped: joined by blanks the document has other tokens", 1);
            return Ok(());
        }
        let mut rewritten = vec![false; toks.len()];
        let mut damaged = false;
        for o in &p0.threads[0] {
            let i = o.a as usize;
            if o.k % 4 != 0 {
                damaged = true;
                w.count("fault: token lost, swapped or repeated", 1);
            } else if damaged || i >= toks.len() || rewritten[i] || i > 0 && toks[i - 1].eq_ignore_ascii_case("uescape") {
                continue;
            } else if !p0.docs.get(o.b as usize).is_some_and(|d| o.b > 0 && same_kind(o.c, leaves[i].0, toks[i], d, &|x| self.g.is_keyword(x))) {
                continue;
            } else {
                rewritten[i] = true;
                w.count(CASES[o.c.min(8) as usize], 1);
            }
            p.threads[0].push(*o);
        }
        let (a, b, pa, pb) = contents_texts(&p);
        let (x, y) = (w.reference(&a, 0).obs, w.reference(&b, 0).obs);
        match (x.first(), y.first()) {
            (Some(1), Some(1)) => {
                w.count("accepted", 1);
                let (Some(m), Some(n)) = (model_of(&x), model_of(&y)) else { return bad("harness", "unreadable observation") };
                let (sa, sb) = (skeleton(&m), skeleton(&n));
                let diff = sa.iter().zip(&sb).position(|(x, y)| (x.0, x.1) != (y.0, y.1));
                if diff.is_some() || sa.len() != sb.len() {
                    let i = diff.unwrap_or(sa.len().min(sb.len()));
                    let j = i.min(sa.len()).min(sb.len());
                    return bad("other-tree", format!("with other contents {} (delivered: {})", first_difference(&sb[j..], &sa[j..]), clip(&b)));
                }
                // every token holds its own contents
                let tok = |m: &model::Model| -> Vec<String> { m.leaves().filter(|(_, r, _)| !trivia(r.kind)).map(|(_, _, t)| t.to_string()).collect() };
                let (ta, tb) = (tok(&m), tok(&n));
                let part = |s: &str, at: &[usize], i: usize| s[at[i]..at.get(i + 1).map(|e| e - 1).unwrap_or(s.len())].to_string();
                if ta.len() == pa.len() && (0..pa.len()).all(|i| ta[i] == part(&a, &pa, i)) {
                    if let Some(i) = (0..tb.len()).find(|i| tb[*i] != part(&b, &pb, *i)) {
                        return bad("other-text", format!("token {i} was sent as {}, in the tree it is {} (delivered: {})", clip(&part(&b, &pb, i)), clip(&tb[i]), clip(&b)));
                    }
                }
                Ok(())
            }
            (Some(0), Some(0)) => {
                w.count("rejected", 1);
                if let (Some((s, _)), Some((t, _)), 1, 1) = (model::error_span(&x), model::error_span(&y), x[1], y[1]) {
                    let place = |v: &[usize], text: &str, s: usize| if s >= text.len() { v.len() } else { v.iter().rposition(|q| *q <= s).unwrap_or(0) };
                    let (i, j) = (place(&pa, &a, s), place(&pb, &b, t));
                    if i != j {
                        return bad("other-place", format!("with its own contents the document is rejected at token {i}, with others at token {j} (delivered: {})", clip(&b)));
                    }
                }
                Ok(())
            }
            (Some(k @ (0 | 1)), Some(l @ (0 | 1))) if k != l => bad("other-verdict", format!("with its own contents: {}; with others: {} (delivered: {})", brief(&x), brief(&y), clip(&b))),
            _ => Ok(()),
        }
    }
    pub fn make_doors(&self, w: &mut Worker, r: &mut Rng, p: &mut Plan) {
        p.cfg = Cfg::random(r);
        p.cfg.quar = false;
        for _ in 0..r.range(1, 4) {
            let (d, e) = (doc(&self.g, r), doc(&self.g, r));
            let n = *r.pick(&[0, 0, 1, 2, 4]);
            let mut q = Plan::new("C13", "damaged", Cfg::solo());
            q.threads = vec![(0..n).map(|_| fault(r, d.len(), e.len())).collect()];
            q.docs = vec![d, e];
            for o in &q.threads[0] {
                w.count(&format!("fault: {}", FAULTS[o.k as usize % FAULTS.len()]), 1);
            }
            let t = deliver(&q);
            if t.len() <= 3000 {
                p.docs.push(t);
            }
        }
        // two clients, one at each door; both deliver the same documents, in an order of their own and some more than once
        let nd = p.docs.len();
        for _ in 0..2 {
            let mut v: Vec<Op> = (0..nd + r.below(3)).map(|i| Op { k: 0, a: if i < nd { i } else { r.below(nd.max(1)) } as u32, b: 0, c: 0 }).collect();
            for i in (1..v.len()).rev() {
                v.swap(i, r.below(i + 1));
            }
            p.threads.push(v);
        }
    }
    /// The WebAssembly entry point on one thread, the library on another; the same documents.
    pub fn doors(&self, w: &mut Worker, p: &Plan) -> Verdict {
        let sh: *const Shared = &w.sh;
        let mut cfg = p.cfg.clone();
        cfg.budget = 20_000_000_000;
        let p = p.clone();
        let (end, out, _) = child(&w.sh, 120, move |o| {
            let sh = unsafe { &*sh };
            let _b = begin(sh, &cfg);
            name_threads(&cfg);
            let docs: Vec<Arc<String>> = p.docs.iter().map(|d| Arc::new(d.clone())).collect();
            let client = |lib: bool| {
                let docs = docs.clone();
                let ops = p.threads.get(lib as usize).cloned().unwrap_or_default();
                spawn(move || {
                    let mut v: Vec<(usize, Result<String, String>)> = vec![];
                    for o in &ops {
                        let i = o.a as usize;
                        let Some(d) = docs.get(i) else { continue };
                        let x = guard(|| {
                            rt::armed(|| {
                                if !lib {
                                    return model::wasm(d);
                                }
                                match model::run(d) {
                                    Outcome::Tree(t) => format!("{t:#?}"),
                                    Outcome::Error(e) => format!("Error: {e:?}"),
                                }
                            })
                        });
                        v.push((i, x));
                    }
                    v
                })
            };
            let (x, y) = (client(false), client(true));
            let (x, y) = (x.join().unwrap(), y.join().unwrap());
            unsafe { rt::sim_end() };
            for (i, a) in &x {
                for (_, b) in y.iter().filter(|b| b.0 == *i) {
                    if a != b {
                        let at = match (a, b) {
                            (Ok(a), Ok(b)) => a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count(),
                            _ => 0,
                        };
                        let part = |x: &Result<String, String>| match x {
                            Ok(s) => format!("{:?}", s.chars().skip(at.saturating_sub(30)).take(90).collect::<String>()),
                            Err(e) => format!("panic: {e}"),
                        };
                        o.put(b"different-door\x01");
                        o.put(format!("document {i}: about character {at} the WebAssembly entry point says {}, the library {} (delivered: {})", part(a), part(b), clip(&docs[*i])).as_bytes());
                        return;
                    }
                }
            }
        });
        w.note_run();
        w.verdict(&end, &out)
    }
    /// A service in front of the WebAssembly build in a real engine: deliveries, and instances that start over, some with little memory.
    pub fn make_engine(&self, w: &mut Worker, r: &mut Rng, p: &mut Plan) {
        let mut far = if r.pm(60) { 70_000 } else { 3000 };
        for _ in 0..r.range(1, 6) {
            let (d, e) = (if far > 3000 && r.pm(200) { long_doc(&self.g, r) } else { doc(&self.g, r) }, doc(&self.g, r));
            let n = *r.pick(&[0, 0, 1, 2, 4]);
            let mut q = Plan::new("C13", "damaged", Cfg::solo());
            q.threads = vec![(0..n).map(|_| fault(r, d.len(), e.len())).collect()];
            q.docs = vec![d, e];
            for o in &q.threads[0] {
                w.count(&format!("fault: {}", FAULTS[o.k as usize % FAULTS.len()]), 1);
            }
            let t = deliver(&q);
            if t.len() <= far {
                if t.len() > 3000 {
                    far = 3000;
                }
                p.docs.push(t);
            }
        }
        let (nd, over) = (p.docs.len().max(1), *r.pick(&[0, 0, 100, 400]));
        let n = *r.pick(&[1, 2, 4, 8, 16]);
        p.threads = vec![vec![]];
        for i in 0..n {
            if r.pm(over) {
                p.threads[0].push(Op { k: 1, a: 0, b: *r.pick(&[0, 0, 1, 2, 3, 4, 8, 16, 32]), c: 0 });
            }
            p.threads[0].push(Op { k: 0, a: if i < nd { i } else { r.below(nd) } as u32, b: 0, c: 0 });
        }
    }
    pub fn engine(&self, w: &mut Worker, p: &Plan) -> Verdict {
        let Some(peer) = &self.peer else {
            w.count("no engine", 1);
            return Ok(());
        };
        let peer = peer as *const Peer as *mut Peer;
        let mut ask = |q: String| unsafe { (*peer).ask(&q) };
        let ops = p.threads.first().cloned().unwrap_or_default();
        w.count("deliveries to the engine", ops.iter().filter(|o| o.k == 0).count() as u64);
        if ask("n0".into()).first() != Some(&0) {
            return bad("harness", "no instance");
        }
        let mut limit = 0;
        let mut known: std::collections::HashMap<u32, (End, Vec<u8>)> = Default::default();
        for o in &ops {
            if o.k == 1 {
                w.count(if o.b == 0 { "fault: instance lost" } else { "fault: instance lost, the next with little memory" }, 1);
                limit = o.b;
                ask(format!("n{limit}"));
                continue;
            }
            let Some(d) = p.docs.get(o.a as usize) else { continue };
            let got = ask(format!("d{d}"));
            if got.first() == Some(&2) {
                w.count("instance died", 1);
                let why = String::from_utf8_lossy(&got[1..]).into_owned();
                ask("n0".into());
                let starved = limit != 0;
                limit = 0;
                if starved {
                    w.count("instance died of its memory limit", 1);
                    continue;
                }
                // what fails everywhere, and what nests deeper than the engine's stack
                let x = w.reference(d, 0).obs;
                if !matches!(x.first(), Some(0 | 1)) || d.len() > 3000 {
                    w.count("skipped: long, or fails natively", 1);
                    continue;
                }
                return bad("engine-trap", format!("the WebAssembly build dies ({why}), the library does not (delivered: {})", clip(d)));
            }
            let (end, want) = known.entry(o.a).or_insert_with(|| {
              let dd = d.clone();
              let (end, want, _) = child(&w.sh, 120, move |o| {
                let s = match model::run(&dd) {
                    Outcome::Tree(t) => format!("{t:#?}"),
                    Outcome::Error(e) => format!("Error: {e:?}"),
                };
                // a deep tree's rendering is too long to hand over
                o.put(&(s.len() as u64).to_le_bytes());
                o.put(&wl::rng::hash(s.as_bytes()).to_le_bytes());
                o.put(&s.as_bytes()[..s.len().min(1 << 20)]);
              });
              (end, want)
            });
            w.note_run();
            if *end != End::Exit(0) || want.len() < 16 {
                w.count("skipped: fails natively", 1);
                continue;
            }
            let is = [&(got.len() as u64 - 1).to_le_bytes()[..], &wl::rng::hash(&got[1..]).to_le_bytes()[..]].concat();
            w.count("answers of the engine compared", 1);
            if got.first() != Some(&1) || is != want[..16] {
                let want = &want[16..];
                let (a, b) = (String::from_utf8_lossy(&got[1..]).into_owned(), String::from_utf8_lossy(want).into_owned());
                let at = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
                let part = |s: &str| s.chars().skip(at.saturating_sub(30)).take(90).collect::<String>();
                return bad("other-engine", format!("about character {at} the WebAssembly build says {:?}, the library {:?} (delivered: {})", part(&a), part(&b), clip(d)));
            }
        }
        Ok(())
    }
}
