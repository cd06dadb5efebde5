//! C20: the parser against a reference parser: the tables bison makes of the repository's grammar, fed the same damaged token streams.
use crate::engine::*;
use wl::gen::{any_token, Style, OPS};
use crate::model::describe;
use wl::rng::Rng;
use crate::sc_docs::*;
use crate::sc_threads::clip;
use postgresql_cst_parser::syntax_kind::SyntaxKind;

/// The tokens that are delivered.
pub fn delivered(p: &Plan) -> Vec<String> {
    let mut v: Vec<String> = p.docs[0].split(SEP).filter(|t| !t.is_empty()).map(|t| t.to_string()).collect();
    for o in &p.threads[0] {
        let n = v.len();
        let (i, j) = (o.a as usize % n.max(1), o.b as usize % n.max(1));
        let other = p.docs.get(1 + o.c as usize);
        match o.k {
            1 if n > 0 => {
                v.remove(i);
            }
            2 if n > 0 => v.swap(i, j),
            3 if n > 0 => {
                let t = v[i].clone();
                v.insert(j, t);
            }
            4 => v.truncate(i),
            5 => {
                if let Some(t) = other {
                    v.insert(o.a as usize % (n + 1), t.clone());
                }
            }
            6 if n > 0 => {
                if let Some(t) = other {
                    v[i] = t.clone();
                }
            }
            7 if n > 0 => {
                // a block is lost
                let e = (i + 1 + o.b as usize % 8).min(n);
                v.drain(i..e);
            }
            8 if n > 0 => {
                // a block arrives again
                let e = (i + 1 + o.b as usize % 12).min(n);
                let c: Vec<String> = v[i..e].to_vec();
                v.splice(e..e, c);
            }
            _ => {}
        }
    }
    v
}
const KINDS: &[&str] = &["", "fault: token lost", "fault: tokens swapped", "fault: token repeated", "fault: cut short", "fault: token inserted", "fault: token replaced", "fault: tokens lost", "fault: tokens repeated"];

impl Docs {
    pub fn make_language(&self, w: &mut Worker, r: &mut Rng, p: &mut Plan) {
        p.docs = vec![String::new()];
        p.threads = vec![vec![]];
        let Some(tb) = &self.tables else { return };
        let tokens_of = |d: &str, w: &mut Worker| -> Vec<String> {
            let Some(m) = model_of(&w.reference(d, 0).obs) else { return vec![] };
            m.leaves().filter(|(_, r, t)| !trivia(r.kind) && !t.contains(SEP)).map(|(_, _, t)| t.to_string()).collect()
        };
        let mut st = Style::random(r);
        st.budget = *r.pick(&[10, 40, 120]);
        let sentence = |r: &mut Rng, max: usize| -> Vec<String> {
            for _ in 0..30 {
                let mut st = st.clone();
                st.budget = st.budget.min(max as i32);
                let v = self.g.tokens(r, &st);
                if v.len() <= max && v.iter().all(|t| !t.contains(SEP)) {
                    let n: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
                    if tb.terminals(&n).is_some_and(|t| tb.parse(&t).is_ok()) {
                        return v;
                    }
                }
            }
            vec!["select".into(), "1".into()]
        };
        let mut whole = false;
        let mut toks: Vec<String> = match r.below(20) {
            0 => {
                let max = *r.pick(&[60, 200, 800]);
                let d = self.accepted(w, r, max);
                tokens_of(&d, w)
            }
            1..=3 => {
                let max = *r.pick(&[20, 60, 300]);
                sentence(r, max)
            }
            4 | 5 => {
                // an expression of operators of all levels
                let mut v = vec!["select".to_string(), "a".to_string()];
                for _ in 0..r.range(2, 12) {
                    let o = *r.pick(&["+", "-", "*", "/", "%", "^", "<", ">", "=", "<=", ">=", "<>", "||", "~", "and", "or", "is null", "isnull", "notnull", "is distinct from", "not", "between", "not between", "in (", "like", "not like", "ilike", "similar to", "escape", "::", "collate", "at time zone", "at local", "[", "]", ".", "(", ")", "is not", "operator ( + )", "union", "intersect", "except", ", -", ", +", "- -", "not not", "is json", "overlaps", "= any (", "is of (", "as", "order by", "limit", "case when", "then", "else", "end"]);
                    v.extend(o.split(' ').map(|s| s.to_string()));
                    if r.pm(850) {
                        v.push(r.pick(&["b", "1", "'s'", "c", "int", "d", "null"]).to_string());
                    }
                }
                v
            }
            6..=12 => {
                // entries of the table that nothing has shown yet, each in a statement
                let mut v = vec![];
                let most = *r.pick(&[1usize, 4, 12, 12]);
                for _ in 0..most {
                    let Some((t, home)) = tb.target(r) else { break };
                    v.extend(t);
                    if !home {
                        break;
                    }
                    v.push(";".to_string());
                }
                whole = most > 1;
                v
            }
            13..=16 => {
                let pre = if r.pm(500) { sentence(r, 60) } else { vec![] };
                let k = if pre.is_empty() { 0 } else { r.below(pre.len() + 1) };
                let pre: Vec<&str> = pre[..k].iter().map(|s| s.as_str()).collect();
                let n = *r.pick(&[0usize, 1, 2, 4, 8, 20]);
                tb.walk(r, &pre, n)
            }
            17 => self.g.statement(r, &st).split_whitespace().map(|s| s.to_string()).collect(),
            _ => {
                let mut v = vec![];
                for _ in 0..r.range(2, 5) {
                    v.extend(sentence(r, 80));
                    if r.pm(900) {
                        v.push(";".into());
                    }
                }
                v
            }
        };
        toks.retain(|t| !t.is_empty() && !t.contains(SEP));
        let n = toks.len();
        p.docs = vec![toks.join(&SEP.to_string())];
        p.threads = vec![vec![]];
        if whole || r.pm(600) {
            return;
        }
        for _ in 0..*r.pick(&[1usize, 1, 1, 2, 4]) {
            let k = r.range(1, 8) as u8;
            let c = p.docs.len() as u32 - 1;
            if k == 5 || k == 6 {
                let t = match r.below(8) {
                    0..=4 => {
                        let t = r.range(3, tb.ntok as usize - 1) as i32;
                        tb.spell(r, t).unwrap_or_else(|| "x".into())
                    }
                    5 => r.pick(OPS).to_string(),
                    6 => any_token(r, 13),
                    _ => r.pick(&["(", ")", ",", ";", "[", "]", "not", "with", "as", "."]).to_string(),
                };
                if t.contains(SEP) || t.is_empty() {
                    continue;
                }
                p.docs.push(t);
            }
            p.threads[0].push(Op { k, a: r.below(n.max(1) * 2) as u32, b: r.below(n.max(1) * 2) as u32, c });
        }
    }
    pub fn language_batch(&mut self, w: &mut Worker, ps: &[Plan]) -> Option<(usize, Violation)> {
        w.prefetch(&ps.iter().map(|p| delivered(p).join(" ")).collect::<Vec<_>>());
        for (i, p) in ps.iter().enumerate() {
            if self.language(w, p).is_err() {
                // alone, in a process of its own
                w.unlearn(&delivered(p).join(" "));
                if let Err(v) = self.language(w, p) {
                    return Some((i, v));
                }
                w.count("otherwise_in_company", 1);
            }
        }
        None
    }
    pub fn language(&self, w: &mut Worker, p: &Plan) -> Verdict {
        let Some(tb) = &self.tables else { return bad("harness", "no tables") };
        for o in &p.threads[0] {
            w.count(KINDS[(o.k as usize).min(8)], 1);
        }
        let toks = delivered(p);
        let names: Vec<&str> = toks.iter().map(|s| s.as_str()).collect();
        let Some(v) = tb.terminals(&names) else {
            w.count("skipped: a token the reference does not judge", 1);
            return Ok(());
        };
        let text = names.join(" ");
        let mut at = vec![];
        let mut pos = 0;
        for t in &names {
            at.push(pos);
            pos += t.len() + 1;
        }
        at.push(text.len());
        let got = w.reference(&text, 0).obs;
        let want = tb.parse(&v);
        w.max("table_entries_walked_by_one_stream", tb.seen());
        match (model_of(&got), want) {
            (Some(m), Ok(tree)) => {
                w.count("accepted", 1);
                w.max("most_tokens_accepted", v.len() as u64);
                let name = |k: u32| format!("{:?}", <SyntaxKind as cstree::Syntax>::from_raw(cstree::RawSyntaxKind(k)));
                let sk = skeleton(&m);
                let sk = if sk.first().is_some_and(|x| x.0 == 0) { &sk[1..] } else { &sk[..] };
                let show = |x: &(u32, i32, Option<u32>)| format!("{} {:?} at depth {}", tb.names[x.1 as usize], x.2.map_or("", |t| names.get(t as usize).copied().unwrap_or("")), x.0);
                for (i, (x, y)) in sk.iter().zip(&tree).enumerate() {
                    let n = tb.names[y.1 as usize].as_str();
                    let same = match y.2 {
                        Some(t) => x.2 == names[t as usize] && (n.starts_with('\'') || name(x.1) == n),
                        None => x.2.is_empty() && name(x.1) == n,
                    };
                    if x.0 != y.0 || !same {
                        return bad("other-derivation", format!("element {i} is {} {:?} at depth {}, the grammar says {} (delivered: {})", name(x.1), x.2, x.0, show(y), clip(&text)));
                    }
                }
                if sk.len() != tree.len() {
                    return bad("other-derivation", format!("{} nodes and tokens, the grammar says {} (delivered: {})", sk.len(), tree.len(), clip(&text)));
                }
            }
            (Some(_), Err(i)) => return bad("accepted-outside-the-grammar", format!("the grammar has no place for token {i} {:?} (delivered: {})", names.get(i).unwrap_or(&"end"), clip(&text))),
            (None, want) => {
                let syntax = got.len() > 1 && got[0] == 0 && got[1] == 1;
                match (crate::model::error_span(&got).filter(|_| syntax), want) {
                    (_, Ok(_)) => return bad("rejected-sentence", format!("{} (delivered: {})", describe(&got), clip(&text))),
                    (Some((start_byte_pos, _)), Err(i)) => {
                        w.count("rejected", 1);
                        if start_byte_pos != at[i] {
                            return bad("error-elsewhere", format!("the error is said to be at {start_byte_pos}, the first token the grammar has no place for is {:?} at {} (delivered: {})", names.get(i).unwrap_or(&"end"), at[i], clip(&text)));
                        }
                    }
                    (_, Err(_)) => return bad("not-a-syntax-error", format!("{} (delivered: {})", describe(&got), clip(&text))),
                }
            }
        }
        Ok(())
    }
}
