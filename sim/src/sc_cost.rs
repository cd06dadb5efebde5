//! C14: what it costs to parse, in simulated work: basic blocks executed (those of the standard library included), bytes moved by
//! libc, and peak memory. The build this runs in instruments the standard library too.
use crate::engine::*;
use wl::gen::{any_token, Grammar, Style};
use crate::model;
use wl::rng::Rng;
use crate::rt;
use crate::sc_threads::clip;
use std::sync::Arc;

pub struct Cost {
    pub g: Arc<Grammar>,
}
/// What parsing and dropping one text takes.
#[derive(Clone, Copy, Debug, Default)]
struct Bill {
    work: u64,
    peak: u64,
    verdict: u8,
}
/// A statement around something that can grow: head, what is repeated, tail.
pub const GROW: &[(&str, &str, &str)] = &[
    ("select", " ", "1"),
    ("select", "\n", "1"),
    ("select /*", "x", "*/ 1"),
    ("select /*", "é", "*/ 1"),
    ("select /*", "* ", "*/ 1"),
    ("select /*", "\n", "*/ 1"),
    ("select 1 --", "x", "\n"),
    ("select 1 --", "--", "\n"),
    ("select '", "x", "'"),
    ("select '", "''", "'"),
    ("select '", "\n", "'"),
    ("select '", "é", "'"),
    ("select ", "a", ""),
    ("select \"", "a", "\""),
    ("select \"", "\"\"", "\""),
    ("select \"", "é", "\""),
    ("select 1", "1", ""),
    ("select 1.", "1", ""),
    ("select $a$", "x", "$a$"),
    ("select $a$", "$b", "$a$"),
    ("select $a$", "$", " $a$"),
    ("select $a$", "\n", "$a$"),
    ("select E'", "\\n", "'"),
    ("select E'", "\\x41", "'"),
    ("select E'", "\\\\", "'"),
    ("select E'", "\\'", "'"),
    ("select E'", "\\u0041", "'"),
    ("select 'a'", "\n'a'", ""),
    ("", "/**/ ", "select 1"),
    ("", "--\n", "select 1"),
    ("", "/* c */\n", "select 1"),
    ("select 1", " /* c */", ""),
    ("select 1", " --\n", ""),
    ("select x'", "a", "'"),
    ("select b'", "1", "'"),
    ("", ";", ""),
    ("", " ;", "select 1"),
    ("select not", " /* c */", " between 1 and 2"),
    ("select 1 from t where a in (1", ", 1", ")"),
    ("select 1", ", a", ""),
    ("select 1", ", a b", " from t"),
    ("select 1 /* c */", ", /* c */ a", ""),
    ("select f(1", ", a", ")"),
    ("insert into t values (1)", ", (1, 'a')", ""),
    ("select a from t where b", " and c", ""),
    ("select a", " + 1", ""),
    ("select a", " || 'x'", ""),
    ("select a", "[1]", ""),
    ("select a", "::int", ""),
    ("select a", ".b", ""),
    ("select 1 from t", " join u on true", ""),
    ("select 1 from t", ", u", ""),
    ("select case", " when a then b", " end"),
    ("create table t (a int", ", b int", ")"),
    ("with a as (select 1)", ", b as (select 2)", " select 3"),
    ("select 1", " union all select 2", ""),
    ("select 1", ";\nselect 1", ""),
    ("select 1", "; begin; commit", ""),
    ("select a", " not between 1 and 2 and b", ""),
    ("select (", "(", "1"),
    ("select 1 ", "~", ""),
    ("select '", "\\", ""),
    ("select /*", "x", ""),
    ("select $a$", "$b$", ""),
    ("select E'", "\\n", ""),
    ("select U&'", "x", "'"),
    ("select 1", " $1", ""),
    ("update t set a = 1", ", b = 2", ""),
    ("grant select on t to a", ", b", ""),
    ("set x to a", ", b", ""),
];
/// Statements that nest: head, what opens, the middle, what closes, tail.
pub const NEST: &[(&str, &str, &str, &str, &str)] = &[
    ("select ", "(", "1", ")", ""),
    ("select ", "(a + ", "1", ")", ""),
    ("select ", "f(", "1", ")", " from t"),
    ("select ", "f(a, ", "1", ", b)", " from t"),
    ("select ", "case when ", "a", " then b end", ""),
    ("select ", "case a when b then ", "1", " else 2 end", ""),
    ("select ", "array[", "1", "]", ""),
    ("select ", "array[1, ", "2", ", 3]", ""),
    ("select ", "not ", "a", "", ""),
    ("select ", "- ", "a", "", ""),
    ("select ", "a and (b or ", "c", ")", ""),
    ("select ", "exists (select ", "1", ")", ""),
    ("select ", "a in (select ", "1", " from t)", ""),
    ("select * from ", "(select * from ", "t", ") x", ""),
    ("select * from ", "(", "t join u on true", ")", ""),
    ("select * from t ", "join u ", "join v on a = b", " on c = d", ""),
    ("", "(select 1 union ", "select 2", ")", ""),
    ("", "with a as (", "select 1", ") select 2", ""),
    ("select ", "row(1, ", "2", ")", ""),
    ("select ", "cast(", "a", " as int)", ""),
    ("select ", "a[", "1", "]", ""),
    ("select /* c ", "/* d ", "x", " */ ", "*/ 1"),
    ("select ", "( /* c */ ", "1", " -- d\n)", ""),
    ("select 'a' || ", "coalesce(null, ", "b", ")", ""),
];
fn grown(p: &Plan, n: usize) -> String {
    if p.docs.len() >= 5 {
        return format!("{}{}{}{}{}", p.docs[0], p.docs[1].repeat(n), p.docs[2], p.docs[3].repeat(n), p.docs[4]);
    }
    format!("{}{}{}", p.docs[0], p.docs[1].repeat(n), p.docs[2])
}
const SEPS: &[&str] = &["\n;\n", "\n;", "\n ; ", "\n;\n/* between */\n", "\n;-- b\n"];

impl Cost {
    fn bills(&self, w: &mut Worker, p: &Plan, texts: Vec<String>) -> Result<Vec<Bill>, Violation> {
        let sh: *const Shared = &w.sh;
        let mut cfg = p.cfg.clone();
        cfg.budget = 400_000_000_000;
        let (end, out, _) = child(&w.sh, 300, move |o| {
            let sh = unsafe { &*sh };
            let _b = begin(sh, &cfg);
            let v = on_thread(move || {
                // one-time initialisation is not on the bill
                for _ in 0..2 {
                    let _ = guard(|| drop(model::run("select 'a', 1 /* c */ from t")));
                    let _ = guard(|| drop(model::run("select E'\\n' from from")));
                }
                let mut v = vec![];
                for t in &texts {
                    let live = rt::live_bytes();
                    rt::peak_reset();
                    let a = rt::my_work();
                    let verdict = guard(|| {
                        rt::armed(|| match model::run(t) {
                            model::Outcome::Tree(t) => {
                                drop(t);
                                1u8
                            }
                            model::Outcome::Error(e) => {
                                drop(e);
                                0
                            }
                        })
                    })
                    .unwrap_or(3);
                    let work = rt::my_work() - a;
                    v.push(Bill { work, peak: rt::peak_reset().saturating_sub(live), verdict });
                }
                v
            });
            unsafe { rt::sim_end() };
            for b in v {
                o.put(&b.work.to_le_bytes());
                o.put(&b.peak.to_le_bytes());
                o.put(&[b.verdict]);
            }
        });
        w.note_run();
        if end != End::Exit(0) {
            return w.verdict(&end, &out).map(|_| vec![]);
        }
        let n = |b: &[u8]| u64::from_le_bytes(b.try_into().unwrap());
        Ok(out.chunks_exact(17).map(|c| Bill { work: n(&c[..8]), peak: n(&c[8..16]), verdict: c[16] }).collect())
    }
}
impl Scenario for Cost {
    fn prop(&self) -> &'static str {
        "C14"
    }
    fn make(&mut self, w: &mut Worker, r: &mut Rng, _run: u64) -> Plan {
        let mut cfg = Cfg::solo();
        cfg.hash_seed = r.u64();
        let mut p = Plan::new("C14", "", cfg);
        if r.pm(500) {
            p.kind = "growth".into();
            if r.pm(200) {
                let (a, b, c, d, e) = *r.pick(NEST);
                p.docs = vec![a.into(), b.into(), c.into(), d.into(), e.into()];
                p.threads = vec![vec![Op { k: 100, a: *r.pick(&[40, 150, 400]), b: *r.pick(&[4, 8, 10]), c: 0 }]];
                return p;
            }
            let (a, b, c) = *r.pick(GROW);
            p.docs = vec![a.into(), b.into(), c.into()];
            match r.below(4) {
                0 => {
                    // a document repeated behind itself
                    let mut st = Style::random(r);
                    st.budget = 60;
                    p.docs = vec![String::new(), format!("{}\n;", self.g.statement(r, &st)), String::new()];
                }
                1 => {
                    // some tokens of any kind, in a statement or alone
                    let mut st = Style::random(r);
                    st.budget = 40;
                    let mut unit = String::new();
                    for _ in 0..r.range(1, 5) {
                        unit.push_str(&any_token(r, 13));
                        unit.push_str(*r.pick(&[" ", " ", "\n", " /* c */ ", " -- d\n"]));
                    }
                    p.docs[1] = unit;
                    if r.pm(300) {
                        p.docs[0] = self.g.statement(r, &st) + " ";
                    } else if r.pm(300) {
                        p.docs[0] = String::new();
                    }
                    if r.pm(500) {
                        p.docs[2] = String::new();
                    }
                }
                _ => {}
            }
            let unit = p.docs[1].len();
            let bytes = *r.pick(&[2_000usize, 8_000, 16_000, 24_000]);
            let n = (bytes / unit).clamp(20, 3_000);
            let n = if unit <= 2 { n.max(bytes) } else { n };
            p.threads = vec![vec![Op { k: 100, a: n as u32, b: *r.pick(&[4, 8, 8, 12]), c: 0 }]];
            return p;
        }
        p.kind = "batch".into();
        let n = r.range(1, 5);
        let mut i = 0;
        while p.docs.len() < n && i < 200 {
            i += 1;
            let mut st = Style::random(r);
            st.budget = st.budget.min(120);
            let d = if r.pm(300) { self.g.literals(r, &st) } else { self.g.statement(r, &st) };
            if d.len() < 1500 && w.reference(&d, 0).obs.first() == Some(&1) {
                p.docs.push(d);
            }
        }
        p.docs.push("select 1".into());
        let n = *r.pick(&[20usize, 100, 400, 1_500, 3_000, 6_000]);
        let mut len = 0;
        let mut v = vec![];
        while v.len() < n && len < 200_000 {
            let a = r.below(p.docs.len());
            len += p.docs[a].len();
            v.push(Op { k: 0, a: a as u32, b: r.below(SEPS.len()) as u32, c: 0 });
        }
        if r.pm(200) {
            // the last statement is cut short on the way
            v.push(Op { k: 1, a: r.below(p.docs.len()) as u32, b: r.below(1000) as u32, c: 0 });
        }
        p.threads = vec![v];
        p
    }
    fn exec(&self, w: &mut Worker, p: &Plan) -> Verdict {
        if p.kind == "growth" {
            let Some(o) = p.threads[0].first() else { return Ok(()) };
            if p.docs.len() < 3 {
                return Ok(());
            }
            let (n, f) = (o.a as usize, o.b.max(2) as usize);
            let b = self.bills(w, p, vec![grown(p, n), grown(p, n * f)])?;
            if b.len() < 2 {
                return Ok(());
            }
            let rate = |x: u64, y: u64| if x == 0 { 0 } else { y * 1000 / x / f as u64 };
            w.max("worst_growth_of_work_per_mille", if b[1].work < 200_000 { 0 } else { rate(b[0].work, b[1].work) });
            w.max("worst_growth_of_memory_per_mille", if b[1].peak < 500_000 { 0 } else { rate(b[0].peak, b[1].peak) });
            w.max("longest_text", grown(p, n * f).len() as u64);
            if std::env::var("COST_SHOW").is_ok() {
                eprint!("{}", format!("growth {:?} n {n} x{f}: work {:.2} peak {:.2}  {:?}\n", p.docs, b[1].work as f64 / b[0].work as f64 / f as f64, b[1].peak as f64 / b[0].peak as f64 / f as f64, b));
            }
            if b.iter().any(|x| x.verdict == 3) {
                return Ok(());
            }
            // f times the text: f times the work, and 4/10 of that for what is rounded up
            if b[1].work > b[0].work * f as u64 * 14 / 10 + 500_000 {
                return bad("work grows faster than the text", format!("{:?}: repeated {n} times it takes {} steps, repeated {} times it takes {}: {f} times the text, {:.1} times the work", p.docs, b[0].work, n * f, b[1].work, b[1].work as f64 / b[0].work as f64));
            }
            if b[1].peak > b[0].peak * f as u64 * 25 / 10 + 4_000_000 {
                return bad("memory grows faster than the text", format!("{:?}: repeated {n} times it takes {} bytes, repeated {} times it takes {}: {f} times the text, {:.1} times the memory", p.docs, b[0].peak, n * f, b[1].peak, b[1].peak as f64 / b[0].peak as f64));
            }
            w.max("most_work_per_byte", b[1].work / (grown(p, n * f).len() as u64 + 1));
            return Ok(());
        }
        let mut text = String::new();
        for (i, o) in p.threads[0].iter().enumerate() {
            let d = &p.docs[o.a as usize % p.docs.len()];
            if i > 0 {
                text.push_str(SEPS[o.b as usize % SEPS.len()]);
            }
            if o.k == 1 {
                let mut e = d.len() * o.b as usize / 1000;
                while !d.is_char_boundary(e) {
                    e -= 1;
                }
                text.push_str(&d[..e]);
            } else {
                text.push_str(d);
            }
        }
        let mut all = p.docs.clone();
        all.push(String::new());
        all.push(text.clone());
        let b = self.bills(w, p, all)?;
        if b.len() < p.docs.len() + 2 {
            return Ok(());
        }
        let base = b[p.docs.len()];
        let got = b[p.docs.len() + 1];
        let sum = p.threads[0].iter().map(|o| b[o.a as usize % p.docs.len()]).fold((0, 0), |s, x| (s.0 + x.work.saturating_sub(base.work), s.1 + x.peak.saturating_sub(base.peak)));
        let n = p.threads[0].len() as u64;
        w.max("worst_stream_to_sum_per_mille", if sum.0 < 100_000 { 0 } else { got.work * 1000 / sum.0 });
        w.max("longest_text", text.len() as u64);
        if std::env::var("COST_SHOW").is_ok() {
            eprint!("{}", format!("batch n {} len {}: work {:.2} ({} vs {}) peak {} base {:?} v {}\n", p.threads[0].len(), text.len(), (got.work - base.work) as f64 / sum.0 as f64, got.work, sum.0, got.peak, base, got.verdict));
        }
        if b.iter().any(|x| x.verdict == 3) {
            return Ok(());
        }
        // what stands between the statements costs something as well
        if got.work > base.work + sum.0 * 13 / 10 + n * 3_000 + 300_000 {
            return bad(
                "a stream costs more than its statements",
                format!("{n} statements take {} steps as one document of {} bytes, {} one by one: {:?}", got.work, text.len(), sum.0, p.docs.iter().map(|d| clip(d)).collect::<Vec<_>>()),
            );
        }
        Ok(())
    }
    fn batch(&self) -> usize {
        1
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough {
            20_000
        } else {
            800
        }
    }
    fn rule(&self) -> String {
        "a run: a stream of up to 3 000 statements (some repeated, the last sometimes cut short) as one document, or one statement in two sizes; work and peak memory compared. Non-trivial: every run; distinct by documents and deliveries".into()
    }
    fn droppable(&self, _p: &Plan, o: &Op) -> bool {
        o.k < 100
    }
    fn nontrivial(&self) -> &'static str {
        "any"
    }
}
