//! C01 (a parse depends on nothing but its text), C10 (memory comes back), C12 (a stalled parse delays no other):
//! caller threads parsing, holding, re-reading and dropping results on the simulated machine.
use crate::engine::*;
use wl::gen::Grammar;
use crate::model::{self, Outcome};
use wl::rng::Rng;
use crate::rt;
use std::sync::Arc;

pub const PARSE: u8 = 0; // a: document, b: entry (0 library, 1 wasm), c: bits: 1 hold, 2 reuse the thread's buffer, 4 slice of a bigger buffer, 8 shared string
pub const RECHECK: u8 = 1; // a: slot
pub const DROP: u8 = 2; // a: slot
pub const YIELD: u8 = 3;
pub const RESPAWN: u8 = 4; // the rest of the list runs on a new thread, after this one has ended
pub const BURST: u8 = 5; // a: first document, b: how many, c: bits as PARSE; unarmed (fast), for long histories

#[derive(Clone, Copy, PartialEq)]
pub enum Which {
    Isolation,
    Stall,
    Memory,
}
pub struct Threads {
    pub which: Which,
    pub g: Arc<Grammar>,
}

/// Texts that a cache, a reused buffer or a stale pointer could take for one another.
pub fn family(g: &Grammar, r: &mut Rng, n: usize, max: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let base = loop {
        let d = match r.below(10) {
            0 => g.soup(r),
            1..=3 => {
                let st = wl::gen::Style::random(r);
                g.literals(r, &st)
            }
            _ => g.document(r),
        };
        if d.len() <= max {
            break d;
        }
    };
    v.push(base);
    while v.len() < n {
        let b: String = if r.pm(700) { v[0].clone() } else { r.pick(&v).clone() };
        let mut c: Vec<char> = b.chars().collect();
        let d: String = match r.below(14) {
            0 | 1 | 2 => {
                // same length, one character changed to one of its class
                for _ in 0..*r.pick(&[1, 1, 2, 5]) {
                    if c.is_empty() {
                        break;
                    }
                    let i = r.below(c.len());
                    c[i] = match c[i] {
                        '0'..='9' => (b'0' + r.below(10) as u8) as char,
                        'a'..='z' => (b'a' + r.below(26) as u8) as char,
                        'A'..='Z' => (b'A' + r.below(26) as u8) as char,
                        x => {
                            if r.pm(200) {
                                *r.pick(&['\'', '"', ' ', ';', '(', '$', '-'])
                            } else {
                                x
                            }
                        }
                    };
                }
                c.into_iter().collect()
            }
            3 => {
                if c.len() > 1 {
                    let (i, j) = (r.below(c.len()), r.below(c.len()));
                    c.swap(i, j);
                }
                c.into_iter().collect()
            }
            4 => {
                c.truncate(r.below(c.len() + 1));
                c.into_iter().collect()
            }
            5 => format!("{b}{}", r.pick(&[" ", ";", " -- x", "\n", " /* a */", " x", "::int"])),
            6 => format!("{}{b}", r.pick(&[" ", ";", "-- x\n", "\n", "/* a */", "explain ", "/* /* */ */"])),
            7 => c.iter().map(|x| if r.pm(300) { if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() } } else { *x }).collect(),
            8 => b.replace(' ', *r.pick(&["\n", "\t", "  ", " /**/ "])),
            9 => format!("{b}{}", r.pick(&["'", "\"", "/*", "$$", " E'\\", "(", ")", "\0", " 'a", " $x$ a"])),
            10 => {
                // another document, same length
                let mut d = g.document(r);
                while d.len() < b.len() {
                    d.push(' ');
                }
                let mut k = b.len();
                while !d.is_char_boundary(k) {
                    k -= 1;
                }
                d.truncate(k);
                d
            }
            11 => b.clone(),
            12 => r.pick(&["", " ", ";", "select", "select 1", "select 2", "selec 1", "select 'a'", "select 'b'", "select a", "-- x", "/* x", "'"]).to_string(),
            _ => {
                let d = g.any(r);
                if d.len() > max {
                    continue;
                }
                d
            }
        };
        if d.len() <= max * 2 + 16 {
            v.push(d);
        }
    }
    v
}

impl Threads {
    fn ops(&self, r: &mut Rng, ndocs: usize, n: usize, wasm_pm: usize) -> Vec<Op> {
        let mut v = vec![];
        let mut slots = 0;
        for _ in 0..n {
            match r.below(10) {
                0..=5 => {
                    let mut c = 0;
                    if r.pm(400) {
                        c |= 1;
                    }
                    c |= *r.pick(&[0, 0, 2, 2, 4, 8]);
                    let b = r.pm(wasm_pm) as u32;
                    if c & 1 == 1 && b == 0 {
                        slots += 1;
                    }
                    v.push(Op { k: PARSE, a: r.below(ndocs) as u32, b, c });
                }
                6 | 7 if slots > 0 => v.push(Op { k: RECHECK, a: r.below(slots) as u32, b: 0, c: 0 }),
                8 if slots > 0 => v.push(Op { k: DROP, a: r.below(slots) as u32, b: 0, c: 0 }),
                9 => v.push(Op { k: if r.pm(300) { RESPAWN } else { YIELD }, a: 0, b: 0, c: 0 }),
                _ => v.push(Op { k: PARSE, a: r.below(ndocs) as u32, b: 0, c: *r.pick(&[0, 2, 4, 8]) }),
            }
        }
        v
    }
}

pub fn fail(sh_out: &mut Out, class: &str, detail: String) -> ! {
    unsafe { rt::sim_off() };
    sh_out.put(class.as_bytes());
    sh_out.put(b"\x01");
    sh_out.put(detail.as_bytes());
    unsafe { libc::_exit(0) }
}
pub fn clip(s: &str) -> String {
    let t: String = s.chars().take(160).collect();
    format!("{t:?}{}", if t.len() < s.len() { format!("... ({} bytes)", s.len()) } else { String::new() })
}

struct Ctx {
    sh: usize,
    docs: Vec<Arc<String>>,
    refs: Vec<[Option<Arc<Vec<u8>>>; 2]>,
    steps: Vec<[u64; 2]>,
    check_steps: bool,
}
impl Ctx {
    fn fail(&self, class: &str, d: String) -> ! {
        fail(&mut Out::of(unsafe { &*(self.sh as *const Shared) }), class, d)
    }
    fn check(&self, doc: u32, entry: u32, got: &[u8], when: &str) {
        if let Some(want) = &self.refs[doc as usize][entry as usize] {
            if want[..] != *got {
                self.fail("different-outcome", format!("{when}: document {doc} {} gives {} but alone it gives {}", clip(&self.docs[doc as usize]), model::describe(got), model::describe(want)));
            }
        }
    }
}
/// Runs one list of operations; returns when a RESPAWN asks for a fresh thread.
fn run_ops(cx: &Arc<Ctx>, ops: &[Op], from: usize, mut held: Vec<Option<(u32, Outcome)>>) -> Option<(usize, Vec<Option<(u32, Outcome)>>)> {
    let mut buf = String::with_capacity(4096);
    let mut i = from;
    while i < ops.len() {
        let o = ops[i];
        i += 1;
        match o.k {
            PARSE => {
                let d = &cx.docs[o.a as usize];
                let own;
                let big;
                let text: &str = if o.c & 2 != 0 {
                    buf.clear();
                    buf.push_str(d);
                    &buf
                } else if o.c & 4 != 0 {
                    big = format!("select 'before{}'; {}{} /* after", "x".repeat((o.a % 7) as usize), d, "é';\"$$");
                    let st = "select 'before'; ".len() + (o.a % 7) as usize;
                    &big[st..st + d.len()]
                } else if o.c & 8 != 0 {
                    d
                } else {
                    own = d.to_string();
                    &own
                };
                let s0 = rt::my_steps();
                let res = parse_armed(text, o.b);
                let s1 = rt::my_steps();
                let got = obs_of(&res);
                if cx.check_steps {
                    let solo = cx.steps[o.a as usize][o.b as usize];
                    if s1 - s0 > solo + solo / 2 + 20_000 {
                        cx.fail("slowed-down", format!("document {} {} took {} steps of its own, alone it takes {}", o.a, clip(d), s1 - s0, solo));
                    }
                }
                cx.check(o.a, o.b, &got, "parsed");
                if o.c & 1 != 0 {
                    if let Ok(Ok(x)) = res {
                        held.push(Some((o.a, x)));
                    }
                } else {
                    drop(guard(|| rt::armed(|| drop(res))));
                }
            }
            RECHECK | DROP => {
                let n = held.len();
                if n > 0 {
                    let s = o.a as usize % n;
                    if o.k == RECHECK {
                        if let Some((d, x)) = &held[s] {
                            match guard(|| model::observe(x)) {
                                Ok(b) => cx.check(*d, 0, &b, "read again later"),
                                Err(p) => cx.fail("different-outcome", format!("reading document {d} {} again panicked: {p}", clip(&cx.docs[*d as usize]))),
                            }
                        }
                    } else {
                        let x = held[s].take();
                        rt::armed(|| drop(x));
                    }
                }
            }
            BURST => {
                for k in 0..o.b {
                    let di = (o.a + k) % cx.docs.len() as u32;
                    let d = &cx.docs[di as usize];
                    let text: &str = if o.c & 2 != 0 {
                        buf.clear();
                        buf.push_str(d);
                        &buf
                    } else {
                        d
                    };
                    let res = guard(|| Ok(model::run(text)));
                    let got = obs_of(&res);
                    cx.check(di, 0, &got, "parsed");
                }
            }
            RESPAWN => return Some((i, held)),
            _ => rt::yield_now(),
        }
    }
    for h in held {
        drop(h);
    }
    None
}
fn actor(cx: Arc<Ctx>, ops: Vec<Op>) -> std::thread::JoinHandle<()> {
    spawn(move || {
        let mut st = Some((0, vec![]));
        // every RESPAWN moves on to a new thread, carrying what is held (results are Send)
        if let Some((i, held)) = run_ops(&cx, &ops, 0, st.take().unwrap().1) {
            st = Some((i, held));
        }
        while let Some((i, held)) = st.take() {
            let (cx2, ops2) = (cx.clone(), ops.clone());
            st = spawn(move || run_ops(&cx2, &ops2, i, held)).join().unwrap_or_else(|_| cx.fail("harness", "actor panicked".into()));
        }
    })
}

impl Scenario for Threads {
    fn prop(&self) -> &'static str {
        match self.which {
            Which::Isolation => "C01",
            Which::Stall => "C12",
            Which::Memory => "C10",
        }
    }
    fn make(&mut self, _w: &mut Worker, r: &mut Rng, run: u64) -> Plan {
        let mut cfg = Cfg::random(r);
        let g = self.g.clone();
        match self.which {
            Which::Isolation => {
                if run % 25 == 7 {
                    // a long history
                    cfg.quar = false;
                    cfg.serial = r.pm(500);
                    let mut p = Plan::new("C01", "history", cfg);
                    let nd = r.range(8, 40);
                    let m = *r.pick(&[40, 120]);
                    p.docs = family(&g, r, nd, m);
                    let nt = *r.pick(&[1, 1, 2]);
                    for _ in 0..nt {
                        let mut v = vec![];
                        for _ in 0..r.range(1, 4) {
                            v.push(Op { k: BURST, a: r.below(nd) as u32, b: r.range(40, *r.clone().pick(&[150, 500, 1500])) as u32, c: *r.pick(&[0, 2]) });
                            v.extend(self.ops(r, nd, 4, 100));
                        }
                        p.threads.push(v);
                    }
                    return p;
                }
                cfg.serial = r.pm(250);
                if cfg.serial {
                    cfg.quar = r.pm(300);
                }
                let mut p = Plan::new("C01", if cfg.serial { "serial" } else { "threads" }, cfg);
                let nd = r.range(2, 6);
                let m = *r.pick(&[30, 80, 200, 200, 500]);
                p.docs = family(&g, r, nd, m);
                if r.pm(20) {
                    p.docs[0] = r.pick(wl::gen::SQL).to_string();
                }
                let nt = r.range(2, 5);
                let len = if m > 150 { r.range(2, 5) } else { r.range(3, 10) };
                for _ in 0..nt {
                    p.threads.push(self.ops(r, nd, len, 150));
                }
                if r.pm(200) {
                    for k in ["RUST_BACKTRACE", "LANG", "LC_ALL", "HOME", "TZ", "DEBUG", "NO_COLOR", "PG_DEBUG"] {
                        if r.pm(300) {
                            p.env.push((k.into(), r.pick(&["1", "0", "", "tr_TR.UTF-8", "full", "/nonexistent"]).to_string()));
                        }
                    }
                }
                p
            }
            Which::Stall => {
                cfg.jump_pm = 0;
                cfg.serial = false;
                let mut p = Plan::new("C12", "stall", cfg);
                let nd = r.range(2, 5);
                let m = *r.pick(&[30, 80, 200, 300]);
                p.docs = family(&g, r, nd, m);
                let nt = if r.pm(120) { *r.pick(&[9, 18, 34, 66]) } else { r.range(2, 6) };
                for _ in 0..nt {
                    let n = if nt > 6 { 1 } else { r.range(1, 4) };
                    let v = (0..n).map(|_| Op { k: PARSE, a: r.below(nd) as u32, b: r.pm(100) as u32, c: *r.pick(&[0, 1, 2, 4, 8]) }).collect();
                    p.threads.push(v);
                }
                let ns = r.range(1, nt - 1);
                for k in 0..ns {
                    // stall points spread log-uniformly over the first parses; resolved against the solo step count at run time
                    let at = match r.below(4) {
                        0 => r.range(1, 200) as u64,
                        1 => r.range(1, 5_000) as u64,
                        2 => r.range(1, 40_000) as u64,
                        _ => r.range(1, 400_000) as u64,
                    };
                    p.cfg.stalls.push((k as u32 + 2, at));
                }
                p
            }
            Which::Memory => {
                cfg.quar = false;
                cfg.serial = r.pm(300);
                let kind = if r.pm(450) { "resident" } else { "memory" };
                let mut p = Plan::new("C10", kind, cfg);
                let phases = 6;
                let per = r.range(1, 4);
                let class = r.below(8);
                let nt = r.range(1, 3);
                // documents: `per` fresh ones for each phase, all of one class, sizes varying widely
                for ph in 0..phases {
                    for k in 0..per {
                        p.docs.push(mem_doc(&g, r, class, ph * per + k));
                    }
                }
                for t in 0..nt {
                    let mut v = vec![];
                    for ph in 0..phases {
                        for k in 0..per {
                            let d = (ph * per + (k + t) % per) as u32;
                            v.push(Op { k: PARSE, a: d, b: r.pm(100) as u32, c: *r.clone().pick(&[0, 1, 2]) });
                            if r.pm(300) {
                                v.push(Op { k: PARSE, a: d, b: 0, c: 1 });
                                v.push(Op { k: RECHECK, a: 0, b: 0, c: 0 });
                            }
                        }
                        v.push(Op { k: PHASE, a: ph as u32, b: 0, c: 0 });
                    }
                    p.threads.push(v);
                }
                p
            }
        }
    }
    fn exec(&self, w: &mut Worker, p: &Plan) -> Verdict {
        let mut refs: Vec<[Option<Arc<Vec<u8>>>; 2]> = vec![[None, None]; p.docs.len()];
        let mut steps = vec![[0u64; 2]; p.docs.len()];
        let mut sum = 0;
        if self.which != Which::Memory {
            for t in &p.threads {
                for o in t {
                    let mut need: Vec<(u32, u32)> = vec![];
                    match o.k {
                        PARSE => {
                            need.push((o.a, o.b));
                            need.push((o.a, 0));
                        }
                        BURST => need.extend((0..o.b.min(p.docs.len() as u32)).map(|k| ((o.a + k) % p.docs.len() as u32, 0))),
                        _ => {}
                    }
                    for (d, e) in need {
                        if refs[d as usize][e as usize].is_none() {
                            let x = w.reference(&p.docs[d as usize], e);
                            steps[d as usize][e as usize] = x.steps;
                            refs[d as usize][e as usize] = Some(Arc::new(x.obs));
                        }
                        sum += steps[d as usize][e as usize];
                    }
                }
            }
            // a text that brings a fresh process down has no outcome to compare with (that is C05's business)
            for r in &refs {
                for x in r.iter().flatten() {
                    if x.first() == Some(&4) {
                        w.count("skipped_no_reference", 1);
                        return Ok(());
                    }
                }
            }
        }
        let mut cfg = p.cfg.clone();
        cfg.budget = if self.which == Which::Memory { 20_000_000_000 } else { sum * 20 + 50_000_000 };
        let which = self.which;
        let plan = p.clone();
        let warm = if self.which == Which::Memory { warm_up_texts(&self.g, p) } else { vec![] };
        let sh: *const Shared = &w.sh;
        let (end, out, _) = child(&w.sh, 120, move |o| {
            for (k, v) in &plan.env {
                std::env::set_var(k, v);
            }
            let sh = unsafe { &*sh };
            let _b = begin(sh, &cfg);
            let cx = Arc::new(Ctx { sh: sh as *const Shared as usize, docs: plan.docs.iter().map(|d| Arc::new(d.clone())).collect(), refs, steps, check_steps: which == Which::Stall });
            if which == Which::Isolation {
                name_threads(&cfg);
            }
            if which == Which::Memory {
                memory_run(&cx, &plan, &warm);
                unsafe { rt::sim_end() };
                return;
            }
            if which == Which::Stall {
                // one-time initialisation is over before the stalls begin
                let cx2 = cx.clone();
                spawn(move || {
                    for d in &cx2.docs {
                        let _ = guard(|| model::run(d));
                        let _ = guard(|| model::wasm(d));
                    }
                })
                .join()
                .unwrap();
            }
            let mut hs = vec![];
            for t in &plan.threads {
                let h = actor(cx.clone(), t.clone());
                if cfg.serial {
                    h.join().unwrap();
                } else {
                    hs.push(h);
                }
            }
            for h in hs {
                let _ = h.join();
            }
            let r = unsafe { &*sh.rep };
            if which == Which::Stall && (r.on_waits > 0 || r.on_sleeps > 0) {
                fail(o, "waits", format!("a parse waited {} time(s) on a lock and slept {} time(s)", r.on_waits, r.on_sleeps));
            }
            unsafe { rt::sim_end() };
        });
        w.note_run();
        w.verdict(&end, &out)
    }
    fn runs(&self, thorough: bool) -> u64 {
        let q = match self.which {
            Which::Isolation => 8000,
            Which::Stall => 4000,
            Which::Memory => 2400,
        };
        if thorough {
            q * 25
        } else {
            q
        }
    }
    fn rule(&self) -> String {
        match self.which {
            Which::Isolation => "a run: a family of look-alike SQL documents, 2-5 caller threads (or the same lists one after the other, or histories of hundreds of parses) parsing, holding, re-reading and dropping results under a seeded scheduler, memory, clock, entropy and environment; each outcome compared with the outcome of the same text alone in a fresh process. Non-trivial: at least one preemption inside a parse or at least two parses in one process; distinct by the signature of its schedule and plan",
            Which::Stall => "a run: 2-6 caller threads parsing, 1..n-1 of them descheduled for good at a random step; every other parse must finish within 1.5 times the steps it needs alone (plus 20000) and no parse may wait. Non-trivial: a stall struck inside a parse; distinct by schedule signature",
            Which::Memory => "a run: six phases of parses, holds, re-reads and drops of fresh documents of one class, each phase on one to three threads of its own or all on one thread that stays; live heap bytes are read after every phase with nothing held. Non-trivial: all phases ran and allocated; distinct by plan",
        }
        .into()
    }
    fn droppable(&self, _p: &Plan, o: &Op) -> bool {
        o.k != PHASE
    }
    fn shrink_docs(&self) -> bool {
        true
    }
    fn nontrivial(&self) -> &'static str {
        match self.which {
            Which::Stall => "stalls",
            Which::Memory => "allocs",
            Which::Isolation => "any",
        }
    }
}

pub const PHASE: u8 = 9;

fn mem_doc(g: &Grammar, r: &mut Rng, class: usize, k: usize) -> String {
    let n = *r.pick(&[1, 3, 10, 40]);
    match class {
        0 => g.document(r),
        1 => {
            // accepted, with fresh identifiers
            let v: Vec<String> = (0..n).map(|i| format!("c{k}_{i}_{}", r.below(1 << 30))).collect();
            format!("select {} from t{k}", v.join(", "))
        }
        2 => {
            // accepted, with comments and literals
            let v: Vec<String> = (0..n).map(|i| format!("/* k{k} {i} */ 'lit{}' -- x{}\n", r.below(1 << 30), r.below(1 << 30))).collect();
            format!("select {}", v.join(", "))
        }
        3 => {
            // rejected, late
            let v: Vec<String> = (0..n).map(|i| format!("c{k}_{i}_{}", r.below(1 << 30))).collect();
            format!("select {} from from x{k}", v.join(", "))
        }
        4 => {
            // rejected by the lexer
            let v: Vec<String> = (0..n).map(|i| format!("c{k}_{i}_{}", r.below(1 << 30))).collect();
            let end = match r.below(3) {
                0 => r.pick(&["'unterminated", "'x''", "/* x", "\"x", "\"\"", "$t$ x", "b'x", "x'f"]).to_string(),
                1 => format!("E'{}{}'", "x".repeat(r.below(300)), r.pick(&["\\ud800", "\\u12", "\\U0011ffff", "\\udc00", "\\ud800\\u0041", "\\U1"])),
                _ => r.pick(&["0x", "1_", "0b2", "1e+x", "12ab", "$99999999999", "0o8"]).to_string(),
            };
            format!("select {}, {end}", v.join(", "))
        }
        5 => {
            let v: Vec<String> = (0..n).map(|i| format!("select \"Id{k} {i} {}\", $t$ body {} $t$, E'\\t{}', X'1f', 1.5e{}", r.below(1 << 30), r.below(1 << 30), r.below(99999), r.below(50))).collect();
            format!("{};", v.join(";\n"))
        }
        6 => g.soup(r),
        _ => g.any(r),
    }
}

/// Short texts that go through what a process or a thread may set up once, on first use: many kinds of text, and the plan's
/// own documents in small pieces (not the documents themselves: what is kept for them must show when they are measured).
fn warm_up_texts(g: &Grammar, p: &Plan) -> Vec<String> {
    let mut r = Rng::of(0x5eed, &[]);
    let mut v = vec![];
    for k in 0..3000 {
        let t = match k % 4 {
            0 => g.any(&mut r),
            1 => g.soup(&mut r),
            2 => format!("select {}", wl::gen::any_token(&mut r, 13)),
            _ => mem_doc(g, &mut r, k % 8, k),
        };
        if t.len() <= 100 {
            v.push(t);
        }
        if v.len() == 60 {
            break;
        }
    }
    let share = 40 / p.docs.len().max(1) + 1;
    for d in &p.docs {
        let mut pieces = 0;
        let mut at = 0;
        while at < d.len() && pieces < share {
            let mut to = (at + 48).min(d.len());
            while !d.is_char_boundary(to) {
                to += 1;
            }
            if to - at < d.len() {
                v.push(d[at..to].to_string());
            }
            at = to;
            pieces += 1;
        }
    }
    v
}
fn warm_up(warm: &[String]) {
    for (k, t) in warm.iter().enumerate() {
        let _ = guard(|| model::run(t));
        if k % 10 == 0 {
            let _ = guard(|| model::wasm(t));
        }
    }
}

/// Phases run one after the other; in each, the threads run their operations, drop everything and end.
fn memory_run(cx: &Arc<Ctx>, p: &Plan, warm: &[String]) {
    let per_phase = |ph: u32| -> Vec<Vec<Op>> {
        p.threads
            .iter()
            .map(|t| {
                let mut cur = 0;
                let mut v = vec![];
                for o in t {
                    if o.k == PHASE {
                        cur += 1;
                    } else if cur == ph {
                        v.push(*o);
                    }
                }
                v
            })
            .collect()
    };
    let phases = p.threads.iter().map(|t| t.iter().filter(|o| o.k == PHASE).count()).max().unwrap_or(0) as u32;
    let mut live = Vec::with_capacity(64);
    let mut peak = Vec::with_capacity(64);
    // Many short texts, then phase 0, run before anything is measured: one-time initialisation is not a leak.
    // Resident: one thread lives through all phases, so that what a thread keeps for itself counts.
    if p.kind == "resident" {
        let lists: Vec<Vec<Op>> = std::iter::once(0).chain(0..phases).map(|ph| per_phase(ph).concat()).collect();
        let cx2 = cx.clone();
        let warm = warm.to_vec();
        (live, peak) = spawn(move || {
            warm_up(&warm);
            for l in lists {
                let before = rt::live_bytes();
                rt::peak_reset();
                let _ = run_ops(&cx2, &l, 0, vec![]);
                live.push(rt::live_bytes() as i64);
                peak.push(rt::peak_reset().saturating_sub(before));
            }
            (live, peak)
        })
        .join()
        .unwrap();
        return memory_judge(cx, &live, &peak);
    }
    let texts = warm.to_vec();
    spawn(move || warm_up(&texts)).join().unwrap();
    for ph in std::iter::once(0).chain(0..phases) {
        let lists = per_phase(ph);
        let before = rt::live_bytes();
        rt::peak_reset();
        let mut hs = vec![];
        for l in lists {
            let h = actor(cx.clone(), l);
            if p.cfg.serial {
                h.join().unwrap();
            } else {
                hs.push(h);
            }
        }
        for h in hs {
            h.join().unwrap();
        }
        live.push(rt::live_bytes() as i64);
        peak.push(rt::peak_reset().saturating_sub(before));
    }
    memory_judge(cx, &live, &peak)
}
fn memory_judge(cx: &Arc<Ctx>, live: &[i64], peak: &[u64]) {
    let m = &live[1..];
    let grew = m.len() >= 4 && m.windows(2).all(|w| w[1] > w[0]);
    let lo = *m.iter().min().unwrap_or(&0);
    let hi = *m.iter().max().unwrap_or(&0);
    let rel: Vec<i64> = live.iter().map(|x| x - lo).collect();
    if grew {
        cx.fail("leak", format!("with nothing held, the live heap grows in every phase: {rel:?} bytes (peak use per phase {peak:?})"));
    }
    if hi - lo > 8192 {
        cx.fail("retained", format!("with nothing held, the live heap depends on what was parsed: {rel:?} bytes (peak use per phase {peak:?})"));
    }
}
