//! C03, C04: the command line program, run for real under a simulated operating system.
use crate::engine::*;
use wl::gen::{Grammar, UNI};
use crate::model::{self, Outcome};
use crate::os::{self, Done, Ended, Fault, Job};
use wl::rng::{hash, Rng};
use crate::sc_threads::clip;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq)]
pub enum Which {
    Delivery, // C03
    Loss,     // C04
}
pub struct Cli {
    pub which: Which,
    pub g: Arc<Grammar>,
    pub bin: String,
    pub shim: String,
    cur: Option<Plan>,
}
const PAD: u8 = 200; // a: where, b: bytes, c: what
const RAW: u8 = 201; // a: where, b: byte
const PADS: &[(&str, &str, &str)] = &[("-- ", "x", "\n"), ("/*", "é/", " */"), (" ", "\r\n\t ", " "), ("select '", "ab日", "';\n"), ("-- 🙂", "🙂", "\r\n"), ("/* ", "z", "*/")];

/// The bytes on standard input.
pub fn input(p: &Plan) -> Vec<u8> {
    let mut v = p.docs[0].as_bytes().to_vec();
    for o in p.threads.get(1).map(|t| t.as_slice()).unwrap_or(&[]) {
        let mut at = o.a as usize % (v.len() + 1);
        match o.k {
            PAD => {
                // at a character boundary, and at a line end or the document's edges: most stay documents
                while at > 0 && at < v.len() && !(v[at - 1] == b'\n' || v[at - 1] == b';') {
                    at -= 1;
                }
                let (a, m, z) = PADS[o.c as usize % PADS.len()];
                let mut t = a.as_bytes().to_vec();
                while t.len() < o.b as usize {
                    t.extend(m.as_bytes());
                }
                t.extend(z.as_bytes());
                v.splice(at..at, t);
            }
            RAW => v.insert(at, o.b as u8),
            _ => {}
        }
    }
    v
}
pub struct Expect {
    /// None: not UTF-8
    pub text: Option<(Vec<u8>, Vec<u8>)>,
}
fn faults(p: &Plan) -> Vec<Fault> {
    p.threads[0].iter().map(|o| Fault { k: o.k as u32, a: o.a as u64, b: o.b as u64, c: o.c as u64 }).collect()
}
fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let s = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(20).min(v.len())..(i + 30).min(v.len())]).into_owned();
    format!("{} bytes instead of {}, first difference at byte {i}: {:?} instead of {:?}", a.len(), b.len(), s(a), s(b))
}
impl Cli {
    pub fn new(which: Which, g: &Arc<Grammar>, peer: &str) -> Cli {
        let (bin, shim) = peer.split_once(';').unwrap_or(("", ""));
        Cli { which, g: g.clone(), bin: bin.into(), shim: shim.into(), cur: None }
    }
    fn job<'a>(&'a self, p: &'a Plan, input: &'a [u8], f: &'a [Fault]) -> Job<'a> {
        Job { bin: &self.bin, args: &[], shim: &self.shim, env: &p.env, cwd: None, input, seed: p.cfg.hash_seed, clock: p.cfg.clock_base, budget: 200_000 + 60 * input.len() as u64, faults: f, cpu_s: 60 }
    }
    /// What the library says the program should print; None if the library itself cannot answer this text.
    fn expect(&self, w: &mut Worker, bytes: &[u8]) -> Option<Expect> {
        let Ok(text) = std::str::from_utf8(bytes) else { return Some(Expect { text: None }) };
        let key = (hash(bytes), 77u32, bytes.len());
        let obs = if let Some(r) = w.cache.get(&key) {
            r.obs.clone()
        } else {
            let t = text.to_string();
            let (end, out, _) = child(&w.sh, 120, move |o| {
                let r = on_thread(move || {
                    guard(|| match model::run(&t) {
                        Outcome::Tree(t) => (1u8, format!("{t:#?}\n")),
                        Outcome::Error(e) => (2u8, format!("{e:#?}\n")),
                    })
                });
                if let Ok((k, s)) = r {
                    o.put(&[k]);
                    o.put(&(s.len() as u64).to_le_bytes());
                    o.put(s.as_bytes());
                }
            });
            let ok = end == End::Exit(0) && out.len() >= 9 && out.len() == 9 + u64::from_le_bytes(out[1..9].try_into().unwrap()) as usize;
            let obs = if ok { out } else { vec![] };
            w.count("reference_processes", 1);
            if w.cache.len() > 400 {
                w.cache.clear();
            }
            w.cache.insert(key, Ref { obs: obs.clone(), steps: 0 });
            obs
        };
        match obs.first() {
            Some(1) => Some(Expect { text: Some((obs[9..].to_vec(), vec![])) }),
            Some(2) => Some(Expect { text: Some((vec![], obs[9..].to_vec())) }),
            _ => None,
        }
    }
    fn note(&self, w: &mut Worker, d: &Done) {
        for (k, n) in os::NAMES {
            let f = d.log.fired[*k as usize];
            if f > 0 {
                w.count(&format!("fault: {n}"), f);
                w.count(&format!("runs with fault: {n}"), 1);
            }
        }
        w.count("system_calls_decided", d.log.ops);
        w.count("simulated_ms", d.log.clock / 1_000_000);
        w.count("allocations", d.log.allocs);
        w.count("input_bytes", d.log.in_bytes);
        match &d.end {
            Ended::Exit(0) => w.count("ended: status 0", 1),
            Ended::Exit(_) => w.count("ended: other status", 1),
            Ended::Signal(_) => w.count("ended: signal", 1),
            _ => w.count("ended: not at all", 1),
        }
        unsafe {
            let r = &mut *w.sh.rep;
            r.sig = d.log.sig;
            r.total = d.log.ops;
            r.stalls = d.log.total_fired();
            r.ntrace = 0;
            r.switches = d.log.switches;
        }
        w.sigs.insert(d.log.sig);
    }
    fn delivery(&self, w: &mut Worker, p: &Plan) -> Verdict {
        let bytes = input(p);
        let Some(e) = self.expect(w, &bytes) else {
            w.count("documents_the_library_cannot_answer", 1);
            return Ok(());
        };
        let f = faults(p);
        let whole = os::run(&self.job(p, &bytes, &[]));
        let d = os::run(&self.job(p, &bytes, &f));
        self.note(w, &d);
        if matches!(d.end, Ended::Exit(97 | 98)) {
            return bad("harness", "the program could not be started");
        }
        let what = |d: &Done| format!("{:?}, {} bytes on stdout, {} on stderr", d.end, d.out.len(), d.err.len());
        for (d, how) in [(&whole, "in one piece"), (&d, "as the plan says")] {
            match &e.text {
                Some((out, err)) => {
                    w.count(if err.is_empty() { "trees" } else { "errors" }, 1);
                    if matches!(d.end, Ended::NoProgress | Ended::Deadlock) {
                        return bad("never-ends", format!("delivered {how}: {:?}", d.end));
                    }
                    if &d.out != out {
                        return bad("other-output", format!("delivered {how}: standard output has {} ({}); {}", first_diff(&d.out, out), what(d), clip(&String::from_utf8_lossy(&bytes))));
                    }
                    if &d.err != err {
                        return bad("other-error-output", format!("delivered {how}: standard error has {} ({}); {}", first_diff(&d.err, err), what(d), clip(&String::from_utf8_lossy(&bytes))));
                    }
                }
                None => {
                    w.count("not_utf8", 1);
                    if !d.out.is_empty() {
                        return bad("output-for-undecodable", format!("delivered {how}: the input is not UTF-8 and standard output has {} bytes", d.out.len()));
                    }
                }
            }
        }
        if d.end != whole.end {
            return bad("other-status", format!("{:?} in one piece, {:?} as the plan says; {}", whole.end, d.end, clip(&String::from_utf8_lossy(&bytes))));
        }
        Ok(())
    }
    fn loss(&self, w: &mut Worker, p: &Plan) -> Verdict {
        let bytes = input(p);
        let Some(e) = self.expect(w, &bytes) else {
            w.count("documents_the_library_cannot_answer", 1);
            return Ok(());
        };
        let f = faults(p);
        let d = os::run(&self.job(p, &bytes, &f));
        self.note(w, &d);
        if matches!(d.end, Ended::Exit(97 | 98)) {
            return bad("harness", "the program could not be started");
        }
        if matches!(d.end, Ended::NoProgress | Ended::Deadlock) {
            return bad("never-ends", format!("{:?} after {} system calls", d.end, d.log.ops));
        }
        let fired = || os::NAMES.iter().filter(|(k, _)| d.log.fired[*k as usize] > 0).map(|(_, n)| *n).collect::<Vec<_>>().join(", ");
        match &e.text {
            None => {
                w.count("not_utf8", 1);
                if d.end.ok() {
                    return bad("success-on-undecodable", format!("the input is not UTF-8 and the status is 0 (faults: {})", fired()));
                }
                if !d.out.is_empty() {
                    return bad("output-for-undecodable", format!("the input is not UTF-8 and standard output has {} bytes", d.out.len()));
                }
            }
            Some((out, err)) => {
                if d.end.ok() {
                    if &d.out != out {
                        return bad("success-without-output", format!("status 0, but standard output has {} (faults: {}; input {})", first_diff(&d.out, out), fired(), clip(&String::from_utf8_lossy(&bytes))));
                    }
                    if &d.err != err {
                        return bad("success-without-error-output", format!("status 0, but standard error has {} (faults: {}; input {})", first_diff(&d.err, err), fired(), clip(&String::from_utf8_lossy(&bytes))));
                    }
                } else if !out.starts_with(&d.out) {
                    return bad("wrong-output", format!("{:?}, and standard output is no prefix of the rendering: {} (faults: {}; input {})", d.end, first_diff(&d.out, out), fired(), clip(&String::from_utf8_lossy(&bytes))));
                }
            }
        }
        Ok(())
    }
    fn document(&self, r: &mut Rng) -> Plan {
        let mut cfg = Cfg::solo();
        cfg.hash_seed = r.u64();
        cfg.clock_base = r.u64() >> 3;
        let mut p = Plan::new(self.prop(), "cli", cfg);
        let mut d = match r.below(12) {
            0 => String::new(),
            1 => (*r.pick(&["select 1", "select 1;\n", " ", "\n", ";", "select", "select 'a", "/* x", "\u{feff}select 1", "select 1\r\n", "select 1 --", "select $1\r", "é"])).to_string(),
            _ => crate::sc_docs::doc(&self.g, r),
        };
        if d.len() > 6000 {
            let mut n = 6000;
            while !d.is_char_boundary(n) {
                n -= 1;
            }
            d.truncate(n);
        }
        if r.pm(250) {
            d = d.replace('\n', "\r\n");
        }
        if r.pm(200) {
            d = format!("{d}\nselect '{}' as \"{}\"", r.pick(UNI), r.pick(UNI));
        }
        p.docs = vec![d];
        let mut b = vec![];
        if r.pm(250) {
            let base = *r.pick(&[1000, 4096, 8192, 16384, 32768, 65536, 131072, 1 << 20]);
            let len = (base as i64 + r.range(0, 6) as i64 - 3) as u32;
            b.push(Op { k: PAD, a: r.u64() as u32, b: len, c: r.below(PADS.len()) as u32 });
        }
        if r.pm(if self.which == Which::Loss { 200 } else { 60 }) {
            b.push(Op { k: RAW, a: r.u64() as u32, b: *r.pick(&[0x80, 0xbf, 0xc0, 0xc3, 0xe6, 0xed, 0xf0, 0xf4, 0xff]), c: 0 });
        }
        p.threads = vec![vec![], b];
        if r.pm(500) {
            for (k, v) in [("LANG", "C"), ("LC_ALL", "tr_TR.UTF-8"), ("RUST_BACKTRACE", "1"), ("COLUMNS", "20"), ("TERM", "dumb"), ("NO_COLOR", "1"), ("TZ", "Asia/Tokyo"), ("POSIXLY_CORRECT", "1"), ("RUST_LOG", "debug"), ("HOME", "/nonexistent"), ("PATH", ""), ("CI", "true"), ("DEBUG", "1")] {
                // with a backtrace asked for, the standard library itself deadlocks when an allocation fails while it prints one
                if r.pm(250) && !(k == "RUST_BACKTRACE" && self.which == Which::Loss) {
                    p.env.push((k.into(), v.into()));
                }
            }
        }
        p
    }
    fn benign(&self, r: &mut Rng, p: &mut Plan, bytes: &[u8], outlen: usize) {
        let n = bytes.len();
        let mut add = |k: u32, a: usize, b: usize, c: usize| p.threads[0].push(Op { k: k as u8, a: a as u32, b: b as u32, c: c as u32 });
        add(6, r.below(3), 0, 0);
        let small = n < 20_000;
        match r.below(5) {
            0 => add(1, if small { *r.pick(&[1, 2, 3, 5, 16]) } else { 4096 }, 0, 0),
            1 => add(1, *r.pick(&[64, 1000, 8192, 70_000]), 0, 0),
            _ => {}
        }
        for _ in 0..*r.pick(&[0, 1, 2, 4]) {
            // cuts: anywhere, inside characters, and after line ends
            let mut c = r.below(n + 1);
            if r.pm(500) {
                if let Some(i) = bytes.iter().skip(c).position(|b| *b >= 0x80) {
                    c += i + r.range(1, 2);
                }
            } else if r.pm(300) {
                if let Some(i) = bytes.iter().skip(c).position(|b| *b == b'\r' || *b == b'\n') {
                    c += i + r.below(2);
                }
            }
            if c > 0 && c < n {
                add(2, c, 0, 0);
            }
        }
        if r.pm(400) {
            add(3, *r.pick(&[50, 300, 800]), 0, 0);
        }
        for _ in 0..*r.pick(&[0, 0, 1, 3]) {
            add(4, r.below(n + 1), *r.pick(&[1, 50, 900, 5_000, 70_000, 4_000_000]), 0);
        }
        for s in [1, 2] {
            add(16, s, r.below(3), 0);
            match r.below(4) {
                0 => add(11, s, if outlen < 100_000 { *r.pick(&[1, 3, 7, 100]) } else { 5000 }, 0),
                1 => add(11, s, *r.pick(&[512, 1024, 4096]), 0),
                _ => {}
            }
            if r.pm(300) {
                add(13, s, *r.pick(&[50, 400]), 0);
            }
            if r.pm(300) {
                add(12, s, r.below(outlen + 1), 0);
            }
        }
    }
}
impl Scenario for Cli {
    fn prop(&self) -> &'static str {
        match self.which {
            Which::Delivery => "C03",
            Which::Loss => "C04",
        }
    }
    fn start_stream(&mut self, _seed: u64, _s: u64, _n: u64) {
        self.cur = None;
    }
    fn make(&mut self, w: &mut Worker, r: &mut Rng, run: u64) -> Plan {
        if self.cur.is_none() || run % 4 == 0 {
            self.cur = Some(self.document(r));
        }
        let mut p = self.cur.clone().unwrap();
        p.cfg.hash_seed = r.u64();
        p.cfg.clock_base = r.u64() >> 3;
        let bytes = input(&p);
        let (out, err) = match self.expect(w, &bytes).and_then(|e| e.text) {
            Some((o, e)) => (o, e),
            None => (vec![], vec![]),
        };
        let outlen = out.len().max(err.len());
        match self.which {
            Which::Delivery => self.benign(r, &mut p, &bytes, outlen),
            Which::Loss => {
                if r.pm(400) {
                    self.benign(r, &mut p, &bytes, outlen);
                }
                let stream = if out.is_empty() { 2 } else { 1 };
                let text = if out.is_empty() { &err } else { &out };
                let edge = |r: &mut Rng, n: usize| match r.below(6) {
                    0 => 0,
                    1 => n.saturating_sub(1),
                    2 => n.saturating_sub(r.range(1, 40)),
                    3 => (r.below(n / 1024 + 1) * 1024).min(n),
                    _ => r.below(n + 1),
                };
                for _ in 0..*r.pick(&[1, 1, 1, 2]) {
                    let o = match r.below(10) {
                        0..=2 => {
                            let a = if r.pm(200) { bytes.len() } else { edge(r, bytes.len()) };
                            Op { k: 5, a: a as u32, b: *r.pick(&[libc::EIO, libc::EIO, libc::EAGAIN, libc::EISDIR, libc::ENOMEM, libc::ECONNRESET, libc::EINVAL, libc::ETIMEDOUT]) as u32, c: r.pm(600) as u32 }
                        }
                        3..=6 => {
                            let mut a = edge(r, text.len());
                            if r.pm(300) {
                                // right at or after a line end
                                if let Some(i) = text.iter().skip(a).position(|b| *b == b'\n') {
                                    a += i + r.below(2);
                                }
                            }
                            let s = if r.pm(900) { stream } else { 3 - stream };
                            if r.pm(100) {
                                Op { k: 17, a: s, b: a as u32, c: 0 }
                            } else {
                                Op { k: 15, a: s, b: a as u32, c: *r.pick(&[libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EPIPE, libc::EAGAIN, libc::EDQUOT, libc::EFBIG, libc::ECONNRESET]) as u32 }
                            }
                        }
                        7 | 8 => {
                            let n = os::run(&self.job(&p, &bytes, &[])).log.allocs.max(1) as usize;
                            let a = if r.pm(600) { n.saturating_sub(r.below(40)).max(1) } else { r.range(1, n) };
                            Op { k: 20, a: a as u32, b: r.pm(500) as u32, c: 0 }
                        }
                        _ => Op { k: 21, a: *r.pick(&[1024, 8192, 1 << 16, 1 << 18, 1 << 20]) as u32, b: 0, c: 0 },
                    };
                    p.threads[0].push(o);
                }
            }
        }
        p
    }
    fn exec(&self, w: &mut Worker, p: &Plan) -> Verdict {
        if !std::path::Path::new(&self.bin).exists() || !std::path::Path::new(&self.shim).exists() {
            return bad("harness", "no program to run");
        }
        match self.which {
            Which::Delivery => self.delivery(w, p),
            Which::Loss => self.loss(w, p),
        }
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough {
            300_000
        } else {
            16_000
        }
    }
    fn rule(&self) -> String {
        match self.which {
            Which::Delivery => "a run: one document on the standard input of the real command line program, delivered and taken up by the simulated kernel in pieces, with interruptions and delays drawn from the seed; output compared with the library's rendering. Non-trivial: at least one such fault fired; distinct by document, plan and the sequence of system call results",
            Which::Loss => "a run: one document (a fifth of them not UTF-8) through the real command line program with one or two hard faults (read error, write error at a byte, failed allocation) placed in it, often among benign ones; status, standard output and error compared with the library's rendering. Non-trivial: at least one fault fired; distinct by document, plan and the sequence of system call results",
        }
        .into()
    }
    fn nontrivial(&self) -> &'static str {
        "stalls"
    }
    fn extra(&self, p: &Plan) -> Vec<(String, String)> {
        vec![("standard_input_lossy".into(), String::from_utf8_lossy(&input(p)).chars().take(4000).collect())]
    }
    fn components(&self) -> Option<(&'static str, &'static str)> {
        Some(("the parse program as cargo builds it: Rust std, the library, libc; a process of its own per run", "the operating system under it: read, write, stat, poll, open, malloc, clocks, getrandom, futex, sleep, thread switches (os/simos.c, preloaded); the rendering it is compared with comes from the library in another process"))
    }
}
