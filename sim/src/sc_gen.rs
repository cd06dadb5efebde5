//! C08, C09: the two generators, run for real in scratch directories under a simulated operating system.
use crate::engine::*;
use crate::os::{self, Done, Ended, Fault, Job};
use wl::rng::{hash, Rng};
use std::collections::{BTreeMap, HashMap};
use std::cell::RefCell;

#[derive(Clone, Copy, PartialEq)]
pub enum Which {
    Same,    // C08
    Faulted, // C09
}
/// Programs and directories, given as one argument: lexgen;pargen;shim;bin directory with rustfmt;source tree;placeholder grammar
pub struct Gens {
    pub which: Which,
    lexgen: Vec<u8>,
    pargen: Vec<u8>,
    shim: String,
    path: String,
    src: String,
    work: String,
    holder: Vec<u8>,
    kwlist: Vec<u8>,
    state: RefCell<State>,
}
#[derive(Default)]
struct State {
    dir: String,
    refs: HashMap<u64, Ref>,
    n: u64,
}
#[derive(Clone)]
struct Ref {
    end: Ended,
    outputs: BTreeMap<String, Vec<u8>>,
    log: os::Log,
}
const TARGET: u8 = 210; // a: 0 lexer, 1 parser generator
const INIT: u8 = 211; // a: what the output files hold before
const FMT: u8 = 212; // a: mode, b: invocation
const KEYWORDS: u8 = 213; // a: kept per mille, b: seed
const CORE: &str = "crates/postgresql-cst-parser/src";
const PGEN: &str = "crates/parser-generator/src/parser_generator";
const OUTPUTS: &[&str] = &["crates/postgresql-cst-parser/src/parser.rs", "crates/postgresql-cst-parser/src/syntax_kind.rs", "crates/postgresql-cst-parser/src/lexer.rs", "crates/postgresql-cst-parser/src/lexer/generated.rs", "crates/postgresql-cst-parser/src/lexer/lexer_ported.rs", "crates/postgresql-cst-parser/src/lexer/util.rs", "crates/postgresql-cst-parser/src/lexer/parser_error.rs", "crates/parser-generator/src/parser_generator/lexer/generated.rs"];

/// A small random grammar in the notation of gram.y.
pub fn grammar(r: &mut Rng) -> String {
    const T: &[&str] = &["SELECT", "FROM", "WHERE", "GROUP_P", "BY", "ORDER", "AS", "IDENT", "ICONST", "SCONST", "FCONST", "PARAM", "Op", "TYPECAST", "NOT", "AND", "OR", "IS", "NULL_P", "IN_P", "BETWEEN", "LIKE", "'+'", "'-'", "'*'", "'/'", "'('", "')'", "','", "'.'", "';'", "'='", "'<'", "'>'", "'['", "']'", "'^'", "'%'", "WITH", "WITHOUT", "UNION", "ALL", "EXCEPT", "JOIN", "ON", "CROSS", "LEFT", "UPDATE", "SET", "XCONST", "BCONST", "LESS_EQUALS", "NOT_EQUALS", "COLON_EQUALS", "UIDENT"];
    const N: &[&str] = &["stmt", "expr", "list", "opt_x", "item", "name", "clause", "target", "rel", "tail", "opt_tail", "args", "elem", "head", "body", "qual", "option", "options", "ref_el", "kind"];
    let k = *r.pick(&[3, 6, 12, 20]);
    let nn = r.range(1, k);
    let k = *r.pick(&[4, 10, 30]);
    let nt = r.range(2, k);
    let mut ts: Vec<&str> = vec![];
    while ts.len() < nt {
        let t = *r.pick(T);
        if !ts.contains(&t) {
            ts.push(t);
        }
    }
    let mut s = String::from("%{\n#include \"x.h\"\n%}\n%pure-parser\n%union\n{\n\tint ival;\n}\n");
    s += "%type <node>\t";
    s += &N[..nn].join(" ");
    s += "\n\t\tother_type\n%type <list> ";
    s += N[r.below(nn)];
    s += "\n%token <str>\tIDENT UIDENT FCONST SCONST Op\n%token <ival>\tICONST PARAM\n%token\t\t\tTYPECAST DOT_DOT\n%token <keyword> SELECT FROM\n\tWHERE\n\n";
    let mut pr: Vec<&str> = ts.clone();
    for _ in 0..r.below(5) {
        let k = r.range(1, 4).min(pr.len());
        if k == 0 {
            break;
        }
        let mut l = vec![];
        for _ in 0..k {
            let i = r.below(pr.len());
            l.push(pr.swap_remove(i));
        }
        s += &format!("{}\t{}{}\n", r.pick(&["%left", "%right", "%nonassoc"]), l.join(" "), r.pick(&["", "\t/* why */"]));
    }
    if r.pm(400) {
        s += "%nonassoc\tUMINUS\n";
    }
    s += "%%\n\n";
    for i in 0..nn {
        s += &format!("{}:\n\t\t", N[i]);
        let k = *r.pick(&[2, 4, 6]);
        let na = r.range(1, k);
        for a in 0..na {
            let mut len = *r.pick(&[0, 1, 1, 2, 2, 3, 3, 4]);
            if a == 0 && len == 0 {
                len = 1;
            }
            let mut part = vec![];
            for k in 0..len {
                // the first alternative only goes down: every symbol produces something
                if a == 0 && (i + 1 >= nn || r.pm(500)) || a > 0 && r.pm(500) {
                    part.push(r.pick(&ts).to_string());
                } else if a == 0 {
                    part.push(N[r.range(i + 1, nn - 1)].to_string());
                } else {
                    part.push(N[if k == 0 && r.pm(300) { i } else { r.below(nn) }].to_string());
                }
            }
            let prec = if len > 0 && r.pm(120) { format!(" %prec {}", r.pick(&ts).replace('\'', "")) } else { String::new() };
            let prec = if prec.contains(|c: char| !c.is_ascii_alphanumeric() && !" %_".contains(c)) { String::new() } else { prec };
            s += &format!("{}{}{}\n\t\t", if a > 0 { "| " } else { "" }, part.join(" "), prec + r.pick(&["", " { $$ = x; }", " /*EMPTY*/", "\n\t\t\t{\n\t\t\t\tif (a) { b; }\n\t\t\t}"]));
        }
        s += ";\n\n";
    }
    s += "%%\n";
    s
}
fn find_once(hay: &[u8], needle: &[u8]) -> Option<usize> {
    if needle.len() < 64 {
        return None;
    }
    let mut at = None;
    let mut i = 0;
    while i + needle.len() <= hay.len() {
        if hay[i] == needle[0] && hay[i..i + 64] == needle[..64] && hay[i..i + needle.len()] == *needle {
            if at.is_some() {
                return None;
            }
            at = Some(i);
        }
        i += 1;
    }
    at
}
fn list(dir: &str, rel: &str, out: &mut BTreeMap<String, Vec<u8>>) {
    let Ok(rd) = std::fs::read_dir(format!("{dir}/{rel}")) else { return };
    for e in rd.flatten() {
        let name = e.file_name().to_string_lossy().into_owned();
        let r = if rel.is_empty() { name } else { format!("{rel}/{name}") };
        let t = e.file_type().unwrap();
        if t.is_dir() {
            list(dir, &r, out);
        } else if t.is_file() {
            out.insert(r.clone(), std::fs::read(format!("{dir}/{r}")).unwrap_or_default());
        }
    }
}
impl Gens {
    pub fn new(which: Which, peer: &str) -> Gens {
        let p: Vec<&str> = peer.split(';').collect();
        let work = std::env::var("TMPDIR").unwrap_or("/tmp".into());
        let g = |i: usize| p.get(i).copied().unwrap_or("").to_string();
        let rd = |f: String| std::fs::read(f).unwrap_or_default();
        Gens { which, lexgen: rd(g(0)), pargen: rd(g(1)), shim: g(2), path: g(3), src: g(4), work, holder: rd(g(5)), kwlist: rd(format!("{}/crates/lexer-generator/resources/kwlist.h", g(4))), state: RefCell::new(State::default()) }
    }
    fn op(&self, p: &Plan, k: u8) -> Option<Op> {
        p.threads[1].iter().find(|o| o.k == k).copied()
    }
    fn dir(&self) -> String {
        let mut s = self.state.borrow_mut();
        if s.dir.is_empty() {
            s.dir = format!("{}/pgsim-gen-{}", self.work, unsafe { libc::getpid() });
            let _ = std::fs::remove_dir_all(&s.dir);
            std::fs::create_dir_all(&s.dir).unwrap();
        }
        s.dir.clone()
    }
    /// A generator whose embedded specification is replaced by the plan's. None if it cannot be.
    fn program(&self, p: &Plan) -> Option<String> {
        let lex = self.op(p, TARGET).map(|o| o.a == 0).unwrap_or(false);
        let mut b;
        let mut ok = true;
        if lex {
            b = self.lexgen.clone();
            if let Some(k) = self.op(p, KEYWORDS) {
                match find_once(&b, &self.kwlist) {
                    Some(at) => {
                        let mut r = Rng(k.b as u64);
                        let mut pos = at;
                        for l in self.kwlist.split_inclusive(|c| *c == b'\n') {
                            if l.starts_with(b"PG_KEYWORD") && !r.pm(k.a as usize) {
                                b[pos] = b'-';
                            }
                            pos += l.len();
                        }
                    }
                    None => ok = false,
                }
            }
        } else {
            b = self.pargen.clone();
            match find_once(&b, &self.holder) {
                Some(at) => {
                    let mut t = p.docs[0].as_bytes().to_vec();
                    if t.len() > self.holder.len() {
                        return None;
                    }
                    t.resize(self.holder.len(), b'\n');
                    b[at..at + t.len()].copy_from_slice(&t);
                }
                None => ok = false,
            }
        }
        let f = format!("{}/generator", self.dir());
        let _ = std::fs::remove_file(&f);
        std::fs::write(&f, &b).ok()?;
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).ok()?;
        // without an embedded specification to replace, it may be one that is read when it runs: see `lay`
        let _ = ok;
        Some(f)
    }
    /// Lays out a scratch source tree.
    fn lay(&self, p: &Plan, mode: u32) -> String {
        let n = {
            let mut s = self.state.borrow_mut();
            s.n += 1;
            s.n
        };
        let d = format!("{}/t{}", self.dir(), n % 4);
        let _ = std::fs::remove_dir_all(&d);
        for x in [format!("{CORE}/lexer"), format!("{PGEN}/lexer"), "crates/parser-generator/resources".into(), "crates/parser-generator/templates".into(), "crates/lexer-generator/resources".into(), "crates/lexer-generator/templates".into()] {
            std::fs::create_dir_all(format!("{d}/{x}")).unwrap();
        }
        let cp = |f: &str| {
            if let Ok(b) = std::fs::read(format!("{}/{f}", self.src)) {
                let _ = std::fs::write(format!("{d}/{f}"), b);
            }
        };
        for dir in [PGEN, &format!("{PGEN}/lexer"), "crates/parser-generator/templates", "crates/lexer-generator/resources", "crates/lexer-generator/templates"] {
            if let Ok(rd) = std::fs::read_dir(format!("{}/{dir}", self.src)) {
                for e in rd.flatten() {
                    let f = format!("{dir}/{}", e.file_name().to_string_lossy());
                    if e.file_type().map(|t| t.is_file()).unwrap_or(false) && !OUTPUTS.contains(&f.as_str()) {
                        cp(&f);
                    }
                }
            }
        }
        let _ = std::fs::write(format!("{d}/crates/parser-generator/resources/gram.y"), p.docs[0].as_bytes());
        for (i, f) in OUTPUTS.iter().enumerate() {
            let f = format!("{d}/{f}");
            let _ = match mode {
                0 => std::fs::write(f, format!("not generated yet {i}\n")),
                1 => Ok(()),
                2 => std::fs::write(f, b""),
                3 => std::fs::write(f, "old content of an output\n".repeat(20_000)),
                4 => std::fs::write(f, "// formatted\n"),
                _ => std::fs::write(f, [0u8, 159, 146, 150]),
            };
        }
        d
    }
    fn go(&self, prog: &str, d: &str, env: &[(String, String)], seed: u64, clock: u64, f: &[Fault]) -> Done {
        let mut e = env.to_vec();
        e.push(("PATH".into(), format!("{}:/usr/bin:/bin", self.path)));
        os::run(&Job { bin: prog, args: &[], shim: &self.shim, env: &e, cwd: Some(d), input: b"", seed, clock, budget: 3_000_000, faults: f, cpu_s: 60 })
    }
    /// What a run without faults leaves; the reference.
    fn reference(&self, w: &mut Worker, p: &Plan, prog: &str) -> Ref {
        let key = hash(format!("{:?} {:?} {:?}", self.op(p, TARGET), self.op(p, KEYWORDS), p.docs[0]).as_bytes());
        if let Some(r) = self.state.borrow().refs.get(&key) {
            return r.clone();
        }
        let d = self.lay(p, 0);
        let mut before = BTreeMap::new();
        list(&d, "", &mut before);
        let x = self.go(prog, &d, &[], 42, 1_700_000_000_000_000_000, &[]);
        let mut after = BTreeMap::new();
        list(&d, "", &mut after);
        after.retain(|k, v| before.get(k) != Some(v));
        w.count("reference_processes", 1);
        let r = Ref { end: x.end, outputs: after, log: x.log };
        let mut s = self.state.borrow_mut();
        if s.refs.len() > 30 {
            s.refs.clear();
        }
        s.refs.insert(key, r.clone());
        r
    }
    fn compare(&self, d: &str, r: &Ref) -> Option<String> {
        for (f, want) in &r.outputs {
            match std::fs::read(format!("{d}/{f}")) {
                Err(e) => return Some(format!("{f}: {e}")),
                Ok(have) if &have != want => {
                    let i = have.iter().zip(want).position(|(a, b)| a != b).unwrap_or(have.len().min(want.len()));
                    let s = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(25).min(v.len())..(i + 40).min(v.len())]).into_owned();
                    return Some(format!("{f} has {} bytes instead of {}, first difference at byte {i}: {:?} instead of {:?}", have.len(), want.len(), s(&have), s(want)));
                }
                _ => {}
            }
        }
        None
    }
    fn note(&self, w: &mut Worker, d: &Done) {
        for (k, n) in os::NAMES {
            let f = d.log.fired[*k as usize];
            if f > 0 {
                w.count(&format!("fault: {n}"), f);
                w.count(&format!("runs with fault: {n}"), 1);
            }
        }
        w.count("system_calls_decided", d.log.ops);
        w.count("random_draws", d.log.rand_draws);
        w.count("file_bytes_written", d.log.file_bytes);
        w.count(
            match &d.end {
                Ended::Exit(0) => "ended: status 0",
                Ended::Exit(_) => "ended: other status",
                Ended::Signal(_) => "ended: signal",
                _ => "ended: not at all",
            },
            1,
        );
        unsafe {
            let r = &mut *w.sh.rep;
            r.sig = d.log.sig;
            r.total = d.log.ops;
            r.stalls = d.log.total_fired() + (self.which == Which::Same) as u64;
            r.ntrace = 0;
        }
        w.sigs.insert(d.log.sig);
    }
    fn faults(&self, p: &Plan) -> Vec<Fault> {
        p.threads[0].iter().map(|o| Fault { k: o.k as u32, a: o.a as u64, b: o.b as u64, c: o.c as u64 }).collect()
    }
    fn env(&self, p: &Plan) -> Vec<(String, String)> {
        let mut e = p.env.clone();
        if let Some(o) = self.op(p, FMT) {
            let cnt = format!("{}/invocations", self.dir());
            let _ = std::fs::remove_file(&cnt);
            e.push(("SIMFMT_MODE".into(), o.a.to_string()));
            e.push(("SIMFMT_NTH".into(), o.b.to_string()));
            e.push(("SIMFMT_CNT".into(), cnt));
        }
        e
    }
    fn cleanup(&self) {
        let d = self.state.borrow().dir.clone();
        if d.contains("/pgsim-gen-") {
            let _ = std::fs::remove_dir_all(&d);
        }
    }
}
impl Drop for Gens {
    fn drop(&mut self) {
        self.cleanup();
    }
}
impl Scenario for Gens {
    fn prop(&self) -> &'static str {
        match self.which {
            Which::Same => "C08",
            Which::Faulted => "C09",
        }
    }
    fn make(&mut self, w: &mut Worker, r: &mut Rng, run: u64) -> Plan {
        let mut cfg = Cfg::solo();
        cfg.hash_seed = r.u64();
        cfg.clock_base = r.u64() >> 3;
        let mut p = Plan::new(self.prop(), "generator", cfg);
        // one specification serves a few runs
        let mut rg = Rng::of(r.0 ^ run, &[1]);
        let lex = run % 8 == 7;
        p.docs = vec![if lex { String::new() } else { grammar(&mut rg) }];
        p.threads = vec![vec![], vec![Op { k: TARGET, a: !lex as u32, b: 0, c: 0 }, Op { k: INIT, a: r.below(6) as u32, b: 0, c: 0 }]];
        if lex && r.pm(600) {
            p.threads[1].push(Op { k: KEYWORDS, a: *r.pick(&[0, 100, 500, 900]), b: r.below(3) as u32, c: 0 });
        }
        for (k, v) in [("LANG", "C"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Asia/Tokyo"), ("HOME", "/nonexistent"), ("USER", "x"), ("OUT_DIR", "/nonexistent"), ("CARGO_MANIFEST_DIR", "/nonexistent"), ("SOURCE_DATE_EPOCH", "1"), ("RUST_LOG", "trace"), ("DEBUG", "1"), ("RAYON_NUM_THREADS", "3"), ("TMPDIR", "/nonexistent"), ("PWD", "/")] {
            if r.pm(200) {
                p.env.push((k.into(), v.into()));
            }
        }
        let mut add = |k: u32, a: usize, b: usize, c: usize| p.threads[0].push(Op { k: k as u8, a: a as u32, b: b as u32, c: c as u32 });
        // the file system cuts and interrupts
        if r.pm(500) {
            add(31, if lex { *r.pick(&[1000, 5000, 65536]) } else { *r.pick(&[50, 1000, 4096, 65536]) }, 0, 0);
        }
        if r.pm(500) {
            add(30, *r.pick(&[7, 100, 1000, 4096]), 0, 0);
        }
        if r.pm(400) {
            add(44, *r.pick(&[100, 1000, 4096]), 0, 0);
        }
        if r.pm(300) {
            add(32, *r.pick(&[50, 300]), 0, 0);
        }
        if r.pm(300) {
            // no such copy on this file system: the standard library falls back
            add(37, 1, *r.pick(&[libc::EXDEV, libc::ENOSYS, libc::EOPNOTSUPP]) as usize, 1);
        }
        if self.which == Which::Same {
            return p;
        }
        let (muts, bytes, allocs) = match self.program(&p) {
            Some(prog) => {
                let x = self.reference(w, &p, &prog);
                (x.log.mut_ops.max(1) as usize, x.log.file_bytes as usize, x.log.allocs.max(1) as usize)
            }
            None => (10, 1000, 1000),
        };
        let chunks = p.threads[0].iter().find(|o| o.k == 31).map(|o| 1 + 2 * bytes / o.a.max(1) as usize).unwrap_or(0).min(2000);
        for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
            let errno = *r.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EDQUOT, libc::EROFS, libc::ENOMEM, libc::EMFILE]) as u32;
            let o = match r.below(12) {
                0 => Op { k: 33, a: r.range(1, 6) as u32, b: *r.pick(&[libc::ENOENT, libc::EACCES, libc::EMFILE, libc::EIO]) as u32, c: r.pm(200) as u32 },
                1 => Op { k: 34, a: r.range(1, 8) as u32, b: errno, c: r.pm(200) as u32 },
                2 | 3 => Op { k: 35, a: r.range(1, 8 + chunks) as u32, b: errno, c: r.pm(400) as u32 },
                4 => Op { k: 36, a: r.range(1, 8) as u32, b: libc::EIO as u32, c: r.pm(400) as u32 },
                5 => Op { k: 37, a: r.range(1, 8) as u32, b: *r.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT]) as u32, c: r.pm(400) as u32 },
                6 => Op { k: 45, a: r.below(bytes + 100) as u32, b: *r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT]) as u32, c: r.pm(700) as u32 },
                7 => Op { k: 41, a: r.range(1, 2) as u32, b: *r.pick(&[libc::ENOENT, libc::EAGAIN, libc::ENOMEM, libc::EACCES]) as u32, c: r.pm(300) as u32 },
                8 | 9 => Op { k: 43, a: r.range(1, muts + chunks) as u32, b: *r.pick(&[0, 200, 500, 900, 1000]), c: 0 },
                10 => Op { k: 20, a: if r.pm(500) { allocs.saturating_sub(r.below(60)).max(1) as u32 } else { r.range(1, allocs) as u32 }, b: r.pm(300) as u32, c: 0 },
                _ => {
                    p.threads[1].push(Op { k: FMT, a: r.range(1, 6) as u32, b: r.range(1, 2) as u32, c: 0 });
                    continue;
                }
            };
            p.threads[0].push(o);
        }
        p
    }
    fn exec(&self, w: &mut Worker, p: &Plan) -> Verdict {
        if self.lexgen.is_empty() || self.pargen.is_empty() || self.holder.is_empty() || !std::path::Path::new(&self.shim).exists() {
            return bad("harness", "no generators to run");
        }
        let Some(prog) = self.program(p) else { return Ok(()) };
        let r = self.reference(w, p, &prog);
        let lex = self.op(p, TARGET).map(|o| o.a == 0).unwrap_or(false);
        let which = if lex { "lexer generator" } else { "parser generator" };
        w.count(if lex { "lexer_generator_runs" } else { "parser_generator_runs" }, 1);
        let f = self.faults(p);
        let d = self.lay(p, self.op(p, INIT).map(|o| o.a).unwrap_or(0));
        let x = self.go(&prog, &d, &self.env(p), p.cfg.hash_seed, p.cfg.clock_base, &f);
        self.note(w, &x);
        if matches!(x.end, Ended::Exit(97 | 98)) {
            return bad("harness", "the generator could not be started");
        }
        if !r.end.ok() {
            w.count("specifications_refused", 1);
            if x.end.ok() {
                return bad("unstable", format!("the {which} ends with {:?} on a specification in one run and with {:?} in another", r.end, x.end));
            }
            return Ok(());
        }
        if r.outputs.is_empty() {
            return bad("no-output", format!("the {which} ends with status 0 and has written nothing"));
        }
        if matches!(x.end, Ended::Deadlock | Ended::NoProgress) {
            return bad("never-ends", format!("the {which} does not end: {:?} after {} operations", x.end, x.log.ops));
        }
        let fired = || {
            let mut v: Vec<String> = os::NAMES.iter().filter(|(k, _)| x.log.fired[*k as usize] > 0).map(|(_, n)| n.to_string()).collect();
            if let Some(o) = self.op(p, FMT) {
                v.push(format!("rustfmt mode {} at invocation {}", o.a, o.b));
            }
            v.join(", ")
        };
        if self.which == Which::Same {
            if !x.end.ok() {
                return bad("benign-failure", format!("the {which} ended with {:?} on a file system that only cuts and interrupts ({}): {}", x.end, fired(), String::from_utf8_lossy(&x.err).chars().take(300).collect::<String>()));
            }
            if let Some(m) = self.compare(&d, &r) {
                return bad("other-bytes", format!("the {which} wrote something else in a second run: {m}"));
            }
            // and over its own output
            let y = self.go(&prog, &d, &[], p.cfg.hash_seed ^ 0x5555, 1, &[]);
            if !y.end.ok() {
                return bad("benign-failure", format!("the {which} ended with {:?} when run again", y.end));
            }
            if let Some(m) = self.compare(&d, &r) {
                return bad("other-bytes", format!("the {which} wrote something else when run again over its output: {m}"));
            }
            return Ok(());
        }
        if let Some(o) = self.op(p, FMT) {
            w.count(&format!("fault: rustfmt mode {}", o.a), 1);
        }
        if x.end.ok() {
            if let Some(m) = self.compare(&d, &r) {
                return bad("success-without-output", format!("the {which} ended with status 0, but {m} (faults: {})", fired()));
            }
            return Ok(());
        }
        w.count("failed_runs_repeated", 1);
        let y = self.go(&prog, &d, &[], 7, 1_800_000_000_000_000_000, &[]);
        if !y.end.ok() {
            return bad("no-recovery", format!("after a run that ended with {:?} ({}), the {which} ends with {:?} without any fault: {}", x.end, fired(), y.end, String::from_utf8_lossy(&y.err).chars().take(300).collect::<String>()));
        }
        if let Some(m) = self.compare(&d, &r) {
            return bad("no-recovery", format!("after a run that ended with {:?} ({}), a run of the {which} without faults leaves something else: {m}", x.end, fired()));
        }
        Ok(())
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough {
            120_000
        } else {
            6_000
        }
    }
    fn rule(&self) -> String {
        match self.which {
            Which::Same => "a run: one generator with a specification drawn from the seed (random small grammars; the real scanner specification with random keyword subsets), run under two hash seeds, clocks, environments, earlier output states and ways the file system cuts and interrupts, and once more over its own output; all output bytes compared. Non-trivial: every run; distinct by plan and the sequence of system call results",
            Which::Faulted => "a run: one generator with a specification drawn from the seed and 1-3 hard faults (failed opens, reads, writes, copies, spawns, allocations, a full disk, a failing or killed rustfmt, the process killed at an operation) among short and interrupted ones; outputs compared with a fault-free run when it reports success, and after a fault-free rerun otherwise. Non-trivial: at least one fault fired; distinct by plan and the sequence of system call results",
        }
        .into()
    }
    fn droppable(&self, _p: &Plan, o: &Op) -> bool {
        o.k != TARGET
    }
    fn nontrivial(&self) -> &'static str {
        "stalls"
    }
    fn components(&self) -> Option<(&'static str, &'static str)> {
        Some(("both generators as cargo builds them, a process of its own per run, on a scratch directory of the real file system", "the operating system under them (os/simos.c, preloaded); rustfmt, a stand-in that appends a line or fails as planned; the parser generator's embedded grammar, replaced by a small random one"))
    }
}
