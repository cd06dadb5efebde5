//! Runs plans: forks, references, verdicts, minimisation, replay files, evidence.
use crate::json::J;
use crate::model;
use wl::rng::{hash, Rng};
use crate::rt::{self, CCfg, Rep, Sw};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const OUT_CAP: usize = 16 << 20;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Op {
    pub k: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub sched_seed: u64,
    pub hash_seed: u64,
    pub pad_seed: u64,
    pub clock_base: u64,
    pub jump_pm: u32,
    pub strategy: u32,
    pub quantum: u32,
    pub static_pm: u32,
    pub pct_points: u32,
    pub pct_span: u32,
    pub stalls: Vec<(u32, u64)>,
    pub budget: u64,
    pub serial: bool,
    pub quar: bool,
    pub envsim: u64,
    pub replay: Option<Vec<Sw>>,
}
impl Cfg {
    pub fn solo() -> Cfg {
        Cfg { sched_seed: 1, hash_seed: 42, pad_seed: 0, clock_base: 1_700_000_000_000_000_000, jump_pm: 0, strategy: 0, quantum: 1 << 30, static_pm: 0, pct_points: 0, pct_span: 0, stalls: vec![], budget: 2_000_000_000, serial: false, quar: false, envsim: 0, replay: None }
    }
    /// Swarm style: every run draws its own scheduler and machine.
    pub fn random(r: &mut Rng) -> Cfg {
        let mut c = Cfg::solo();
        c.sched_seed = r.u64();
        c.hash_seed = r.u64();
        c.pad_seed = r.u64() | 1;
        c.clock_base = r.u64() >> 2;
        c.jump_pm = *r.pick(&[0, 0, 100, 900]);
        c.strategy = *r.pick(&[0, 0, 1, 2, 3]);
        c.quantum = *r.pick(&[20, 100, 500, 2_500, 10_000, 60_000]);
        c.static_pm = *r.pick(&[0, 20, 200, 600]);
        c.quar = r.pm(600);
        c.envsim = if r.pm(700) { r.u64() | 1 } else { 0 };
        c.pct_points = r.range(1, 6) as u32;
        c.pct_span = *r.pick(&[2_000, 20_000, 100_000, 400_000]);
        c
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub kind: String,
    pub docs: Vec<String>,
    pub threads: Vec<Vec<Op>>,
    pub env: Vec<(String, String)>,
    pub cfg: Cfg,
}
impl Plan {
    pub fn new(prop: &str, kind: &str, cfg: Cfg) -> Plan {
        Plan { prop: prop.into(), kind: kind.into(), docs: vec![], threads: vec![], env: vec![], cfg }
    }
    pub fn json(&self) -> J {
        let i = |x: u64| J::I(x as i128);
        let c = &self.cfg;
        J::obj(vec![
            ("prop", J::s(&self.prop)),
            ("kind", J::s(&self.kind)),
            ("docs", J::A(self.docs.iter().map(|d| J::s(d)).collect())),
            ("threads", J::A(self.threads.iter().map(|t| J::A(t.iter().map(|o| J::A(vec![i(o.k as u64), i(o.a as u64), i(o.b as u64), i(o.c as u64)])).collect())).collect())),
            ("env", J::A(self.env.iter().map(|(k, v)| J::A(vec![J::s(k), J::s(v)])).collect())),
            (
                "cfg",
                J::obj(vec![
                    ("sched_seed", i(c.sched_seed)),
                    ("hash_seed", i(c.hash_seed)),
                    ("pad_seed", i(c.pad_seed)),
                    ("clock_base", i(c.clock_base)),
                    ("jump_pm", i(c.jump_pm as u64)),
                    ("strategy", i(c.strategy as u64)),
                    ("quantum", i(c.quantum as u64)),
                    ("static_pm", i(c.static_pm as u64)),
                    ("pct_points", i(c.pct_points as u64)),
                    ("pct_span", i(c.pct_span as u64)),
                    ("stalls", J::A(c.stalls.iter().map(|(t, s)| J::A(vec![i(*t as u64), i(*s)])).collect())),
                    ("budget", i(c.budget)),
                    ("serial", J::B(c.serial)),
                    ("quar", J::B(c.quar)),
                    ("envsim", i(c.envsim)),
                    ("schedule", c.replay.as_ref().map(|v| J::A(v.iter().map(|s| J::A(vec![i(s.from as u64), i(s.step), i(s.to as u64), i(s.kind as u64)])).collect())).unwrap_or(J::Null)),
                ]),
            ),
        ])
    }
    pub fn from_json(j: &J) -> Plan {
        let c = j.get("cfg");
        Plan {
            prop: j.get("prop").str().into(),
            kind: j.get("kind").str().into(),
            docs: j.get("docs").arr().iter().map(|d| d.str().to_string()).collect(),
            threads: j.get("threads").arr().iter().map(|t| t.arr().iter().map(|o| { let o = o.arr(); Op { k: o[0].u() as u8, a: o[1].u() as u32, b: o[2].u() as u32, c: o[3].u() as u32 } }).collect()).collect(),
            env: j.get("env").arr().iter().map(|e| (e.arr()[0].str().into(), e.arr()[1].str().into())).collect(),
            cfg: Cfg {
                sched_seed: c.get("sched_seed").u(),
                hash_seed: c.get("hash_seed").u(),
                pad_seed: c.get("pad_seed").u(),
                clock_base: c.get("clock_base").u(),
                jump_pm: c.get("jump_pm").u() as u32,
                strategy: c.get("strategy").u() as u32,
                quantum: c.get("quantum").u() as u32,
                static_pm: c.get("static_pm").u() as u32,
                pct_points: c.get("pct_points").u() as u32,
                pct_span: c.get("pct_span").u() as u32,
                stalls: c.get("stalls").arr().iter().map(|e| (e.arr()[0].u() as u32, e.arr()[1].u())).collect(),
                budget: c.get("budget").u(),
                serial: c.get("serial") == &J::B(true),
                quar: c.get("quar") == &J::B(true),
                envsim: c.get("envsim").u(),
                replay: if c.get("schedule") == &J::Null { None } else { Some(c.get("schedule").arr().iter().map(|e| { let e = e.arr(); Sw { from: e[0].u() as u8, step: e[1].u(), to: e[2].u() as u8, kind: e[3].u() as u8, pad: 0, pad2: 0 } }).collect()) },
            },
        }
    }
}

pub fn shm(n: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}
/// Memory a forked child shares with its worker.
pub struct Shared {
    pub rep: *mut Rep,
    out: *mut u8,
    pub edges: *mut u8,
    pub ro: *mut u8,
}
impl Shared {
    pub fn new() -> Shared {
        Shared { rep: shm(std::mem::size_of::<Rep>()) as *mut Rep, out: shm(OUT_CAP), edges: shm(rt::n_edges() as usize + 64), ro: shm(rt::ro_cells() as usize + 64) }
    }
    pub fn rep(&self) -> &Rep {
        unsafe { &*self.rep }
    }
    pub fn ro_count(&self) -> (u64, u64) {
        unsafe {
            let e = std::slice::from_raw_parts(self.edges, rt::n_edges() as usize + 64);
            let r = std::slice::from_raw_parts(self.ro, rt::ro_cells() as usize + 64);
            (e.iter().filter(|x| **x != 0).count() as u64, r.iter().filter(|x| **x != 0).count() as u64)
        }
    }
}
pub struct Out<'a>(&'a Shared);
impl<'a> Out<'a> {
    pub fn of(sh: &'a Shared) -> Out<'a> {
        Out(sh)
    }
    pub fn put(&mut self, b: &[u8]) {
        unsafe {
            let len = *(self.0.out as *mut u64) as usize;
            if len + b.len() + 16 <= OUT_CAP {
                std::ptr::copy_nonoverlapping(b.as_ptr(), self.0.out.add(16 + len), b.len());
                *(self.0.out as *mut u64) = (len + b.len()) as u64;
            }
        }
    }
    pub fn mark(&mut self, i: u64) {
        unsafe { *((self.0.out as *mut u64).add(1)) = i }
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
}
/// Forks; the child runs `f` and exits. Returns how it ended, what it wrote and its last mark.
pub fn child(sh: &Shared, secs: u32, f: impl FnOnce(&mut Out)) -> (End, Vec<u8>, u64) {
    unsafe {
        *(sh.out as *mut u64) = 0;
        *((sh.out as *mut u64).add(1)) = 0;
        (*sh.rep).status = 0;
        (*sh.rep).ntrace = 0;
        (*sh.rep).msg[0] = 0;
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::alarm(secs);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut Out(sh))));
            libc::_exit(if r.is_ok() { 0 } else { 99 });
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let end = if libc::WIFEXITED(st) { End::Exit(libc::WEXITSTATUS(st)) } else { End::Signal(libc::WTERMSIG(st)) };
        let len = *(sh.out as *mut u64) as usize;
        let v = std::slice::from_raw_parts(sh.out.add(16), len).to_vec();
        (end, v, *((sh.out as *mut u64).add(1)))
    }
}

/// What a text gives in a process that has done nothing else.
#[derive(Clone, Debug)]
pub struct Ref {
    pub obs: Vec<u8>,
    pub steps: u64,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
pub type Verdict = Result<(), Violation>;
pub fn bad<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), detail: detail.into() })
}

pub struct Begin {
    pub cfg: CCfg,
    _sw: Vec<Sw>,
}
pub fn begin(sh: &Shared, c: &Cfg) -> Begin {
    let sw = c.replay.clone().unwrap_or_default();
    let mut st = [0u32; 80];
    let mut sa = [0u64; 80];
    for (i, (t, s)) in c.stalls.iter().take(80).enumerate() {
        st[i] = *t;
        sa[i] = *s;
    }
    let cc = CCfg {
        sched_seed: c.sched_seed,
        hash_seed: c.hash_seed,
        pad_seed: c.pad_seed,
        clock_base_ns: c.clock_base,
        step_budget: c.budget,
        replay: c.replay.is_some() as u32,
        strategy: c.strategy,
        quantum: c.quantum.max(1),
        static_pm: c.static_pm,
        pct_points: c.pct_points,
        pct_span: c.pct_span.max(1),
        clock_jump_pm: c.jump_pm,
        nstall: c.stalls.len().min(80) as u32,
        stall_tid: st,
        stall_at: sa,
        nsw: sw.len() as u32,
        quarantine: c.quar as u32,
        env_seed: c.envsim,
        sw: sw.as_ptr(),
    };
    unsafe {
        rt::sim_cov_maps(sh.edges, sh.ro, rt::ro_cells());
        rt::sim_begin(&cc, sh.rep);
    }
    Begin { cfg: cc, _sw: sw }
}
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into()))
}
/// Parses through one entry point, armed; entry 0: library, 1: wasm string.
pub fn parse_armed(text: &str, entry: u32) -> Result<Result<model::Outcome, String>, String> {
    guard(|| rt::armed(|| if entry == 1 { Err(model::wasm(text)) } else { Ok(model::run(text)) }))
}
pub fn obs_of(r: &Result<Result<model::Outcome, String>, String>) -> Vec<u8> {
    match r {
        Ok(Ok(o)) => model::observe(o),
        Ok(Err(s)) => {
            let mut b = vec![2u8];
            b.extend(s.as_bytes());
            b
        }
        Err(p) => {
            let mut b = vec![3u8];
            b.extend(p.as_bytes());
            b
        }
    }
}

pub struct Worker {
    pub sh: Shared,
    pub cache: HashMap<(u64, u32, usize), Ref>,
    pub counters: BTreeMap<String, u64>,
    pub sigs: BTreeSet<u64>,
    pub samples: Vec<J>,
    pub known: Vec<String>,
}
impl Worker {
    pub fn new() -> Worker {
        Worker { sh: Shared::new(), cache: HashMap::new(), counters: BTreeMap::new(), sigs: BTreeSet::new(), samples: vec![], known: vec![] }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.into()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(k.into()).or_insert(0);
        *e = (*e).max(n);
    }
    /// The reference: one parse, alone, in a fresh copy of the pristine process.
    pub fn reference(&mut self, text: &str, entry: u32) -> Ref {
        let key = (hash(text.as_bytes()), entry, text.len());
        if let Some(r) = self.cache.get(&key) {
            return r.clone();
        }
        let sh = &self.sh;
        let (end, out, _) = child(sh, 120, |o| {
            let _b = begin(sh, &Cfg::solo());
            let t = text.to_string();
            let (obs, steps) = on_thread(move || {
                let s0 = rt::my_steps();
                let r = parse_armed(&t, entry);
                let s1 = rt::my_steps();
                (obs_of(&r), s1 - s0)
            });
            unsafe { rt::sim_end() };
            o.put(&steps.to_le_bytes());
            o.put(&obs);
        });
        let r = if end == End::Exit(0) && out.len() >= 8 {
            Ref { obs: out[8..].to_vec(), steps: u64::from_le_bytes(out[..8].try_into().unwrap()) }
        } else {
            let mut b = vec![4u8];
            b.extend(format!("{end:?} {}", self.sh.rep().message()).as_bytes());
            Ref { obs: b, steps: 0 }
        };
        self.count("reference_processes", 1);
        if self.cache.len() > 3000 {
            self.cache.clear();
        }
        self.cache.insert(key, r.clone());
        r
    }
    /// References of several texts from one process. What it does not get to is left out.
    pub fn prefetch(&mut self, texts: &[String]) {
        let sh = &self.sh;
        let todo: Vec<String> = texts.iter().filter(|t| !self.cache.contains_key(&(hash(t.as_bytes()), 0, t.len()))).cloned().collect();
        let again = todo.clone();
        let (_, out, done) = child(sh, 120, |o| {
            let mut cfg = Cfg::solo();
            cfg.budget = cfg.budget.saturating_mul(1 + todo.len() as u64);
            let _b = begin(sh, &cfg);
            let v = on_thread(move || {
                todo.iter()
                    .map(|t| {
                        let s0 = rt::my_steps();
                        let r = parse_armed(t, 0);
                        let s1 = rt::my_steps();
                        (obs_of(&r), s1 - s0)
                    })
                    .collect::<Vec<_>>()
            });
            unsafe { rt::sim_end() };
            let mut sum = 0;
            for (i, (obs, steps)) in v.iter().enumerate() {
                sum += obs.len() + 16;
                if sum + 1000 > OUT_CAP {
                    break;
                }
                o.put(&(obs.len() as u64).to_le_bytes());
                o.put(&steps.to_le_bytes());
                o.put(obs);
                o.mark(i as u64 + 1);
            }
        });
        let mut at = 0;
        let n = |b: &[u8]| u64::from_le_bytes(b.try_into().unwrap());
        if self.cache.len() > 3000 {
            self.cache.clear();
        }
        for t in again.iter().take(done as usize) {
            let len = n(&out[at..at + 8]) as usize;
            let steps = n(&out[at + 8..at + 16]);
            self.cache.insert((hash(t.as_bytes()), 0, t.len()), Ref { obs: out[at + 16..at + 16 + len].to_vec(), steps });
            at += 16 + len;
        }
        self.count("reference_processes", 1);
    }
    /// Forgets a reference.
    pub fn unlearn(&mut self, text: &str) {
        self.cache.remove(&(hash(text.as_bytes()), 0, text.len()));
    }
    /// Turns how a child ended into a verdict.
    pub fn verdict(&self, end: &End, out: &[u8]) -> Verdict {
        match end {
            End::Exit(0) => {
                if out.is_empty() {
                    return Ok(());
                }
                let s = String::from_utf8_lossy(out).into_owned();
                let (c, d) = s.split_once('\u{1}').unwrap_or((&s, ""));
                bad(c, d)
            }
            End::Exit(n) if *n > 100 && *n < 120 => {
                let m = self.sh.rep().message();
                bad(
                    match n - 100 {
                        1 => "deadlock",
                        2 => "blocked-by-stall",
                        3 => "no-progress",
                        4 => "use-after-free",
                        5 => "double-free",
                        7 => "bad-free",
                        _ => "harness",
                    },
                    m,
                )
            }
            End::Exit(n) => bad("harness", format!("child exit {n}")),
            End::Signal(s) if *s == libc::SIGALRM => bad("harness", "a run took too long outside the simulator's step count"),
            End::Signal(s) => bad("crash", format!("the process died on signal {s}")),
        }
    }
    pub fn note_run(&mut self) {
        let r = self.sh.rep();
        let v = [("switches", r.switches), ("steps", r.total), ("static_accesses", r.static_hits), ("futex_waits", r.futex_waits), ("futex_wakes", r.futex_wakes), ("clock_reads", r.clock_reads), ("clock_jumps", r.clock_jumps), ("random_draws", r.rand_draws), ("stalls", r.stalls), ("sim_threads", r.threads), ("allocations", r.allocs), ("sched_yields", r.yields)];
        let sig = r.sig;
        let nt = r.ntrace;
        for (k, n) in v {
            self.count(k, n);
        }
        if nt > 0 {
            self.sigs.insert(sig);
        }
    }
}
static NAMES: [std::sync::atomic::AtomicU64; 2] = [const { std::sync::atomic::AtomicU64::new(0) }; 2];
/// From now on threads have names, drawn from the seed of the machine.
pub fn name_threads(c: &Cfg) {
    NAMES[0].store(if c.hash_seed == 42 { 0 } else { c.hash_seed | 1 }, std::sync::atomic::Ordering::Relaxed);
}
pub fn spawn<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> std::thread::JoinHandle<R> {
    let b = std::thread::Builder::new().stack_size(64 << 20);
    let seed = NAMES[0].load(std::sync::atomic::Ordering::Relaxed);
    if seed == 0 {
        return b.spawn(f).unwrap();
    }
    let k = NAMES[1].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let b = match wl::rng::mix(seed, k) % 7 {
        0 | 1 => b,
        2 => b.name("main".into()),
        3 => b.name(format!("worker-{k}")),
        4 => b.name("tokio-runtime-worker".into()),
        5 => b.name(String::new()),
        _ => b.name(format!("thread {k} of a pool with a long name")),
    };
    b.spawn(f).unwrap()
}
pub fn on_thread<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap()
}

pub trait Scenario {
    fn prop(&self) -> &'static str;
    /// Run number `run` of worker stream `w` (both fixed by the seed).
    fn make(&mut self, w: &mut Worker, r: &mut Rng, run: u64) -> Plan;
    /// Runs a plan in the current (worker) process: references, then a forked child.
    fn exec(&self, w: &mut Worker, p: &Plan) -> Verdict;
    /// Executes a batch; default is one by one. Returns the index of the first failing plan.
    fn exec_batch(&mut self, w: &mut Worker, ps: &[Plan]) -> Option<(usize, Violation)> {
        for (i, p) in ps.iter().enumerate() {
            if let Err(v) = self.exec(w, p) {
                return Some((i, v));
            }
        }
        None
    }
    /// Before stream `s` of `n`.
    fn start_stream(&mut self, _seed: u64, _s: u64, _n: u64) {}
    /// One plan that runs several plans of a batch in one process.
    fn history(&self, _ps: &[Plan]) -> Option<Plan> {
        None
    }
    fn extra(&self, _p: &Plan) -> Vec<(String, String)> {
        vec![]
    }
    fn batch(&self) -> usize {
        1
    }
    fn runs(&self, thorough: bool) -> u64;
    fn rule(&self) -> String;
    /// Whether op `o` may be dropped by the minimiser.
    fn droppable(&self, _p: &Plan, _o: &Op) -> bool {
        true
    }
    fn shrink_docs(&self) -> bool {
        true
    }
    fn nontrivial(&self) -> &'static str;
    /// Real and simulated components, if not the usual ones.
    fn components(&self) -> Option<(&'static str, &'static str)> {
        None
    }
}

/// Shrinks a failing plan while it fails in the same class.
pub fn minimise(s: &dyn Scenario, w: &mut Worker, p0: &Plan, v0: &Violation) -> (Plan, Violation) {
    let t0 = real_now();
    let mut best = p0.clone();
    let mut bv = v0.clone();
    let mut evals = 0;
    let spent = std::cell::Cell::new(false);
    let mut attempt = |w: &mut Worker, c: Plan, best: &mut Plan, bv: &mut Violation| -> bool {
        evals += 1;
        if evals > 900 || real_now() - t0 > 45.0 {
            spent.set(true);
            return false;
        }
        if let Err(v) = s.exec(w, &c) {
            if v.class == bv.class {
                *best = c;
                *bv = v;
                return true;
            }
        }
        false
    };
    // freeze the schedule
    let _ = s.exec(w, &best);
    let rep = w.sh.rep();
    if rep.ntrace > 0 && rep.trace_overflow == 0 {
        let tr = rep.trace[..rep.ntrace as usize].to_vec();
        let mut c = best.clone();
        c.cfg.replay = Some(tr);
        attempt(w, c, &mut best, &mut bv);
    }
    for round in 0..3 {
        let before = best.clone();
        // threads
        let mut i = 0;
        while i < best.threads.len() {
            if best.threads[i].iter().any(|o| s.droppable(&best, o)) {
                let mut c = best.clone();
                c.threads[i].retain(|o| !s.droppable(&best, o));
                if c != best {
                    attempt(w, c, &mut best, &mut bv);
                }
            }
            i += 1;
        }
        // operations
        for t in 0..best.threads.len() {
            let mut chunk = (best.threads[t].len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best.threads[t].len() && !spent.get() {
                    let mut c = best.clone();
                    let e = (i + chunk).min(c.threads[t].len());
                    let dropped: Vec<Op> = c.threads[t].drain(i..e).collect();
                    if !dropped.iter().all(|o| s.droppable(&best, o)) || !attempt(w, c, &mut best, &mut bv) {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
        // machine
        for f in [|c: &mut Plan| c.env.clear(), |c: &mut Plan| c.cfg.stalls.clear(), |c: &mut Plan| c.cfg.jump_pm = 0, |c: &mut Plan| c.cfg.pad_seed = 1, |c: &mut Plan| c.cfg.hash_seed = 42, |c: &mut Plan| c.cfg.envsim = 0, |c: &mut Plan| c.cfg.quar = false] as [fn(&mut Plan); 7] {
            let mut c = best.clone();
            f(&mut c);
            if c != best {
                attempt(w, c, &mut best, &mut bv);
            }
        }
        // schedule
        if let Some(sw) = best.cfg.replay.clone() {
            let mut cur = sw;
            let mut chunk = (cur.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < cur.len() && !spent.get() {
                    let mut t = cur.clone();
                    t.drain(i..(i + chunk).min(cur.len()));
                    let mut c = best.clone();
                    c.cfg.replay = Some(t.clone());
                    if attempt(w, c, &mut best, &mut bv) {
                        cur = t;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
        // documents
        if s.shrink_docs() {
            for d in 0..best.docs.len() {
                let mut chunk = (best.docs[d].chars().count() / 2).max(1);
                loop {
                    let mut i = 0;
                    loop {
                        let cs: Vec<char> = best.docs[d].chars().collect();
                        if i >= cs.len() || spent.get() {
                            break;
                        }
                        let mut c = best.clone();
                        c.docs[d] = cs[..i].iter().chain(cs[(i + chunk).min(cs.len())..].iter()).collect();
                        if !attempt(w, c, &mut best, &mut bv) {
                            i += chunk;
                        }
                    }
                    if chunk == 1 {
                        break;
                    }
                    chunk /= 2;
                }
            }
        }
        if best == before || round == 2 {
            break;
        }
    }
    (best, bv)
}
/// Wall clock, for budgets and reports only; never consulted by anything a run's outcome depends on.
pub fn real_now() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        let r: i64;
        std::arch::asm!("syscall", inlateout("rax") 228i64 => r, in("rdi") 1i64, in("rsi") &mut t, out("rcx") _, out("r11") _);
        let _ = r;
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

static GMAP: std::sync::OnceLock<(usize, usize)> = std::sync::OnceLock::new();
pub fn init_global_maps() {
    GMAP.get_or_init(|| (shm(rt::n_edges() as usize + 64) as usize, shm(rt::ro_cells() as usize + 64) as usize));
}
fn maps_or(dst: usize, src: *const u8, n: usize) {
    unsafe {
        for i in 0..n {
            if *src.add(i) != 0 {
                *(dst as *mut u8).add(i) = 1;
            }
        }
    }
}
pub fn global_map_counts() -> (u64, u64) {
    let g = GMAP.get().unwrap();
    unsafe {
        let e = std::slice::from_raw_parts(g.0 as *const u8, rt::n_edges() as usize + 64);
        let r = std::slice::from_raw_parts(g.1 as *const u8, rt::ro_cells() as usize + 64);
        (e.iter().filter(|x| **x != 0).count() as u64, r.iter().filter(|x| **x != 0).count() as u64)
    }
}
impl Worker {
    pub fn clear_maps(&mut self) {
        self.merge_maps();
        unsafe {
            std::ptr::write_bytes(self.sh.edges, 0, rt::n_edges() as usize + 64);
            std::ptr::write_bytes(self.sh.ro, 0, rt::ro_cells() as usize + 64);
        }
    }
    pub fn merge_maps(&self) {
        if let Some(g) = GMAP.get() {
            maps_or(g.0, self.sh.edges, rt::n_edges() as usize + 64);
            maps_or(g.1, self.sh.ro, rt::ro_cells() as usize + 64);
        }
    }
}
