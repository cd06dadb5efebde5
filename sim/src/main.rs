mod engine;
mod json;
mod model;
mod os;
use wl::{gen, rng};
mod rt;
mod sc_cli;
mod sc_cost;
mod sc_docs;
mod sc_gen;
mod sc_gram;
mod sc_scan;
mod sc_threads;
mod sc_transit;
mod sc_tree;

use engine::*;
use json::J;
use rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[global_allocator]
static A: rt::SimAlloc = rt::SimAlloc;

const STREAMS: u64 = 16;

fn scenario(prop: &str, g: &Arc<gen::Grammar>, peer: &str) -> Box<dyn Scenario> {
    use sc_threads::{Threads, Which};
    match prop {
        "C01" => Box::new(Threads { which: Which::Isolation, g: g.clone() }),
        "C02" => Box::new(sc_tree::Tree { g: g.clone() }),
        "C03" => Box::new(sc_cli::Cli::new(sc_cli::Which::Delivery, g, peer)),
        "C04" => Box::new(sc_cli::Cli::new(sc_cli::Which::Loss, g, peer)),
        "C05" => Box::new(sc_docs::Docs::new(sc_docs::Which::Damaged, g, peer)),
        "C06" => Box::new(sc_docs::Docs::new(sc_docs::Which::Backward, g, peer)),
        "C07" => Box::new(sc_docs::Docs::new(sc_docs::Which::Stream, g, peer)),
        "C11" => Box::new(sc_docs::Docs::new(sc_docs::Which::Engines, g, peer)),
        "C22" => Box::new(sc_docs::Docs::new(sc_docs::Which::Reflow, g, peer)),
        "C23" => Box::new(sc_docs::Docs::new(sc_docs::Which::Empty, g, peer)),
        "C13" => Box::new(sc_docs::Docs::new(sc_docs::Which::Doors, g, peer)),
        "C14" => Box::new(sc_cost::Cost { g: g.clone() }),
        "C20" => Box::new(sc_docs::Docs::new(sc_docs::Which::Language, g, peer)),
        "C21" => Box::new(sc_docs::Docs::new(sc_docs::Which::Scan, g, peer)),
        "C15" => Box::new(sc_docs::Docs::new(sc_docs::Which::Contents, g, peer)),
        "C08" if peer.starts_with("docs:") => Box::new(sc_docs::Docs::new(sc_docs::Which::Engines, g, peer)),
        "C08" => Box::new(sc_gen::Gens::new(sc_gen::Which::Same, peer)),
        "C09" => Box::new(sc_gen::Gens::new(sc_gen::Which::Faulted, peer)),
        "C10" => Box::new(Threads { which: Which::Memory, g: g.clone() }),
        "C12" => Box::new(Threads { which: Which::Stall, g: g.clone() }),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2)
        }
    }
}
fn arg(a: &[String], k: &str, d: &str) -> String {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string())
}
fn prop_no(p: &str) -> u64 {
    p[1..].parse().unwrap_or(0)
}
fn pin(k: usize) {
    unsafe {
        let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(k % n, &mut s);
        libc::sched_setaffinity(0, std::mem::size_of_val(&s), &s);
    }
}

fn plan_sig(p: &Plan) -> u64 {
    rng::hash(p.json().dump().as_bytes())
}

struct Opts {
    prop: String,
    seed: u64,
    runs: u64,
    cap_s: f64,
    work: String,
    replays: String,
    peer: String,
    known: String,
    det: u64,
}

/// One worker: its share of the streams, then a result file.
fn worker(o: &Opts, g: &Arc<gen::Grammar>, k: u64, nw: u64, stop: *mut u8) {
    pin(k as usize);
    let t0 = real_now();
    let mut w = Worker::new();
    let mut sc = scenario(&o.prop, g, &o.peer);
    let mut evals = 0u64;
    let mut nontrivial: BTreeSet<u64> = BTreeSet::new();
    let mut found: Option<(Plan, Violation)> = None;
    let mut harness: Option<String> = None;
    let mut probes: Vec<J> = vec![];
    if o.prop == "C05" {
        // documents that nest or list without end: a thousand levels must be fine on an ordinary stack
        let listed = std::fs::read_to_string(&o.known).unwrap_or_default();
        let nk = sc_docs::DEEP.len();
        for i in (0..nk * 2).filter(|i| *i as u64 % nw == k) {
            let p = sc_docs::deep_plan(i % nk, [1000, 100_000][i / nk], 8);
            w.count("deep_documents", 1);
            if let Err(v) = sc.exec(&mut w, &p) {
                let id = sc_docs::deep_id(&p);
                if let Some(l) = listed.lines().find(|l| l.starts_with("known: property=C05 ") && l.split(' ').nth(2) == Some(&id)) {
                    w.known.push(l["known: property=C05 ".len()..].to_string());
                } else {
                    let path = format!("{}/C05-{}.json", o.replays, id.replace(':', "-"));
                    std::fs::create_dir_all(&o.replays).unwrap();
                    std::fs::write(&path, p.json().dump()).unwrap();
                    probes.push(J::A(vec![J::s(path), J::s(v.class), J::s(v.detail)]));
                }
            }
        }
    }
    if let Some(f) = o.peer.strip_prefix("docs:").and_then(|p| p.split(';').nth(1)) {
        // documents made for the places where the two differ
        let j = J::parse(&std::fs::read_to_string(f).unwrap()).unwrap();
        for (i, d) in j.get("docs").arr().iter().enumerate() {
            if i as u64 % nw != k || real_now() - t0 > o.cap_s || !probes.is_empty() {
                continue;
            }
            w.count("made_documents", 1);
            let p = sc_docs::document_plan(&o.prop, d.str());
            if let Err(v) = sc.exec(&mut w, &p) {
                let (p, v) = minimise(&*sc, &mut w, &p, &v);
                let path = format!("{}/{}-{:016x}.json", o.replays, o.prop, plan_sig(&p));
                std::fs::create_dir_all(&o.replays).unwrap();
                std::fs::write(&path, p.json().dump()).unwrap();
                probes.push(J::A(vec![J::s(path), J::s(v.class), J::s(v.detail)]));
            }
        }
    }
    let per = (o.runs / STREAMS).max(1);
    let mut capped = false;
    let mut det = (0u64, 0u64);
    'outer: for s in (0..STREAMS).filter(|s| s % nw == k) {
        let mut run = 0;
        w.clear_maps();
        sc.start_stream(o.seed, s, STREAMS);
        while run < per {
            if real_now() - t0 > o.cap_s {
                capped = true;
                break 'outer;
            }
            if unsafe { std::ptr::read_volatile(stop) } != 0 {
                break 'outer;
            }
            let nb = sc.batch().min((per - run) as usize).max(1);
            let mut ps = vec![];
            for i in 0..nb as u64 {
                let mut r = Rng::of(o.seed, &[prop_no(&o.prop), s, run + i]);
                ps.push(sc.make(&mut w, &mut r, run + i));
            }
            let bad = sc.exec_batch(&mut w, &ps);
            evals += nb as u64;
            for p in &ps {
                let rep = w.sh.rep();
                let ok = match sc.nontrivial() {
                    "stalls" => rep.stalls > 0,
                    "allocs" => rep.allocs > 0,
                    _ => true,
                };
                if ok && bad.is_none() {
                    nontrivial.insert(rng::mix(plan_sig(p), rep.sig));
                }
            }
            if w.samples.len() < 1 && evals > 3 {
                let mut j = ps[0].json();
                j.set("switches", J::I(w.sh.rep().switches as i128));
                w.samples.push(j);
            }
            // determinism: the first runs of every stream are executed twice and must agree step for step
            if run < o.det && nb == 1 && bad.is_none() {
                let (a, b) = (w.sh.rep().sig, w.sh.rep().total);
                let _ = sc.exec(&mut w, &ps[0]);
                let (c, d) = (w.sh.rep().sig, w.sh.rep().total);
                det.0 += 1;
                if (a, b) != (c, d) {
                    det.1 += 1;
                    if std::env::var("PGSIM_DEBUG").is_ok() {
                        eprintln!("nondeterministic: {a:x}/{b} vs {c:x}/{d} {}", ps[0].json().dump());
                    }
                }
            }
            if let Some((i, v)) = bad {
                if v.class == "harness" {
                    harness = Some(v.detail.clone());
                    break 'outer;
                }
                let mut p = ps[i].clone();
                let mut same = 0;
                if nb > 1 && sc.exec(&mut w, &p).is_ok() {
                    // it takes what came before it in the same process
                    if let Some(q) = sc.history(&ps[..=i]) {
                        p = q;
                    }
                }
                for _ in 0..3 {
                    if let Err(v2) = sc.exec(&mut w, &p) {
                        same += (v2.class == v.class) as u32;
                    }
                }
                if same == 0 {
                    harness = Some(format!("a {} did not happen again: {}", v.class, v.detail));
                    break 'outer;
                }
                unsafe { std::ptr::write_volatile(stop, 1) };
                found = Some(minimise(&*sc, &mut w, &p, &v));
                break 'outer;
            }
            run += nb as u64;
        }
    }
    let mut j = J::obj(vec![("evals", J::I(evals as i128)), ("capped", J::B(capped)), ("det_checked", J::I(det.0 as i128)), ("det_differ", J::I(det.1 as i128))]);
    j.set("nontrivial", J::A(nontrivial.iter().map(|x| J::I(*x as i128)).collect()));
    j.set("sigs", J::A(w.sigs.iter().map(|x| J::I(*x as i128)).collect()));
    j.set("counters", J::O(w.counters.iter().map(|(k, v)| (k.clone(), J::I(*v as i128))).collect()));
    j.set("samples", J::A(w.samples.clone()));
    j.set("known", J::A(w.known.iter().map(J::s).collect()));
    j.set("probes", J::A(probes));
    if let Some(h) = harness {
        j.set("harness", J::s(h));
    }
    if let Some((p, v)) = found {
        let mut f = p.json();
        f.set("violation", J::obj(vec![("class", J::s(&v.class)), ("detail", J::s(&v.detail))]));
        for (k, v) in sc.extra(&p) {
            f.set(&k, J::s(v));
        }
        f.set("seed", J::I(o.seed as i128));
        let path = format!("{}/{}-{:016x}.json", o.replays, o.prop, plan_sig(&p));
        std::fs::create_dir_all(&o.replays).unwrap();
        std::fs::write(&path, f.dump()).unwrap();
        j.set("violation", J::s(path));
        j.set("class", J::s(&v.class));
        j.set("detail", J::s(&v.detail));
    }
    w.merge_maps();
    std::fs::write(format!("{}/w{k}.json", o.work), j.dump()).unwrap();
}

fn run(a: &[String]) -> i32 {
    let t0 = real_now();
    let prop = a[1].clone();
    let thorough = arg(a, "--tier", "quick") == "thorough";
    let seed: u64 = arg(a, "--seed", "1").parse().unwrap_or_else(|_| rng::hash(arg(a, "--seed", "1").as_bytes()));
    let g = Arc::new(gen::Grammar::load());
    let sc = scenario(&prop, &g, "");
    let runs: u64 = arg(a, "--runs", &sc.runs(thorough).to_string()).parse().unwrap();
    let nw: u64 = arg(a, "--workers", "8").parse().unwrap();
    let o = Opts { prop: prop.clone(), seed, runs, cap_s: arg(a, "--cap", if thorough { "780" } else { "300" }).parse().unwrap(), work: arg(a, "--work", "/tmp"), replays: arg(a, "--replays", "/tmp"), peer: arg(a, "--peer", ""), known: arg(a, "--known", ""), det: arg(a, "--det", "4").parse().unwrap() };
    let stop = shm(4096);
    init_global_maps();
    let mut pids = vec![];
    for k in 0..nw {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            worker(&o, &g, k, nw, stop);
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    let mut dead = 0;
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
        if st != 0 {
            dead += 1;
        }
    }
    let mut evals = 0;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let (mut nt, mut sg) = (BTreeSet::new(), BTreeSet::new());
    let mut samples = vec![];
    let mut harness = vec![];
    let mut viol = vec![];
    let mut known = BTreeSet::new();
    let mut capped = false;
    let mut det = (0, 0);
    for k in 0..nw {
        let Ok(s) = std::fs::read_to_string(format!("{}/w{k}.json", o.work)) else {
            harness.push(format!("worker {k} left no result"));
            continue;
        };
        let j = J::parse(&s).unwrap();
        evals += j.get("evals").u();
        capped |= j.get("capped") == &J::B(true);
        det.0 += j.get("det_checked").u();
        det.1 += j.get("det_differ").u();
        for x in j.get("nontrivial").arr() {
            nt.insert(x.u());
        }
        for x in j.get("sigs").arr() {
            sg.insert(x.u());
        }
        if let J::O(m) = j.get("counters") {
            for (k, v) in m {
                let e = counters.entry(k.clone()).or_insert(0);
                if k.starts_with("max_") {
                    *e = (*e).max(v.u());
                } else {
                    *e += v.u();
                }
            }
        }
        for x in j.get("known").arr() {
            known.insert(x.str().to_string());
        }
        if samples.len() < 2 {
            samples.extend(j.get("samples").arr().iter().cloned());
        }
        for x in j.get("probes").arr() {
            viol.push((x.arr()[0].str().to_string(), x.arr()[1].str().to_string(), x.arr()[2].str().to_string()));
        }
        if j.get("violation") != &J::Null {
            viol.push((j.get("violation").str().to_string(), j.get("class").str().to_string(), j.get("detail").str().to_string()));
        }
        if j.get("harness") != &J::Null {
            harness.push(j.get("harness").str().to_string());
        }
    }
    if dead > 0 {
        harness.push(format!("{dead} worker(s) died"));
    }
    let wall = real_now() - t0;
    let (edges, ro) = global_map_counts();
    let comp = sc.components().unwrap_or(("postgresql-cst-parser, postgresql-cst-parser-wasm, cstree, parking_lot, Rust std, all instrumented except std, real pthreads passing a baton", "thread scheduling, futex, sleep, clocks, getrandom, getenv, open, the heap"));
    let mut cov = J::obj(vec![
        ("evaluations", J::I(evals as i128)),
        ("distinct_nontrivial", J::I(nt.len() as i128)),
        ("rule", J::s(sc.rule())),
        ("samples", J::A(samples)),
        ("distinct_schedule_signatures", J::I(sg.len() as i128)),
        ("runs_per_hour", J::I((evals as f64 / wall * 3600.0) as i128)),
        ("seeds_per_hour", J::I((evals as f64 / wall * 3600.0) as i128)),
        ("parser_edges_reached", J::I(edges as i128)),
        ("parser_edges_total", J::I(rt::n_edges() as i128)),
        ("table_cells_read", J::I(ro as i128)),
        ("runs_executed_twice_for_determinism", J::I(det.0 as i128)),
        ("runs_that_differed", J::I(det.1 as i128)),
        ("stopped_by_wall_clock", J::B(capped)),
        ("counters", J::O(counters.iter().map(|(k, v)| (k.clone(), J::I(*v as i128))).collect())),
        ("real_components", J::s(comp.0)),
        ("simulated_components", J::s(comp.1)),
    ]);
    cov.set("simulated_steps", J::I(*counters.get("steps").unwrap_or(&0) as i128));
    let ev = J::obj(vec![
        ("property", J::s(&prop)),
        ("tier", J::s(if thorough { "thorough" } else { "quick" })),
        ("seed", J::I(seed as i128)),
        ("level", J::s("exploration")),
        ("coverage", cov),
        ("assumptions", J::A(vec![J::s("preemption points are the basic block edges and the non-stack loads and stores of the instrumented crates; executions are sequentially consistent"), J::s("the standard library and libc are not instrumented; they run for real between preemption points")])),
        ("wall_s", J::F(wall)),
        ("violations", J::I(viol.len() as i128)),
    ]);
    let evp = arg(a, "--out", "");
    if !evp.is_empty() {
        std::fs::write(&evp, ev.dump()).unwrap();
    }
    for k in &known {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    println!("{prop}: {evals} runs, {} distinct non-trivial, {} schedule signatures, {wall:.1} s", nt.len(), sg.len());
    if !viol.is_empty() {
        for (path, class, detail) in &viol {
            let again = std::process::Command::new("/proc/self/exe").args(["replay", path, "--peer", &o.peer]).output().map(|o| o.status.code() == Some(1)).unwrap_or(false);
            println!("{class}: {detail}");
            println!("replay in a fresh process: {}", if again { "same violation" } else { "did not reproduce" });
            println!("VIOLATION property={prop} replay={path}");
        }
        return 1;
    }
    if !harness.is_empty() {
        for h in &harness {
            println!("HARNESS ERROR: {h}");
        }
        return 2;
    }
    if det.1 > 0 {
        println!("HARNESS ERROR: {} of {} runs executed twice did not agree", det.1, det.0);
        return 2;
    }
    0
}

fn main() {
    // a fixed address space, so that addresses are part of the seed's choices and not of the kernel's
    unsafe {
        if std::env::var_os("PGSIM_NOASLR").is_none() {
            let cur = libc::personality(0xffffffff);
            if cur >= 0 && cur & libc::ADDR_NO_RANDOMIZE == 0 && libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
                std::env::set_var("PGSIM_NOASLR", "1");
                use std::os::unix::process::CommandExt;
                let _ = std::process::Command::new("/proc/self/exe").arg0("pgsim").args(std::env::args_os().skip(1)).exec();
            }
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("run") => run(&a),
        Some("replay") => {
            let j = J::parse(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
            let p = Plan::from_json(&j);
            let g = Arc::new(gen::Grammar::load());
            init_global_maps();
            let mut w = Worker::new();
            let sc = scenario(&p.prop, &g, &arg(&a, "--peer", ""));
            match sc.exec(&mut w, &p) {
                Ok(()) => {
                    println!("the property held");
                    0
                }
                Err(v) => {
                    println!("{}: {}", v.class, v.detail);
                    println!("schedule signature {:016x}, {} steps, {} switches", w.sh.rep().sig, w.sh.rep().total, w.sh.rep().switches);
                    println!("VIOLATION property={} replay={}", p.prop, a[1]);
                    1
                }
            }
        }
        Some("serve") => {
            model::BY_NAME.store(a.iter().any(|x| x == "names"), std::sync::atomic::Ordering::Relaxed);
            sc_docs::serve();
            0
        }
        Some("gen") => {
            let g = gen::Grammar::load();
            let n: u64 = arg(&a, "--n", "100").parse().unwrap();
            let (mut ok, mut len) = (0, 0);
            for i in 0..n {
                let mut r = Rng::of(arg(&a, "--seed", "1").parse().unwrap(), &[99, i]);
                let d = g.document(&mut r);
                len += d.len();
                let x = guard(|| model::run(&d));
                if arg(&a, "--show", "") != "" {
                    println!("{} {d:?}", match &x { Ok(model::Outcome::Tree(_)) => "ok ".into(), Ok(model::Outcome::Error(e)) => format!("ERR {e:?}"), Err(p) => format!("PANIC {p}") });
                }
                ok += matches!(x, Ok(model::Outcome::Tree(_))) as u64;
            }
            println!("{ok} of {n} accepted, mean length {}", len as u64 / n.max(1));
            0
        }
        _ => {
            eprintln!("usage: pgsim run PROP | replay FILE | gen");
            2
        }
    };
    std::process::exit(code);
}
