//! C02: one tree, many threads. Handles walk, read, clone, travel and die on every thread under a seeded schedule;
//! every answer is compared with the tree a single reader saw in a process of its own.
use crate::engine::*;
use wl::gen::Grammar;
use crate::model::{self, kind_of, Model, Outcome, NONE};
use wl::rng::Rng;
use crate::rt;
use crate::sc_threads::{clip, fail};
use postgresql_cst_parser::{NodeOrToken, ResolvedNode, ResolvedToken};
use std::sync::{Arc, Mutex};

pub struct Tree {
    pub g: Arc<Grammar>,
}
#[derive(Clone)]
enum El {
    N(ResolvedNode),
    T(ResolvedToken),
}
impl El {
    fn of(e: NodeOrToken) -> El {
        match e {
            NodeOrToken::Node(n) => El::N(n.clone()),
            NodeOrToken::Token(t) => El::T(t.clone()),
        }
    }
}
struct H {
    el: El,
    idx: u32,
    doc: u32,
}
struct Ctx {
    sh: usize,
    docs: Vec<String>,
    models: Vec<Model>,
    empty_nodes: Vec<bool>,
    mail: Vec<Mutex<Vec<H>>>,
}
impl Ctx {
    fn fail(&self, class: &str, d: String) -> ! {
        fail(&mut Out::of(unsafe { &*(self.sh as *const Shared) }), class, d)
    }
    fn expect(&self, doc: u32, got: Option<El>, want: Option<u32>, what: &str, from: u32) -> Option<H> {
        let m = &self.models[doc as usize];
        let name = |i: u32| format!("#{i} kind {} at {}..{}", m.recs[i as usize].kind, m.recs[i as usize].start, m.recs[i as usize].end);
        match (got, want) {
            (None, None) => None,
            (Some(el), Some(i)) => {
                let h = H { el, idx: i, doc };
                self.check(&h, what);
                Some(h)
            }
            (g, w) => self.fail("wrong-tree", format!("{what} of {} in {}: {} but a single reader gets {}", name(from), clip(&self.docs[doc as usize]), if g.is_some() { "an element" } else { "nothing" }, w.map(name).unwrap_or("nothing".into()))),
        }
    }
    fn check(&self, h: &H, what: &str) {
        let m = &self.models[h.doc as usize];
        let r = &m.recs[h.idx as usize];
        let (k, s, e, tok, same_text) = match &h.el {
            El::N(n) => (kind_of(n.kind()), u32::from(n.text_range().start()), u32::from(n.text_range().end()), false, true),
            El::T(t) => (kind_of(t.kind()), u32::from(t.text_range().start()), u32::from(t.text_range().end()), true, t.text() == m.texts[h.idx as usize]),
        };
        if (k, s, e, tok, same_text) != (r.kind, r.start, r.end, r.tok, true) {
            self.fail("wrong-tree", format!("{what} gives kind {k} at {s}..{e} (token: {tok}, text as expected: {same_text}); a single reader gets kind {} at {}..{} (token: {})", r.kind, r.start, r.end, r.tok));
        }
    }
}

const NAV: &[&str] = &["parent", "first_child_or_token", "last_child_or_token", "next_sibling_or_token", "prev_sibling_or_token", "nth child", "first_child", "last_child", "next_sibling", "prev_sibling", "first_token", "last_token", "next_token", "prev_token", "root", "siblings"];
const K_NAV: u8 = 0; // a slot, b index into NAV, c parameter
const K_TEXT: u8 = 1;
const K_WALK: u8 = 2;
const K_CLONE: u8 = 3;
const K_DROP: u8 = 4;
const K_SEND: u8 = 5; // b: thread
const K_RECV: u8 = 6;
const K_ROOT: u8 = 7; // take the root again
const K_DROPROOT: u8 = 8;
const K_ANC: u8 = 9;
const K_AT: u8 = 10;
const K_COVER: u8 = 11;
const K_RESCAN: u8 = 12; // whole snapshot through the handle's root
const K_PARSE: u8 = 13; // parse and drop another document meanwhile
const K_DEBUG: u8 = 14;
const K_CHECK: u8 = 15;
const K_SIBS: u8 = 16;

fn parent_of(m: &Model, i: u32) -> Option<u32> {
    let p = m.recs[i as usize].parent;
    (p != NONE).then_some(p)
}
fn sib(m: &Model, i: u32, d: i32, nodes_only: bool) -> Option<u32> {
    let p = parent_of(m, i)?;
    let k = &m.recs[p as usize].kids;
    let mut pos = k.iter().position(|x| *x == i).unwrap() as i32 + d;
    while pos >= 0 && (pos as usize) < k.len() {
        let x = k[pos as usize];
        if !nodes_only || !m.recs[x as usize].tok {
            return Some(x);
        }
        pos += d;
    }
    None
}

fn run_thread(cx: &Arc<Ctx>, me: usize, ops: &[Op], roots: Vec<(u32, Arc<ResolvedNode>)>, direct: bool) {
    let mut roots: Vec<Option<(u32, Arc<ResolvedNode>)>> = roots.into_iter().map(Some).collect();
    let mut own: Vec<Option<(u32, ResolvedNode)>> = vec![];
    if direct {
        for r in roots.iter_mut() {
            let (d, a) = r.take().unwrap();
            let n = rt::armed(|| (*a).clone());
            drop(a);
            own.push(Some((d, n)));
        }
    }
    let mut slots: Vec<H> = vec![];
    let grab = |roots: &Vec<Option<(u32, Arc<ResolvedNode>)>>, own: &Vec<Option<(u32, ResolvedNode)>>, k: usize| -> Option<H> {
        let n = roots.len().max(1);
        let k = k % n;
        if direct {
            own[k].as_ref().map(|(d, n)| H { el: El::N(rt::armed(|| n.clone())), idx: 0, doc: *d })
        } else {
            roots[k].as_ref().map(|(d, a)| H { el: El::N(rt::armed(|| (**a).clone())), idx: 0, doc: *d })
        }
    };
    if let Some(h) = grab(&roots, &own, me) {
        slots.push(h);
    }
    for o in ops {
        if o.k == K_RECV {
            let got: Vec<H> = std::mem::take(&mut *cx.mail[me].lock().unwrap());
            slots.extend(got);
            continue;
        }
        if o.k == K_ROOT {
            if let Some(h) = grab(&roots, &own, o.a as usize) {
                slots.push(h);
            }
            continue;
        }
        if o.k == K_DROPROOT {
            let k = o.a as usize % roots.len().max(1);
            if direct {
                let x = own[k].take();
                rt::armed(|| drop(x));
            } else {
                let x = roots[k].take();
                rt::armed(|| drop(x));
            }
            continue;
        }
        if o.k == K_PARSE {
            let d = &cx.docs[o.a as usize % cx.docs.len()];
            let r = parse_armed(d, 0);
            let m = &cx.models[o.a as usize % cx.docs.len()];
            if let Ok(Ok(Outcome::Tree(t))) = &r {
                if model::snapshot(t) != *m {
                    cx.fail("wrong-tree", format!("a parse of {} while trees were shared gave another tree", clip(d)));
                }
            } else {
                cx.fail("wrong-tree", format!("a parse of {} while trees were shared gave no tree", clip(d)));
            }
            rt::armed(|| drop(r));
            continue;
        }
        if slots.is_empty() {
            continue;
        }
        let si = o.a as usize % slots.len();
        let (doc, idx) = (slots[si].doc, slots[si].idx);
        let m = &cx.models[doc as usize];
        let rec = &m.recs[idx as usize];
        match o.k {
            K_NAV => {
                let mut nav = o.b as usize % NAV.len();
                if cx.empty_nodes[doc as usize] && (10..=13).contains(&nav) {
                    nav = 0;
                }
                let what = NAV[nav];
                let el = &slots[si].el;
                let leaves_in = |i: u32| -> (u32, u32) {
                    // records are in document order: the subtree of i is i..=last
                    let mut last = i;
                    while let Some(k) = m.recs[last as usize].kids.last() {
                        last = *k;
                    }
                    let mut first = i;
                    while let Some(k) = m.recs[first as usize].kids.first() {
                        first = *k;
                    }
                    (first, last)
                };
                let leaf_step = |i: u32, d: i32| -> Option<u32> {
                    let mut j = i as i32 + d;
                    while j >= 0 && (j as usize) < m.recs.len() {
                        if m.recs[j as usize].tok {
                            return Some(j as u32);
                        }
                        j += d;
                    }
                    None
                };
                if nav == 15 {
                    continue;
                }
                let (got, want): (Option<El>, Option<u32>) = match (nav, el) {
                    (0, El::N(n)) => (rt::armed(|| n.parent().cloned()).map(El::N), parent_of(m, idx)),
                    (0, El::T(t)) => (Some(El::N(rt::armed(|| t.parent().clone()))), parent_of(m, idx)),
                    (1, El::N(n)) => (rt::armed(|| n.first_child_or_token().map(El::of)), rec.kids.first().copied()),
                    (2, El::N(n)) => (rt::armed(|| n.last_child_or_token().map(El::of)), rec.kids.last().copied()),
                    (3, El::N(n)) => (rt::armed(|| n.next_sibling_or_token().map(El::of)), sib(m, idx, 1, false)),
                    (3, El::T(t)) => (rt::armed(|| t.next_sibling_or_token().map(El::of)), sib(m, idx, 1, false)),
                    (4, El::N(n)) => (rt::armed(|| n.prev_sibling_or_token().map(El::of)), sib(m, idx, -1, false)),
                    (4, El::T(t)) => (rt::armed(|| t.prev_sibling_or_token().map(El::of)), sib(m, idx, -1, false)),
                    (5, El::N(n)) => {
                        let k = if rec.kids.is_empty() { 0 } else { o.c as usize % rec.kids.len() };
                        (rt::armed(|| n.children_with_tokens().nth(k).map(El::of)), rec.kids.get(k).copied())
                    }
                    (6, El::N(n)) => (rt::armed(|| n.first_child().cloned()).map(El::N), rec.kids.iter().find(|k| !m.recs[**k as usize].tok).copied()),
                    (7, El::N(n)) => (rt::armed(|| n.last_child().cloned()).map(El::N), rec.kids.iter().rev().find(|k| !m.recs[**k as usize].tok).copied()),
                    (8, El::N(n)) => (rt::armed(|| n.next_sibling().cloned()).map(El::N), sib(m, idx, 1, true)),
                    (9, El::N(n)) => (rt::armed(|| n.prev_sibling().cloned()).map(El::N), sib(m, idx, -1, true)),
                    (10, El::N(n)) => (rt::armed(|| n.first_token().cloned()).map(El::T), Some(leaves_in(idx).0)),
                    (11, El::N(n)) => (rt::armed(|| n.last_token().cloned()).map(El::T), Some(leaves_in(idx).1)),
                    (12, El::T(t)) => (rt::armed(|| t.next_token().cloned()).map(El::T), leaf_step(idx, 1)),
                    (13, El::T(t)) => (rt::armed(|| t.prev_token().cloned()).map(El::T), leaf_step(idx, -1)),
                    (14, El::N(n)) => (rt::armed(|| n.ancestors().last().cloned()).map(El::N), Some(0)),
                    (14, El::T(t)) => (rt::armed(|| t.ancestors().last().cloned()).map(El::N), Some(0)),
                    _ => continue,
                };
                if let Some(h) = cx.expect(doc, got, want, what, idx) {
                    if slots.len() < 12 && o.c & 1 == 0 {
                        slots.push(h);
                    } else {
                        let old = std::mem::replace(&mut slots[si], h);
                        rt::armed(|| drop(old));
                    }
                }
            }
            K_TEXT => {
                let want = &m.text[rec.start as usize..rec.end as usize];
                let got = match &slots[si].el {
                    El::N(n) => rt::armed(|| n.text().to_string()),
                    El::T(t) => rt::armed(|| t.text().to_string()),
                };
                if got != want {
                    cx.fail("wrong-tree", format!("text of kind {} at {}..{} is {} but a single reader gets {}", rec.kind, rec.start, rec.end, clip(&got), clip(want)));
                }
            }
            K_WALK => {
                if let El::N(n) = &slots[si].el {
                    let got: Vec<(u32, u32, u32, bool)> = rt::armed(|| {
                        n.descendants_with_tokens()
                            .map(|e| match e {
                                NodeOrToken::Node(n) => (kind_of(n.kind()), u32::from(n.text_range().start()), u32::from(n.text_range().end()), false),
                                NodeOrToken::Token(t) => (kind_of(t.kind()), u32::from(t.text_range().start()), u32::from(t.text_range().end()), true),
                            })
                            .collect()
                    });
                    let mut last = idx;
                    while let Some(k) = m.recs[last as usize].kids.last() {
                        last = *k;
                    }
                    let want: Vec<_> = m.recs[idx as usize..=last as usize].iter().map(|r| (r.kind, r.start, r.end, r.tok)).collect();
                    if got != want {
                        cx.fail("wrong-tree", format!("a walk below #{idx} of {} sees {} elements that differ from the {} a single reader sees", clip(&cx.docs[doc as usize]), got.len(), want.len()));
                    }
                }
            }
            K_SIBS => {
                if let El::N(n) = &slots[si].el {
                    let got: Vec<(u32, u32)> = rt::armed(|| n.children_with_tokens().map(|e| (kind_of(e.kind()), u32::from(e.text_range().start()))).collect());
                    let want: Vec<_> = rec.kids.iter().map(|k| (m.recs[*k as usize].kind, m.recs[*k as usize].start)).collect();
                    if got != want {
                        cx.fail("wrong-tree", format!("children of #{idx} of {} differ", clip(&cx.docs[doc as usize])));
                    }
                }
            }
            K_CLONE => {
                let h = H { el: rt::armed(|| slots[si].el.clone()), idx, doc };
                if slots.len() < 12 {
                    slots.push(h);
                } else {
                    rt::armed(|| drop(h));
                }
            }
            K_DROP => {
                let h = slots.swap_remove(si);
                rt::armed(|| drop(h));
            }
            K_SEND => {
                let h = slots.swap_remove(si);
                let to = o.b as usize % cx.mail.len();
                cx.mail[to].lock().unwrap().push(h);
            }
            K_ANC => {
                let got: Vec<u32> = match &slots[si].el {
                    El::N(n) => rt::armed(|| n.ancestors().map(|x| kind_of(x.kind())).collect()),
                    El::T(t) => rt::armed(|| t.ancestors().map(|x| kind_of(x.kind())).collect()),
                };
                let mut want = vec![];
                let mut i = if rec.tok { parent_of(m, idx) } else { Some(idx) };
                while let Some(x) = i {
                    want.push(m.recs[x as usize].kind);
                    i = parent_of(m, x);
                }
                if got != want {
                    cx.fail("wrong-tree", format!("ancestors of #{idx} are {got:?}, a single reader gets {want:?}"));
                }
            }
            K_AT | K_COVER => {
                if cx.empty_nodes[doc as usize] {
                    continue;
                }
                let leaves: Vec<u32> = (0..m.recs.len() as u32).filter(|i| m.recs[*i as usize].tok).collect();
                if leaves.is_empty() || idx != 0 {
                    continue;
                }
                let l = leaves[o.c as usize % leaves.len()];
                if let El::N(n) = &slots[si].el {
                    if o.k == K_AT {
                        let off = m.recs[l as usize].start;
                        let t = rt::armed(|| n.token_at_offset(off.into()).right_biased());
                        if let Some(h) = cx.expect(doc, t.map(El::T), Some(l), "token_at_offset", idx) {
                            slots[si] = h;
                        }
                    } else {
                        let r = cstree::text::TextRange::new(m.recs[l as usize].start.into(), m.recs[l as usize].end.into());
                        let t = rt::armed(|| El::of(n.covering_element(r)));
                        if let Some(h) = cx.expect(doc, Some(t), Some(l), "covering_element", idx) {
                            slots[si] = h;
                        }
                    }
                }
            }
            K_RESCAN => {
                if m.recs.len() < 400 {
                    let root = match &slots[si].el {
                        El::N(n) => rt::armed(|| n.ancestors().last().cloned()),
                        El::T(t) => rt::armed(|| t.ancestors().last().cloned()),
                    };
                    let got = rt::armed(|| model::snapshot(root.as_ref().unwrap()));
                    if got != *m {
                        cx.fail("wrong-tree", format!("a full read of {} through a handle differs from a single reader's", clip(&cx.docs[doc as usize])));
                    }
                    rt::armed(|| drop(root));
                }
            }
            K_DEBUG => {
                if let El::T(t) = &slots[si].el {
                    let _ = rt::armed(|| format!("{t:?}"));
                }
            }
            _ => cx.check(&slots[si], "a held handle"),
        }
    }
    for h in &slots {
        cx.check(h, "a handle held to the end");
    }
    rt::armed(|| drop(slots));
    rt::armed(|| drop(roots));
    rt::armed(|| drop(own));
}

impl Scenario for Tree {
    fn prop(&self) -> &'static str {
        "C02"
    }
    fn make(&mut self, w: &mut Worker, r: &mut Rng, _run: u64) -> Plan {
        let cfg = Cfg::random(r);
        let kind = if r.pm(500) { "arc" } else { "clones" };
        let mut p = Plan::new("C02", kind, cfg);
        let nd = *r.pick(&[1, 1, 2, 3]);
        let max = *r.pick(&[40, 150, 600]);
        let mut tries = 0;
        while p.docs.len() < nd {
            tries += 1;
            let d = if tries > 40 { format!("select {}", r.below(1000)) } else if p.docs.len() == 1 && r.pm(500) { p.docs[0].replace('a', "b") } else { self.g.document(r) };
            if d.len() > max {
                continue;
            }
            if w.reference(&d, 0).obs.first() == Some(&1) {
                p.docs.push(d);
            }
        }
        let nt = r.range(2, 6);
        let len = *r.pick(&[4, 10, 30]);
        // swarm: some kinds of operation are switched off, some are favoured
        let mut menu: Vec<u8> = vec![];
        for (k, wgt) in [(K_NAV, 30), (K_TEXT, 8), (K_WALK, 4), (K_CLONE, 6), (K_DROP, 6), (K_SEND, 4), (K_RECV, 4), (K_ROOT, 4), (K_DROPROOT, 2), (K_ANC, 2), (K_AT, 3), (K_COVER, 2), (K_RESCAN, 2), (K_PARSE, 1), (K_DEBUG, 1), (K_CHECK, 2), (K_SIBS, 4)] {
            let f = *r.pick(&[0, 1, 1, 3]);
            for _ in 0..wgt * f {
                menu.push(k);
            }
        }
        if menu.is_empty() {
            menu.push(K_WALK);
        }
        let same_start = r.pm(400);
        for t in 0..nt {
            let mut v = vec![];
            if same_start && t > 0 {
                // all threads race for the same red nodes
                v = p.threads[0].clone();
                for o in v.iter_mut() {
                    if r.pm(100) {
                        *o = Op { k: *r.pick(&menu), a: r.below(12) as u32, b: r.below(64) as u32, c: r.below(64) as u32 };
                    }
                }
            } else {
                for _ in 0..r.range(1, len) {
                    v.push(Op { k: *r.pick(&menu), a: r.below(12) as u32, b: r.below(64) as u32, c: r.below(64) as u32 });
                }
            }
            p.threads.push(v);
        }
        p
    }
    fn exec(&self, w: &mut Worker, p: &Plan) -> Verdict {
        let mut models = vec![];
        let mut sum = 0;
        for d in &p.docs {
            let x = w.reference(d, 0);
            if x.obs.first() != Some(&1) {
                return Ok(());
            }
            let n = u32::from_le_bytes(x.obs[1..5].try_into().unwrap()) as usize;
            let text = std::str::from_utf8(&x.obs[5..5 + n]).unwrap();
            models.push(Model::from_bytes(text, &x.obs[5 + n..]));
            sum += x.steps;
        }
        let mut cfg = p.cfg.clone();
        let nops: usize = p.threads.iter().map(|t| t.len()).sum();
        let nrec: usize = models.iter().map(|m| m.recs.len()).sum();
        cfg.budget = sum * 20 + 50_000_000 + (nops * nrec) as u64 * 20_000;
        let plan = p.clone();
        let sh: *const Shared = &w.sh;
        let (end, out, _) = child(&w.sh, 120, move |_o| {
            let sh = unsafe { &*sh };
            let _b = begin(sh, &cfg);
            let empty_nodes = models.iter().map(|m| m.recs.iter().any(|r| !r.tok && r.start == r.end)).collect();
            let cx = Arc::new(Ctx { sh: sh as *const Shared as usize, docs: plan.docs.clone(), models, empty_nodes, mail: plan.threads.iter().map(|_| Mutex::new(vec![])).collect() });
            let cx2 = cx.clone();
            let docs = plan.docs.clone();
            // the results are made on one thread, which ends before they are used
            let roots: Vec<Arc<ResolvedNode>> = spawn(move || {
                docs.iter()
                    .map(|d| match parse_armed(d, 0) {
                        Ok(Ok(Outcome::Tree(t))) => Arc::new(t),
                        o => cx2.fail("wrong-tree", format!("{} gave a tree alone and now {}", clip(d), model::describe(&obs_of(&o)))),
                    })
                    .collect()
            })
            .join()
            .unwrap();
            let mut hs = vec![];
            let direct = plan.kind == "clones";
            for (i, t) in plan.threads.iter().enumerate() {
                let (cx, t) = (cx.clone(), t.clone());
                let rs: Vec<(u32, Arc<ResolvedNode>)> = roots.iter().enumerate().map(|(k, r)| (k as u32, r.clone())).collect();
                hs.push(spawn(move || run_thread(&cx, i, &t, rs, direct)));
            }
            drop(roots);
            for h in hs {
                if h.join().is_err() {
                    cx.fail("panic", "a thread reading a shared tree panicked".into());
                }
            }
            // what was sent and never received outlives every thread and root
            let cx2 = cx.clone();
            let _ = spawn(move || {
                for m in &cx2.mail {
                    for h in m.lock().unwrap().drain(..) {
                        cx2.check(&h, "a handle that outlived its threads");
                    }
                }
            })
            .join();
            unsafe { rt::sim_end() };
        });
        w.note_run();
        w.verdict(&end, &out)
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough {
            300_000
        } else {
            15_000
        }
    }
    fn rule(&self) -> String {
        "a run: one to three parsed trees shared by 2-6 threads (through Arc or through cloned handles) doing up to 30 operations each: navigation, text, kinds, ranges, walks, token and range look-ups, clone, drop, sending handles to other threads, dropping roots, parsing meanwhile; every answer compared with the tree a single reader saw in a fresh process; the heap is poisoned and every instrumented access checked. Non-trivial: at least one preemption; distinct by plan and schedule signature".into()
    }
    fn nontrivial(&self) -> &'static str {
        "any"
    }
}
