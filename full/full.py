#!/usr/bin/env python3
"""full.py WORK SEED RUNS REPLAYS: the second clause of C08.

Runs both real generators on the specifications of /repo, in a scratch copy, under the simulated operating system
(hash seed, clock, process number and addresses from SEED). If what they write is not what the repository ships, builds
the parser from it and compares the two builds on texts made for the differences and on damaged random documents.
Writes WORK/full.json. Exit 0: the same behaviour (or no answer, with the reason in full.json); 1: VIOLATION printed."""
import ctypes, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.environ["VERIF"]
work, seed, runs, replays = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
T = V + "/target"
SRC = T + "/regensrc"
t0 = time.time()
res = {"generators": "both as cargo builds them, on the repository's own specifications", "result": "", "seed": seed}

def done(code):
    res["wall_s"] = round(time.time() - t0, 1)
    json.dump(res, open(work + "/full.json", "w"), indent=1)
    sys.exit(code)

def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ("target", "node_modules", ".git")]
        for f in fs:
            p = os.path.join(r, f)
            if not os.path.islink(p): out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out

shutil.rmtree(SRC, ignore_errors=True)
os.makedirs(SRC)
for f in ("Cargo.toml", "Cargo.lock"):
    p = "/repo/" + f
    if not os.path.exists(p): p = "/opt/vp/" + f
    if os.path.exists(p): shutil.copy(p, SRC + "/" + f)
shutil.copytree("/repo/crates", SRC + "/crates", symlinks=True, ignore=shutil.ignore_patterns("target", "node_modules"))
before = tree(SRC + "/crates")

def generator(name):
    plan, log = work + "/plan." + name, work + "/log." + name
    h = int.from_bytes(hashlib.sha256(f"{seed} {name}".encode()).digest()[:7], "big")
    open(plan, "w").write(f"{h} {1_600_000_000_000_000_000 + h % 10**17} 9000000000 0\n")
    open(log, "wb").write(b"\0" * 4096)
    env = dict(os.environ, LD_PRELOAD=T + "/os/libsimos.so", SIMOS_PLAN=plan, SIMOS_LOG=log, RUST_BACKTRACE="0")
    with open(work + "/out." + name, "w") as o:
        try:
            r = subprocess.run([f"{T}/plain/release/{name}"], preexec_fn=lambda: ctypes.CDLL(None).personality(0x0040000), cwd=SRC, env=env, stdin=subprocess.DEVNULL, stdout=o, stderr=o, timeout=420)
        except subprocess.TimeoutExpired:
            return "timeout"
    return r.returncode

for g in ("lexer-generator", "parser-generator"):
    c = generator(g)
    if c != 0:
        tail = open(work + "/out." + g, errors="replace").read()[-600:]
        if c == "timeout" or c in (-9, -14, 137):
            res["result"] = f"no answer: {g} was stopped ({c})"
            done(0)
        res["result"] = f"{g} ended with {c}: {tail}"
        rp = f"{replays}/C08-full-{g}.json"
        os.makedirs(replays, exist_ok=True)
        json.dump({"prop": "C08", "kind": "full", "seed": seed, "generator": g, "status": c}, open(rp, "w"))
        print(f"specification-refused: {g} ended with {c} on the repository's own specifications: {tail[-300:]}")
        print(f"VIOLATION property=C08 replay={rp}")
        done(1)
after = tree(SRC + "/crates")
changed = sorted(f for f in after if before.get(f) != after[f])
res["files_that_differ_from_the_shipped_ones"] = changed
if not changed:
    res["result"] = "every generated file is byte for byte the shipped one"
    done(0)

def build(skip):
    for f in changed:
        data = before.get(f) if f in skip else after[f]
        if data is None: os.remove(f"{SRC}/crates/{f}")
        else: open(f"{SRC}/crates/{f}", "wb").write(data)
    sim = SRC + "/sim"
    shutil.rmtree(sim, ignore_errors=True)
    shutil.copytree(V + "/sim", sim, ignore=shutil.ignore_patterns("target"))
    p = sim + "/Cargo.toml"
    s = open(p).read().replace("/repo/crates", SRC + "/crates")
    open(p, "w").write(s)
    r = subprocess.run(["bash", V + "/build.sh", "regen"], capture_output=True, text=True)
    return r.stdout.strip().split("\n")[-1] if r.returncode == 0 else None, r.stderr[-2000:]

tried = "all of them"
other, err = build(())
if not other:
    # copies of hand-written sources may lag behind the shipped ones; the generated files alone
    hand = [f for f in changed if not re.search(r"(parser|syntax_kind|generated)\.rs$", f)]
    if hand:
        tried = "without " + ", ".join(hand)
        other, err = build(hand)
res["compared"] = tried
if not other:
    res["result"] = "no answer: the generated sources do not build next to the shipped ones: " + err[-800:]
    done(0)
core = "/crates/postgresql-cst-parser/src"
try:
    subprocess.run([sys.executable, V + "/full/witness.py", "/repo" + core, SRC + core, V + "/sim/data/grammar.txt", work + "/witness.json", "90", str(seed)], check=True, timeout=300, stdout=subprocess.DEVNULL)
    res["made_texts"] = json.load(open(work + "/witness.json"))["stats"]
except Exception as e:
    res["made_texts"] = repr(e)
    json.dump({"docs": []}, open(work + "/witness.json", "w"))
mine = T + "/dfa/x86_64-unknown-linux-gnu/release/pgsim"
os.makedirs(work + "/cmp", exist_ok=True)
r = subprocess.run([mine, "run", "C08", "--seed", str(seed), "--runs", runs, "--cap", "200", "--out", work + "/cmp.json", "--replays", replays, "--work", work + "/cmp", "--peer", f"docs:{other};{work}/witness.json"], capture_output=True, text=True)
sys.stdout.write(r.stdout)
if r.returncode in (0, 1):
    res["comparison"] = json.load(open(work + "/cmp.json"))["coverage"]["counters"]
    res["result"] = "other bytes, same behaviour" if r.returncode == 0 else "other behaviour"
else:
    res["result"] = f"no answer: comparison ended with {r.returncode}: {r.stdout[-300:]}{r.stderr[-300:]}"
done(1 if r.returncode == 1 else 0)
