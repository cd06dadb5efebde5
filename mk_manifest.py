#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
SIM = "deterministic simulation with fault injection"
checks = {
 "C01": ("seeded schedules, memory, clock, entropy and environment around concurrent and repeated parses", "exploration"),
 "C02": ("seeded schedules of handle operations on shared trees, compared with a reference model, on a checked heap", "exploration"),
 "C03": ("seeded cuts, delays and interruptions of the tool's input and output under a simulated operating system, compared with the undisturbed rendering", "exploration"),
 "C04": ("seeded read errors, write errors, full devices, broken pipes and failed allocations under a simulated operating system", "exploration"),
 "C05": ("seeded storage and transport faults on documents, invariants on every answer, step budget", "exploration"),
 "C06": ("seeded faults from a point on, compared with the undamaged document's tree", "exploration"),
 "C07": ("seeded loss, repetition and reordering of statements, compared with each statement alone", "exploration"),
 "C08": ("seeded hash seeds, clocks, environments, addresses and cut writes around both generators under a simulated operating system; generated and shipped sources as replicas", "exploration"),
 "C09": ("seeded I/O errors, full disks, failed processes and kills at any operation of both generators under a simulated operating system", "exploration"),
 "C11": ("two builds as replicas fed one seeded, damaged stream", "exploration"),
 "C10": ("seeded histories of parses and drops on a metered heap", "exploration"),
 "C22": ("seeded comments, white space and newline translations inserted, changed and stripped in transit, compared with the untouched document", "exploration"),
 "C23": ("two builds as replicas fed one seeded, damaged stream", "exploration"),
 "C13": ("seeded streams of damaged documents at both entry points at once under seeded schedules, answers compared", "exploration"),
 "C14": ("seeded streams and growing documents, some cut short, on a machine that counts every basic block (standard library included), every byte moved and every byte held", "exploration"),
 "C15": ("seeded rewrites of token contents in transit together with lost, swapped and repeated tokens, compared with the untouched document", "exploration"),
 "C20": ("seeded walks and damaged token streams fed to the parser and to a reference model (bison's tables for the repository's grammar), verdicts, derivations and error positions compared", "exploration"),
 "C21": ("texts damaged character by character under a seed, fed to the parser and to a reference scanner with the reference grammar behind it; every leaf, error position and complaint compared", "exploration"),
 "C12": ("seeded permanent stalls inside parses", "exploration"),
}
NOTE = {}
pure = "a pure function of the input: no schedule, clock, I/O, fault or second party takes part in it, so simulation has nothing to decide"
na = {"C24": pure}
try:
    exec(open(os.path.join(here, "manifest_extra.py")).read())
except FileNotFoundError:
    pass
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
for p in props:
    if p not in checks and p not in na:
        na[p] = "no check yet"
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "none: the seams are symbols (pthread, futex, clocks, getrandom, getenv, read, write, open, malloc) and compiler instrumentation, nothing in /repo is guarded", "enable": "RUSTFLAGS with sancov instrumentation in /verif/build.sh; LD_PRELOAD for the command line programs", "source_commits": []},
 "checks": [{"property": p, "quick_cmd": f"bash run.sh {p} quick", "thorough_cmd": f"bash run.sh {p} thorough", "technique": f"{SIM}: {t}", "level": l, "level_note": NOTE.get(p, "Sampled, not exhaustive: a clean batch is evidence, not proof. Trusts the simulator, the reference runs in fresh processes and sequentially consistent execution.")} for p, (t, l) in checks.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in sorted(na.items())]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
