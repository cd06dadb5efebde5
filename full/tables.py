#!/usr/bin/env python3
"""tables.py CACHE OUT [plain]: the reference parser of C20 and C21, from the repository's grammar and key word list. plain: without ways.

bison reads gram.y and decides its tables (LALR(1), precedences as declared); they are written to OUT as lines
`name values...`. CACHE holds the tables for the grammar that was current when this was written; bison runs only for another one."""
import hashlib, os, re, shutil, subprocess, sys, tempfile
cache, out = sys.argv[1:3]
R = "/repo/crates/"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
gram = open(R + "parser-generator/resources/gram.y", "rb").read()
sha = hashlib.sha256(gram).hexdigest()

def from_bison():
    d = tempfile.mkdtemp()
    try:
        open(d + "/gram.y", "wb").write(gram)
        r = subprocess.run(["bison", "-Wnone", "-o", d + "/g.c", d + "/gram.y"], capture_output=True, text=True, timeout=300)
        if r.returncode:
            sys.exit("bison does not read the grammar: " + r.stderr[-500:])
        c = open(d + "/g.c", encoding="latin-1").read()
    finally:
        shutil.rmtree(d)
    v = ["sha " + sha]
    for n in ("YYFINAL", "YYLAST", "YYNTOKENS"):
        v.append(f"{n} {re.search(r'#define ' + n + r' +(-?[0-9]+)', c)[1]}")
    for n in ("YYPACT_NINF", "YYTABLE_NINF"):
        v.append(f"{n} {re.search(r'#define ' + n + r' \((-?[0-9]+)\)', c)[1]}")
    for n in ("yypact", "yydefact", "yypgoto", "yydefgoto", "yytable", "yycheck", "yyr1", "yyr2"):
        body = re.search(r"static const \w+ " + n + r"\[\] =\s*\{(.*?)\};", c, re.S)[1]
        v.append(n + " " + " ".join(re.findall(r"-?[0-9]+", body)))
    body = re.search(r"\byytname\[\] =\s*\{(.*?)\};", c, re.S)[1]
    names = [re.sub(r"\\(.)", r"\1", x).replace(" ", "_") for x in re.findall(r'"((?:[^"\\]|\\.)*)"', body)]
    v.append("yytname " + " ".join(names))
    return "\n".join(v) + "\n"

t = open(cache).read() if os.path.exists(cache) else ""
if not t.startswith("sha " + sha + "\n"):
    t = from_bison()

def yields(t):
    """Short texts of the nonterminals (of a snapshot of the rules: workload, not judgement), for ways.c."""
    names = next(l for l in t.split("\n") if l.startswith("yytname ")).split(" ")[1:]
    num = {n.strip("'"): i for i, n in enumerate(names)}
    rules, best = {}, {}
    for l in open(V + "/sim/data/grammar.txt", encoding="utf-8"):
        p = l.split()
        if p and p[0] == "R":
            rules.setdefault(p[1], []).append(p[2:])
    def text(r):
        v = []
        for s in r:
            if s in rules:
                if s not in best:
                    return None
                v += best[s]
            else:
                v.append(s)
        return None if any(s.startswith("MODE_") for s in v) else v
    more = True
    while more:
        more = False
        for n, rs in rules.items():
            for r in rs:
                x = text(r)
                if x is not None and (n not in best or len(x) < len(best[n])):
                    best[n] = x
                    more = True
    ys = {}
    for n, rs in rules.items():
        for r in rs:
            x = text(r)
            if x is not None and n in num and all(s in num for s in x):
                ys.setdefault((len(x), tuple(num[s] for s in x)), set()).add(num[n])
    return "".join("yield " + " ".join(map(str, sorted(ns))) + " :" + "".join(f" {i}" for i in x) + "\n" for (_, x), ns in sorted(ys.items()))

if "plain" not in sys.argv[3:]:
    d = tempfile.mkdtemp()
    try:
        open(d + "/in", "w").write(t + yields(t))
        subprocess.run(["gcc", "-O2", "-o", d + "/ways", V + "/full/ways.c"], check=True)
        subprocess.run([d + "/ways", d + "/in", d + "/out"], check=True, timeout=300)
        t += open(d + "/out").read()
    finally:
        shutil.rmtree(d)
kw = open(R + "lexer-generator/resources/kwlist.h", encoding="utf-8").read()
kw = re.sub(r"/\*.*?\*/", "", kw, flags=re.S)
for w, k in re.findall(r'^\s*PG_KEYWORD\(\s*"(\w+)"\s*,\s*(\w+)', kw, re.M):
    t += f"kw {w} {k}\n"
open(out, "w").write(t)
