#!/usr/bin/env python3
"""witness.py SHIPPED_SRC OTHER_SRC GRAMMAR OUT SECONDS: texts on which two versions of the generated sources could differ.

Writes texts only; what they mean is decided by running both. Walks the product of the two pairs of parser tables
and of the two sets of scanner automata from their start states, and spells a way into every difference it meets."""
import json, random, re, sys, time
from collections import deque

ERR, DEF = 0x7FFF, 0x7FFE
STARTS = {"INITIAL": [""], "xb": ["b'"], "xc": ["/*"], "xd": ['"'], "xh": ["x'"], "xq": ["'"], "xqs": ["'a'"], "xe": ["e'"], "xdolq": ["$$", "$a$"], "xui": ['u&"'], "xus": ["u&'"], "xeu": ["e'\\ud83d"]}
SPELL = {"IDENT": "a", "SCONST": "'s'", "ICONST": "1", "FCONST": "1.5", "BCONST": "b'1'", "XCONST": "x'1'", "PARAM": "$1", "Op": "@@", "TYPECAST": "::", "COLON_EQUALS": ":=", "EQUALS_GREATER": "=>", "LESS_EQUALS": "<=", "GREATER_EQUALS": ">=", "NOT_EQUALS": "<>", "$end": ""}

def array(s, name):
    m = re.search(r"static %s: \[\w+; \d+\] = \[(.*?)\];" % name, s, re.S)
    return [int(x) for x in m.group(1).replace("\n", " ").split(",") if x.strip()]

class Tables:
    def __init__(self, path):
        s = open(path).read()
        self.ac, self.a, self.ai, self.ad = (array(s, n) for n in ("ACTION_CHECK_TABLE", "ACTION_TABLE", "ACTION_TABLE_INDEX", "ACTION_DEF_RULE_TABLE"))
        self.gc, self.g, self.gi = (array(s, n) for n in ("GOTO_CHECK_TABLE", "GOTO_TABLE", "GOTO_TABLE_INDEX"))
        self.rules = [(n, int(l)) for n, l in re.findall(r'Rule\s*\{\s*name:\s*"([^"]*)",\s*len:\s*(\d+),?\s*\}', s)]
        self.t = {}
        for m in re.finditer(r'TokenKind::(?:(KEYWORD|RAW)\(s\) if s == "([^"]*)"|(\w+)) => (\d+)', s):
            self.t.setdefault(m.group(2) or m.group(3), int(m.group(4)))
        for c in ("C_COMMENT", "SQL_COMMENT"):
            self.t.pop(c, None)
        body = s[s.index("fn rule_name_to_component_id"):]
        self.n = {a: int(b) for a, b in re.findall(r'"(\w+)" => (\d+)', body)}
        assert self.rules and self.t and self.n and "$end" in self.t
    def act(self, s, c):
        i = self.ai[s] + c
        if i >= len(self.ac) or self.ac[i] != c:
            return ERR
        v = self.a[i]
        return self.ad[s] if v == DEF else v
    def goto(self, s, c):
        i = self.gi[s] + c
        return self.g[i] if i < len(self.gc) and self.gc[i] == c else -1
    def norm(self, s, c):
        v = self.act(s, c)
        if v == ERR: return ("e",)
        if v > 0: return ("s", v - 1)
        if v < 0: return ("r",) + self.rules[-v - 1] + (-v - 1,)
        return ("a",)
    def step(self, stack, name, trace):
        """One token. True: shifted; None: accepted; False: error."""
        c = self.t.get(name)
        if c is None:
            return False
        for _ in range(100000):
            k = self.norm(stack[-1], c)
            if k[0] == "s":
                stack.append(k[1])
                return True
            if k[0] == "a": return None
            if k[0] == "e": return False
            if k[2]: del stack[-k[2]:]
            g = self.goto(stack[-1], self.n.get(k[1], 0))
            trace.append(k[1:3])
            if g < 0: return False
            stack.append(g)
        return False
    def run(self, toks):
        stack, trace = [0], []
        for i, t in enumerate(toks + ["$end"]):
            r = self.step(stack, t, trace)
            if r is None: return ("ok", tuple(trace))
            if r is False: return ("error", i)
        return ("ok", tuple(trace))

class Grammar:
    def __init__(self, path):
        self.kw, self.rules, self.by = {}, [], {}
        for l in open(path):
            p = l.rstrip("\n").split(" ")
            if p[0] == "K": self.kw[p[1]] = p[2]
            if p[0] == "R":
                self.by.setdefault(p[1], []).append(len(self.rules))
                self.rules.append((p[1], [x for x in p[2:] if x]))
        for a, b in (("FORMAT_LA", "format"), ("NOT_LA", "not"), ("NULLS_LA", "nulls"), ("WITH_LA", "with"), ("WITHOUT_LA", "without")):
            self.kw[a] = b
        INF = 10 ** 9
        self.cost = {n: INF for n in self.by}
        self.best = {}
        ch = True
        while ch:
            ch = False
            for i, (n, r) in enumerate(self.rules):
                c = sum(self.cost.get(x, INF if x.startswith("MODE_") else 1) for x in r) + 0
                if c < self.cost[n]:
                    self.cost[n], self.best[n], ch = c, i, True
        self.clo = {}
    def length(self, r):
        return sum(self.cost.get(x, 1) for x in r)
    def expand(self, x, out):
        if x in self.by:
            if self.cost[x] >= 10 ** 9: return False
            return all(self.expand(y, out) for y in self.rules[self.best[x]][1])
        if x.startswith("MODE_"): return False
        out.append(x.strip("'"))
        return True
    def closure(self, kernel):
        seen, todo = set(kernel), list(kernel)
        while todo:
            i, d = todo.pop()
            r = self.rules[i][1]
            if d < len(r):
                for j in self.by.get(r[d], ()):
                    if (j, 0) not in seen:
                        seen.add((j, 0)); todo.append((j, 0))
        return seen
    def spell(self, t):
        return self.kw.get(t) or SPELL.get(t, t)
    def text(self, toks):
        return " ".join(self.spell(t) for t in toks if t != "$end")

def sym(t):  # table name to grammar name of a terminal
    return t if re.fullmatch(r"\w+", t) else "'%s'" % t

def parser_docs(a, b, g, until, rng, stats):
    docs = []
    terms = [t for t in a.t if t in b.t]
    for t in set(a.t) ^ set(b.t):
        docs.append("select " + g.spell(t)); docs.append(g.spell(t)); docs.append("select 1 as " + g.spell(t)); docs.append("select " + g.spell(t) + " (1)")
    nts = [n for n in a.n if n in b.n]
    start = (0, 0)
    order, pred, depth = deque([start]), {start: []}, {start: 0}
    diffs = []
    while order:
        p = order.popleft()
        s, t = p
        for x in terms:
            u, v = a.norm(s, a.t[x]), b.norm(t, b.t[x])
            if u[0] == "s" and v[0] == "s":
                q = (u[1], v[1])
            else:
                if u[:3] != v[:3]: diffs.append((p, x, u, v))
                continue
            if q not in pred:
                pred[q], depth[q] = [], depth[p] + 1
                order.append(q)
            pred[q].append((p, x))
        for x in nts:
            u, v = a.goto(s, a.n[x]), b.goto(t, b.n[x])
            if u >= 0 and v >= 0:
                q = (u, v)
                if q not in pred:
                    pred[q], depth[q] = [], depth[p] + 1
                    order.append(q)
                pred[q].append((p, x))
            elif (u >= 0) != (v >= 0):
                diffs.append((p, x, ("g", u), ("g", v)))
        if len(pred) > 200000 or time.time() > until: break
    stats["state_pairs"], stats["differing_cells"] = len(pred), len(diffs)
    # item kernels of the first table's states, by the path they were met on
    kern = {0: frozenset((i, 0) for i in g.by.get("parse_toplevel", ()))}
    clo = {}
    def closure(s):
        if s not in clo: clo[s] = g.closure(kern[s])
        return clo[s]
    def kernels():
        todo = deque([0])
        while todo:
            s = todo.popleft()
            nxt = {}
            for i, d in closure(s):
                r = g.rules[i][1]
                if d < len(r): nxt.setdefault(r[d], set()).add((i, d + 1))
            for x, k in nxt.items():
                n = x.strip("'")
                if x in a.n: q = a.goto(s, a.n[x])
                elif n in a.t:
                    v = a.act(s, a.t[n]); q = v - 1 if 0 < v < DEF else -1
                else: q = -1
                if q >= 0 and q not in kern:
                    kern[q] = frozenset(k); todo.append(q)
    def complete(stack):
        out, stack = [], list(stack)
        for _ in range(400):
            k = [x for x in kern.get(stack[-1], ())]
            if not k: return None
            best = min(g.length(g.rules[i][1][d:]) for i, d in k)
            i, d = rng.choice(sorted(x for x in k if g.length(g.rules[x[0]][1][x[1]:]) <= best + (rng.random() < 0.2)))
            n, r = g.rules[i]
            for x in r[d:]:
                if not g.expand(x, out): return None
            if n == "parse_toplevel": return out
            if d: del stack[-d:]
            q = a.goto(stack[-1], a.n.get(n, 0))
            if q < 0: return None
            stack.append(q)
        return None
    def path(p, loose):
        syms = []
        for _ in range(60):
            if p == start: return syms[::-1]
            e = pred[p]
            if loose:
                m = min(depth[q] for q, _ in e)
                e = [x for x in e if depth[x[0]] <= m + 3]
                q, x = rng.choice(e)
            else:
                q, x = min(e, key=lambda z: depth[z[0]])
            syms.append(x); p = q
        return None
    if diffs: kernels()
    rng.shuffle(diffs)
    found = 0
    for p, x, u, v in diffs:
        if time.time() > until or found >= 3000: break
        hit = 0
        for k in range(40):
            ss = path(p, k > 0)
            if ss is None: continue
            toks = []
            if not all(g.expand(y if y in g.by else sym(y), toks) for y in ss): continue
            if x in a.n:
                if not g.expand(x, toks): continue
                more = [[]]
            else:
                more = [[x]] if x != "$end" else [[]]
            for m in more:
                base = toks + m
                cand = [base]
                for tb in (a, b):
                    st, ok = [0], True
                    for t in base:
                        ok = tb.step(st, t, [])
                        if ok is not True: break
                    if ok is True and tb is a:
                        for _ in range(3):
                            c = complete(st)
                            if c is not None: cand.append(base + c)
                    elif ok is True:
                        # the other table's states are numbered in its own way; go on with what often follows
                        for c in ([";"], ["a"], [")"], ["1"], ["a", ")"]): cand.append(base + c)
                for c in cand:
                    if a.run(c) != b.run(c):
                        docs.append(g.text(c)); hit += 1
                if hit >= 3: break
            if hit >= 3: break
        if hit: found += 1
    stats["cells_with_a_text"] = found
    return docs

def automata(path):
    s = open(path).read()
    names = re.search(r"pub enum State \{(.*?)\}", s, re.S).group(1)
    names = [x.strip() for x in names.split(",") if x.strip()]
    out = {}
    for i, n in enumerate(names):
        m = re.search(r"TRANSITION_TABLE_%d: [^=]*= \[(.*?)\n    \];" % i, s, re.S)
        k = re.search(r"ACCEPT_TABLE_%d: [^=]*=\s*\[(.*?)\];" % i, s, re.S)
        v = [int(x) for x in re.findall(r"\d+", m.group(1))]
        rows = [v[j:j + 256] for j in range(0, len(v), 256)]
        out[n] = (rows, [int(x) for x in re.findall(r"\d+", k.group(1))])
    return out

def scanner_docs(a, b, stats):
    docs, nd = [], 0
    tails = ["", " ", "a", "'", "\"", "*/", "$$", "$a$", "1", "\n'x'", " 1 as b"]
    prefer = list(range(97, 123)) + list(range(32, 97)) + list(range(123, 127)) + [9, 10, 13, 11, 12] + list(range(128, 256)) + list(range(1, 9)) + list(range(14, 32)) + [127, 0]
    def add(name, w):
        for fix in (b"", b"\xa9", b"\x80\x80", b"\xa9\xa9\xa9"):
            try:
                x = (w + fix).decode()
                break
            except UnicodeDecodeError:
                continue
        else: return
        for p in STARTS.get(name, [""]):
            for t in tails:
                docs.append("select " + p + x + t); docs.append(p + x + t)
    for name in a:
        if name not in b: continue
        (ta, ka), (tb, kb) = a[name], b[name]
        seen, todo, plain = {(0, 0): b""}, deque([(0, 0)]), {0}
        while todo:
            s, t = todo.popleft()
            w = seen[(s, t)]
            if ka[s] != kb[t]: nd += 1; add(name, w)
            for c in prefer:
                u, v = ta[s][c], tb[t][c]
                if u == 255 and v == 255: continue
                if u == 255 or v == 255:
                    nd += 1
                    if nd < 3000: add(name, w + bytes([c]))
                    # which of them still goes on may only show further in
                    tt, kk, z = (tb, kb, v) if u == 255 else (ta, ka, u)
                    ext, q, vis = w + bytes([c]), deque([(z, w + bytes([c]))]), {z}
                    while q:
                        z, e = q.popleft()
                        if kk[z] != 255: ext = e; break
                        for d in prefer:
                            y = tt[z][d]
                            if y != 255 and y not in vis: vis.add(y); q.append((y, e + bytes([d])))
                    if nd < 3000: add(name, ext)
                    continue
                if (u, v) not in seen:
                    seen[(u, v)] = w + bytes([c]); todo.append((u, v))
                    if u not in plain: plain.add(u); add(name, w + bytes([c]))
    stats["scanner_differences"] = nd
    return docs

def main():
    one, two, gram, out, secs = sys.argv[1:6]
    until = time.time() + float(secs)
    rng = random.Random(int(sys.argv[6]) if len(sys.argv) > 6 else 1)
    g = Grammar(gram)
    stats, docs = {}, []
    try:
        docs += scanner_docs(automata(one + "/lexer/generated.rs"), automata(two + "/lexer/generated.rs"), stats)
    except Exception as e:  # other names or another layout: the random texts have to do
        stats["scanner_tables_not_read"] = repr(e)
    try:
        if open(one + "/parser.rs").read() != open(two + "/parser.rs").read():
            docs += parser_docs(Tables(one + "/parser.rs"), Tables(two + "/parser.rs"), g, until, rng, stats)
    except Exception as e:
        stats["parser_tables_not_read"] = repr(e)
    # every keyword, and every word either side knows
    words = set(g.kw.values())
    for p in (one, two):
        try: words |= set(re.findall(r'\("(\w+)", "\w+"\)', open(p + "/lexer/generated.rs").read()))
        except Exception: pass
    for w in sorted(words):
        docs += ["select 1 as " + w, "select 1 " + w, "select " + w, "create table " + w + " (a int)", "select " + w + "(1)", w, "create function " + w + "() returns int as 'x'", "select a::" + w]
    docs = list(dict.fromkeys(d for d in docs if "\0" not in d))
    json.dump({"docs": docs, "stats": stats}, open(out, "w"))
    print(len(docs), stats)
main()
