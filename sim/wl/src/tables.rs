//! The reference parser of C20 and the walks through its automaton.
use crate::rng::Rng;
use crate::scan::{scan, Kind, Lexeme, Stop};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};

/// Joins the tokens of a stream.
pub const SEP: char = '\u{1e}';

/// bison's tables, as in the parsers it writes.
pub struct Tables {
    fin: i32,
    last: i32,
    pub ntok: i32,
    pact_ninf: i32,
    table_ninf: i32,
    pact: Vec<i32>,
    defact: Vec<i32>,
    pgoto: Vec<i32>,
    defgoto: Vec<i32>,
    table: Vec<i32>,
    check: Vec<i32>,
    r1: Vec<i32>,
    r2: Vec<i32>,
    pub names: Vec<String>,
    /// terminal by name
    term: HashMap<String, i32>,
    /// key word to terminal, and back
    kw: BTreeMap<String, i32>,
    word: BTreeMap<i32, String>,
    /// how often a state has seen a terminal on the walks (bounded)
    seen: RefCell<HashMap<(i32, i32), u32>>,
    /// a way into every state, and the terminals read there that show entries not shown before: this stream's share
    ways: Vec<Vec<i32>>,
    targets: Vec<(u32, i32)>,
    mine: Vec<(u32, i32)>,
    next: Cell<usize>,
    dealt: bool,
}
/// What the references say becomes of a text.
pub enum Fate {
    /// every leaf: kind, start, end
    Leaves(Vec<(String, usize, usize)>),
    /// a syntax error at a token
    Syntax(usize),
    /// the scanner's complaint
    Scan(&'static str, Option<usize>),
}
pub enum Act {
    Shift(i32),
    Reduce(usize),
    Accept,
    Error,
}
/// A node or token of the reference derivation: symbol, children (empty: a token or an empty node), index of the token.
struct Ref {
    sym: i32,
    kids: Vec<u32>,
    tok: Option<u32>,
}
impl Tables {
    pub fn load(path: &str) -> Option<Tables> {
        let s = std::fs::read_to_string(path).ok()?;
        let mut m: HashMap<&str, Vec<&str>> = HashMap::new();
        let mut kws = vec![];
        let mut ways: Vec<Vec<i32>> = vec![];
        let mut targets = vec![];
        for l in s.lines() {
            let mut i = l.split(' ');
            let k = i.next()?;
            if k == "way" {
                ways.push(i.filter_map(|x| x.parse().ok()).collect());
            } else if k == "new" {
                targets.extend(i.filter_map(|x| Some((ways.len() as u32 - 1, x.parse().ok()?))));
            } else if k == "kw" {
                kws.push((i.next()?.to_string(), i.next()?.to_string()));
            } else {
                m.insert(k, i.collect());
            }
        }
        let v = |k: &str| -> Option<Vec<i32>> { m.get(k)?.iter().map(|x| x.parse().ok()).collect() };
        let one = |k: &str| -> Option<i32> { v(k)?.first().copied() };
        let names: Vec<String> = m.get("yytname")?.iter().map(|x| x.to_string()).collect();
        let ntok = one("YYNTOKENS")?;
        let term: HashMap<String, i32> = names.iter().take(ntok as usize).enumerate().map(|(i, n)| (n.trim_matches('\'').to_string(), i as i32)).collect();
        let kw: BTreeMap<String, i32> = kws.iter().filter_map(|(w, k)| Some((w.clone(), *term.get(k)?))).collect();
        let word = kw.iter().map(|(w, k)| (*k, w.clone())).collect();
        Some(Tables {
            fin: one("YYFINAL")?,
            last: one("YYLAST")?,
            ntok,
            pact_ninf: one("YYPACT_NINF")?,
            table_ninf: one("YYTABLE_NINF")?,
            pact: v("yypact")?,
            defact: v("yydefact")?,
            pgoto: v("yypgoto")?,
            defgoto: v("yydefgoto")?,
            table: v("yytable")?,
            check: v("yycheck")?,
            r1: v("yyr1")?,
            r2: v("yyr2")?,
            names,
            term,
            kw,
            word,
            seen: RefCell::default(),
            ways,
            targets,
            mine: vec![],
            next: Cell::new(0),
            dealt: false,
        })
    }
    pub fn default(&self, state: i32) -> Act {
        match self.defact[state as usize] {
            0 => Act::Error,
            r => Act::Reduce(r as usize),
        }
    }
    pub fn act(&self, state: i32, t: i32) -> Act {
        if state == self.fin {
            return Act::Accept;
        }
        let n = self.pact[state as usize];
        if n == self.pact_ninf {
            return self.default(state);
        }
        let n = n + t;
        if n < 0 || n > self.last || self.check[n as usize] != t {
            return self.default(state);
        }
        match self.table[n as usize] {
            x if x > 0 => Act::Shift(x),
            x if x == self.table_ninf || x == 0 => Act::Error,
            x => Act::Reduce(-x as usize),
        }
    }
    pub fn goto(&self, state: i32, lhs: i32) -> i32 {
        let l = (lhs - self.ntok) as usize;
        let n = self.pgoto[l] + state;
        if n >= 0 && n <= self.last && self.check[n as usize] == state {
            self.table[n as usize]
        } else {
            self.defgoto[l]
        }
    }
    /// The states after `t` is shifted, or None if it is an error here. `t` 0 is the end.
    pub fn step(&self, stack: &mut Vec<i32>, t: i32) -> bool {
        loop {
            match self.act(*stack.last().unwrap(), t) {
                Act::Shift(s) => {
                    stack.push(s);
                    return true;
                }
                Act::Reduce(r) => {
                    stack.truncate(stack.len() - self.r2[r] as usize);
                    let s = self.goto(*stack.last().unwrap(), self.r1[r]);
                    stack.push(s);
                }
                Act::Accept => return true,
                Act::Error => return false,
            }
        }
    }
    pub fn viable(&self, stack: &[i32], t: i32) -> bool {
        self.shifts_in(stack, t).is_some()
    }
    /// The state in which `t` is shifted, after reductions.
    pub fn shifts_in(&self, stack: &[i32], t: i32) -> Option<i32> {
        // only what is above the point the reductions reach down to changes
        let mut base = stack.len();
        let mut top: Vec<i32> = vec![];
        loop {
            let state = top.last().copied().unwrap_or_else(|| stack[base - 1]);
            match self.act(state, t) {
                Act::Shift(_) | Act::Accept => return Some(state),
                Act::Error => return None,
                Act::Reduce(r) => {
                    let n = self.r2[r] as usize;
                    let k = n.min(top.len());
                    top.truncate(top.len() - k);
                    base -= n - k;
                    let s = self.goto(top.last().copied().unwrap_or_else(|| stack[base - 1]), self.r1[r]);
                    top.push(s);
                }
            }
        }
    }
    /// The derivation in preorder (depth, symbol, token), without nodes that hold no token; or the token at fault (one past the last: the end).
    pub fn parse(&self, toks: &[i32]) -> Result<Vec<(u32, i32, Option<u32>)>, usize> {
        let mut stack = vec![0];
        let mut arena: Vec<Ref> = vec![];
        let mut vals: Vec<u32> = vec![];
        let mut i = 0;
        loop {
            let t = toks.get(i).copied().unwrap_or(0);
            match self.act(*stack.last().unwrap(), t) {
                Act::Shift(s) => {
                    stack.push(s);
                    vals.push(arena.len() as u32);
                    arena.push(Ref { sym: t, kids: vec![], tok: Some(i as u32) });
                    i += 1;
                }
                Act::Reduce(r) => {
                    let n = self.r2[r] as usize;
                    let kids = vals.split_off(vals.len() - n);
                    stack.truncate(stack.len() - n);
                    vals.push(arena.len() as u32);
                    arena.push(Ref { sym: self.r1[r], kids, tok: None });
                    let s = self.goto(*stack.last().unwrap(), self.r1[r]);
                    stack.push(s);
                }
                Act::Accept => break,
                Act::Error => return Err(i),
            }
        }
        let mut holds = vec![false; arena.len()];
        for (i, n) in arena.iter().enumerate() {
            holds[i] = n.tok.is_some_and(|t| t < toks.len() as u32) || n.kids.iter().any(|k| holds[*k as usize]);
        }
        let mut out = vec![];
        let mut todo: Vec<(u32, u32)> = vals.iter().rev().map(|v| (1, *v)).collect();
        while let Some((d, i)) = todo.pop() {
            let n = &arena[i as usize];
            if !holds[i as usize] {
                continue;
            }
            out.push((d, n.sym, n.tok));
            todo.extend(n.kids.iter().rev().map(|k| (d + 1, *k)));
        }
        Ok(out)
    }
    /// The terminal a text is, standing between blanks. None: not judged here.
    pub fn classify(&self, s: &str) -> Option<i32> {
        let t = |n: &str| self.term.get(n).copied();
        let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
        let quoted = |q: char, s: &str| s.strip_prefix(q).and_then(|s| s.strip_suffix(q)).is_some_and(|s| !s.replace(&format!("{q}{q}"), "").contains(q));
        if s.contains(['\0', SEP]) {
            return None;
        }
        let c = s.chars().next()?;
        if c.is_ascii_alphabetic() || c == '_' || !c.is_ascii() && c.is_alphabetic() {
            if !s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '$' || !c.is_ascii()) {
                if matches!(c, 'b' | 'B') && quoted('\'', &s[1..]) && s[2..s.len() - 1].bytes().all(|b| b == b'0' || b == b'1') {
                    return t("BCONST");
                }
                if matches!(c, 'x' | 'X') && quoted('\'', &s[1..]) && s[2..s.len() - 1].bytes().all(|b| b.is_ascii_hexdigit()) {
                    return t("XCONST");
                }
                if matches!(c, 'e' | 'E') && quoted('\'', &s[1..]) && !s.contains('\\') {
                    return t("SCONST");
                }
                return None;
            }
            return match self.kw.get(&s.to_ascii_lowercase()) {
                Some(k) => Some(*k),
                None => t("IDENT"),
            };
        }
        match c {
            '"' => (quoted('"', s) && s.len() > 2).then(|| t("IDENT")).flatten(),
            '\'' => quoted('\'', s).then(|| t("SCONST")).flatten(),
            '$' => {
                if digits(&s[1..]) && s[1..].parse::<i32>().is_ok() {
                    return t("PARAM");
                }
                (s.len() >= 4 && s.starts_with("$$") && s.ends_with("$$") && !s[2..s.len() - 2].contains('$')).then(|| t("SCONST")).flatten()
            }
            '0'..='9' | '.' if s.bytes().any(|b| b.is_ascii_digit()) => {
                if digits(s) {
                    return if s.parse::<i32>().is_ok() { t("ICONST") } else { t("FCONST") };
                }
                let (m, e) = s.split_once(['e', 'E']).map_or((s, None), |(m, e)| (m, Some(e)));
                let mantissa = digits(m) || m.split_once('.').is_some_and(|(a, b)| (digits(a) || a.is_empty()) && (digits(b) || b.is_empty()) && a.len() + b.len() > 0);
                (mantissa && e.map_or(true, |e| digits(e.strip_prefix(['+', '-']).unwrap_or(e)))).then(|| t("FCONST")).flatten()
            }
            _ => match s {
                "::" => t("TYPECAST"),
                ".." => t("DOT_DOT"),
                ":=" => t("COLON_EQUALS"),
                "=>" => t("EQUALS_GREATER"),
                "<=" => t("LESS_EQUALS"),
                ">=" => t("GREATER_EQUALS"),
                "<>" | "!=" => t("NOT_EQUALS"),
                _ if s.len() == 1 && ",()[].;:+-*/%^<>=".contains(s) => t(s),
                _ if s.len() < 60 && s.chars().all(|c| "~!@#^&|`?+-*/%<>=".contains(c)) && !s.contains("--") && !s.contains("/*") && !(s.len() > 1 && s.ends_with(['+', '-'])) => t("Op"),
                _ => None,
            },
        }
    }
    /// The terminals of a token sequence, with what look-ahead makes of NOT, NULLS, WITH, WITHOUT and FORMAT.
    pub fn terminals(&self, toks: &[&str]) -> Option<Vec<i32>> {
        let mut v: Vec<i32> = toks.iter().map(|t| self.classify(t)).collect::<Option<_>>()?;
        self.look_ahead(&mut v);
        Some(v)
    }
    fn look_ahead(&self, v: &mut [i32]) {
        let n = |s: &str| self.term.get(s).copied().unwrap_or(-1);
        for i in 0..v.len().saturating_sub(1) {
            for (word, next, la) in [
                ("FORMAT", &["JSON"][..], "FORMAT_LA"),
                ("NOT", &["BETWEEN", "IN_P", "LIKE", "ILIKE", "SIMILAR"][..], "NOT_LA"),
                ("NULLS_P", &["FIRST_P", "LAST_P"][..], "NULLS_LA"),
                ("WITH", &["TIME", "ORDINALITY"][..], "WITH_LA"),
                ("WITHOUT", &["TIME"][..], "WITHOUT_LA"),
            ] {
                if v[i] == n(word) && next.iter().any(|x| n(x) == v[i + 1]) {
                    v[i] = n(la);
                    break;
                }
            }
        }
    }
    /// The name of a scanned token in the grammar. None: the grammar has none.
    fn term_of(&self, text: &str, x: &Lexeme) -> Option<i32> {
        let w = &text[x.start..x.end];
        let t = |n: &str| self.term.get(n).copied();
        match x.kind {
            Kind::Word => self.kw.get(&w.to_ascii_lowercase()).copied().or_else(|| t("IDENT")),
            Kind::Nchar => t("NCHAR"),
            Kind::Quoted => t("IDENT"),
            Kind::Str => t("SCONST"),
            Kind::Bit => t("BCONST"),
            Kind::Hex => t("XCONST"),
            Kind::Int => t("ICONST"),
            Kind::Float => t("FCONST"),
            Kind::Param => t("PARAM"),
            Kind::Op => t("Op"),
            Kind::Typecast => t("TYPECAST"),
            Kind::DotDot => t("DOT_DOT"),
            Kind::ColonEquals => t("COLON_EQUALS"),
            Kind::EqualsGreater => t("EQUALS_GREATER"),
            Kind::LessEquals => t("LESS_EQUALS"),
            Kind::GreaterEquals => t("GREATER_EQUALS"),
            Kind::NotEquals => t("NOT_EQUALS"),
            Kind::Char => t(w),
            Kind::Other | Kind::Unicode | Kind::Block | Kind::Line => None,
        }
    }
    /// What becomes of a text.
    pub fn text(&self, text: &str) -> Result<Fate, &'static str> {
        let all = match scan(text) {
            Ok(v) => v,
            Err(Stop::Unjudged(w)) => return Err(w),
            Err(Stop::Error(m, at)) => return Ok(Fate::Scan(m, at)),
        };
        let real: Vec<Lexeme> = all.iter().filter(|x| !matches!(x.kind, Kind::Block | Kind::Line)).copied().collect();
        let mut v = vec![];
        let (mut alien, mut unsure) = (None, false);
        for x in &real {
            match self.term_of(text, x) {
                Some(t) => v.push(t),
                None => {
                    alien = Some(x.start);
                    unsure = x.kind == Kind::Unicode;
                    break;
                }
            }
        }
        self.look_ahead(&mut v);
        let end = alien.unwrap_or(text.len());
        match self.parse(&v) {
            Err(i) if i < v.len() => return Ok(Fate::Syntax(real[i].start)),
            _ if unsure => return Err("U&"),
            Err(_) => return Ok(Fate::Syntax(end)),
            Ok(_) if alien.is_some() => return Ok(Fate::Syntax(end)),
            Ok(_) => {}
        }
        let mut leaves = vec![];
        let (mut pos, mut k) = (0, 0);
        for x in &all {
            if pos < x.start {
                leaves.push(("Whitespace".to_string(), pos, x.start));
            }
            pos = x.end;
            leaves.push((
                match x.kind {
                    Kind::Block => "C_COMMENT".into(),
                    Kind::Line => "SQL_COMMENT".into(),
                    _ => {
                        k += 1;
                        self.names[v[k - 1] as usize].clone()
                    }
                },
                x.start,
                x.end,
            ));
        }
        if pos < text.len() {
            leaves.push(("Whitespace".into(), pos, text.len()));
        }
        Ok(Fate::Leaves(leaves))
    }
    pub fn seen(&self) -> u64 {
        self.seen.borrow().len() as u64
    }
    pub fn start(&mut self, seed: u64, s: u64, n: u64) {
        self.seen.borrow_mut().clear();
        if !self.dealt {
            self.dealt = true;
            // a deal of the targets to the streams
            let mut r = Rng::of(seed, &[20, 7]);
            for i in (1..self.targets.len()).rev() {
                self.targets.swap(i, r.below(i + 1));
            }
        }
        self.mine = self.targets.iter().enumerate().filter(|(i, _)| *i as u64 % n == s).map(|(_, t)| *t).collect();
        self.next.set(0);
    }
    /// The next target of this stream, as terminals, and then home.
    pub fn target(&self, r: &mut Rng) -> Option<(Vec<String>, bool)> {
        let i = self.next.get();
        self.next.set(i + 1);
        if self.mine.is_empty() {
            return None;
        }
        let (w, t) = self.mine[i % self.mine.len()];
        let mut way = self.ways[w as usize].clone();
        if t != 0 {
            way.push(t);
        }
        let mut stack = vec![0];
        for t in &way {
            self.step(&mut stack, *t);
        }
        let mut out: Vec<String> = way.iter().map(|t| self.spell(r, *t)).collect::<Option<_>>()?;
        let n = *r.pick(&[0usize, 0, 0, 1, 3]);
        let rest = if t == 0 { vec![] } else { self.walk_from(r, stack.clone(), n, true, 60) };
        out.extend(rest);
        let names: Vec<&str> = out.iter().map(|s| s.as_str()).collect();
        let home = self.terminals(&names).is_some_and(|v| self.parse(&v).is_ok());
        Some((out, home))
    }
    pub fn spell(&self, r: &mut Rng, t: i32) -> Option<String> {
        if let Some(w) = self.word.get(&t) {
            return Some(match r.below(4) {
                0 => w.to_ascii_uppercase(),
                1 => w.chars().map(|c| if r.pm(500) { c.to_ascii_uppercase() } else { c }).collect(),
                _ => w.clone(),
            });
        }
        Some(match self.names[t as usize].trim_matches('\'') {
            "IDENT" => r.pick(&["a", "b", "tbl", "\"q\"", "x_1", "é", "\"select\""]).to_string(),
            "ICONST" => r.pick(&["0", "1", "42", "2147483647"]).to_string(),
            "FCONST" => r.pick(&["1.5", ".5", "1e10", "2147483648", "1."]).to_string(),
            "SCONST" => r.pick(&["'a'", "''", "'it''s'", "$$x$$", "E'q'"]).to_string(),
            "BCONST" => "b'01'".into(),
            "XCONST" => "X'1f'".into(),
            "PARAM" => r.pick(&["$1", "$2"]).to_string(),
            "Op" => r.pick(&["||", "~", "@>", "!~*", "&&", "#-?", "|/"]).to_string(),
            "TYPECAST" => "::".into(),
            "DOT_DOT" => "..".into(),
            "COLON_EQUALS" => ":=".into(),
            "EQUALS_GREATER" => "=>".into(),
            "LESS_EQUALS" => "<=".into(),
            "GREATER_EQUALS" => ">=".into(),
            "NOT_EQUALS" => r.pick(&["<>", "!="]).to_string(),
            "NOT_LA" => "not".into(),
            "NULLS_LA" => "nulls".into(),
            "WITH_LA" => "with".into(),
            "WITHOUT_LA" => "without".into(),
            "FORMAT_LA" => "format".into(),
            s if s.len() == 1 => s.into(),
            _ => return None,
        })
    }
    /// A walk through the automaton towards what has been seen least, from a prefix on; then, mostly, home.
    pub fn walk(&self, r: &mut Rng, prefix: &[&str], n: usize) -> Vec<String> {
        let mut stack = vec![0];
        let mut out: Vec<String> = vec![];
        if let Some(v) = self.terminals(prefix) {
            for (t, s) in v.iter().zip(prefix) {
                if !self.step(&mut stack, *t) {
                    break;
                }
                out.push(s.to_string());
            }
        }
        let home = r.pm(750);
        out.extend(self.walk_from(r, stack, n, home, 40));
        out
    }
    pub fn walk_from(&self, r: &mut Rng, mut stack: Vec<i32>, n: usize, home: bool, mut rest: usize) -> Vec<String> {
        let mut out = vec![];
        let by_shift = r.pm(500); // what is counted: where a terminal is read, or where it is first looked at
        let mut left = n;
        let mut seen = self.seen.borrow_mut();
        loop {
            let state = *stack.last().unwrap();
            if left == 0 && (!home || rest == 0 || self.viable(&stack, 0)) {
                return out;
            }
            let mut best: Option<(u64, i32, Vec<i32>)> = None;
            for t in 1..self.ntok {
                let Some(at) = self.shifts_in(&stack, t) else { continue };
                if t <= 2 {
                    continue;
                }
                let state = if by_shift { -1 - at } else { state };
                if left > 0 {
                    let cost = (*seen.get(&(state, t)).unwrap_or(&0) as u64) << 32 | r.u64() >> 33;
                    if best.as_ref().map_or(true, |b| cost < b.0) {
                        best = Some((cost, t, vec![]));
                    }
                } else {
                    // home: what leaves the least on the stack, and can end
                    let mut s = stack.clone();
                    self.step(&mut s, t);
                    let cost = ((!self.viable(&s, 0)) as u64 * 1000 + s.len() as u64 * 10 + r.below(12) as u64) << 8;
                    if best.as_ref().map_or(true, |b| cost < b.0) {
                        best = Some((cost, t, s));
                    }
                }
            }
            let Some((_, t, _)) = best else { return out };
            if left > 0 {
                let state = if by_shift { -1 - self.shifts_in(&stack, t).unwrap_or(0) } else { state };
                if seen.len() < 3_000_000 {
                    *seen.entry((state, t)).or_default() += 1;
                }
                left -= 1;
            } else {
                rest -= 1;
            }
            let Some(s) = self.spell(r, t) else { return out };
            out.push(s);
            self.step(&mut stack, t);
        }
    }
}
