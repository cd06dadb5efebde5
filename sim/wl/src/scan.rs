//! The reference scanner of C21: PostgreSQL's rules for where tokens begin and end, written out by hand.
//! Comments are tokens (the parser keeps them), so a comment between two quoted strings separates them.

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// a name or a key word
    Word,
    /// the n of n'...'
    Nchar,
    Quoted,
    Str,
    Bit,
    Hex,
    Int,
    Float,
    Param,
    Op,
    Typecast,
    DotDot,
    ColonEquals,
    EqualsGreater,
    LessEquals,
    GreaterEquals,
    NotEquals,
    Char,
    /// a name or string with Unicode escapes: what the parser makes of one is not judged
    Unicode,
    /// what belongs to no token of the grammar
    Other,
    Block,
    Line,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Lexeme {
    pub kind: Kind,
    pub start: usize,
    pub end: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// the scanner's complaint, and where, if it says where
    Error(&'static str, Option<usize>),
    /// not judged: what this scanner leaves out
    Unjudged(&'static str),
}

fn space(b: u8) -> bool {
    matches!(b, b' ' | b'\t' | b'\n' | b'\r' | 0x0b | 0x0c)
}
fn line_end(b: u8) -> bool {
    matches!(b, b'\n' | b'\r')
}
fn name_start(b: u8) -> bool {
    b.is_ascii_alphabetic() || b == b'_' || b >= 0x80
}
fn name_cont(b: u8) -> bool {
    name_start(b) || b.is_ascii_digit() || b == b'$'
}
fn op_char(b: u8) -> bool {
    b"~!@#^&|`?+-*/%<>=".contains(&b)
}
fn own_char(b: u8) -> bool {
    b",()[].;:+-*/%^<>=".contains(&b)
}

struct Scan<'a> {
    s: &'a [u8],
}
impl Scan<'_> {
    fn at(&self, i: usize) -> u8 {
        self.s.get(i).copied().unwrap_or(0)
    }
    fn run(&self, mut i: usize, f: impl Fn(u8) -> bool) -> usize {
        while i < self.s.len() && f(self.s[i]) {
            i += 1;
        }
        i
    }
    fn starts(&self, i: usize, w: &str) -> bool {
        self.s[i.min(self.s.len())..].starts_with(w.as_bytes())
    }
    /// Ends of `digits (_? digits)*` at i, all of them.
    fn digits(&self, mut i: usize, f: &dyn Fn(u8) -> bool) -> Vec<usize> {
        let mut v = vec![];
        if !f(self.at(i)) || i >= self.s.len() {
            return v;
        }
        loop {
            i += 1;
            v.push(i);
            if i < self.s.len() && f(self.s[i]) {
                continue;
            }
            if self.at(i) == b'_' && i + 1 < self.s.len() && f(self.s[i + 1]) {
                i += 1;
                continue;
            }
            return v;
        }
    }
    fn number(&self, i: usize) -> Result<(Kind, usize), Stop> {
        let dec = |i: usize| self.digits(i, &|b| b.is_ascii_digit());
        let ints = dec(i);
        let mut nums = vec![];
        for e in &ints {
            if self.at(*e) == b'.' {
                nums.push(*e + 1);
                nums.extend(dec(*e + 1));
            }
        }
        if self.at(i) == b'.' {
            nums.extend(dec(i + 1));
        }
        let (mut reals, mut cut) = (vec![], vec![]);
        for m in ints.iter().chain(&nums) {
            if matches!(self.at(*m), b'e' | b'E') {
                reals.extend(dec(*m + 1));
                if matches!(self.at(*m + 1), b'+' | b'-') {
                    cut.push(*m + 2);
                    reals.extend(dec(*m + 2));
                }
            }
        }
        let junk = |v: &[usize]| v.iter().filter(|e| name_start(self.at(**e))).map(|e| self.run(*e, name_cont)).collect::<Vec<_>>();
        let radix = |c: [u8; 2], f: &dyn Fn(u8) -> bool| -> (Vec<usize>, Vec<usize>) {
            if self.at(i) != b'0' || !c.contains(&self.at(i + 1)) {
                return (vec![], vec![]);
            }
            let us = self.at(i + 2) == b'_';
            let mut v = self.digits(i + 2, f);
            if us {
                v.extend(self.digits(i + 3, f));
            }
            (v, if us { vec![i + 2, i + 3] } else { vec![i + 2] })
        };
        let (hex, hexfail) = radix([b'x', b'X'], &|b| b.is_ascii_hexdigit());
        let (oct, octfail) = radix([b'o', b'O'], &|b| (b'0'..=b'7').contains(&b));
        let (bin, binfail) = radix([b'b', b'B'], &|b| b == b'0' || b == b'1');
        let range: Vec<usize> = ints.iter().filter(|e| self.starts(**e, "..")).map(|e| *e + 2).collect();
        const JUNK: &str = "trailing junk after numeric literal";
        // in the order of the rules: the longest match, and the first of the longest
        let rules: [(&[usize], u8); 14] = [
            (&ints, 10),
            (&hex, 16),
            (&oct, 8),
            (&bin, 2),
            (&hexfail, 100),
            (&octfail, 101),
            (&binfail, 102),
            (&nums, 0),
            (&range, 11),
            (&reals, 0),
            (&cut, 103),
            (&junk(&ints), 103),
            (&junk(&nums), 103),
            (&junk(&reals), 103),
        ];
        let (mut end, mut what) = (i, 0);
        for (v, w) in rules {
            for e in v {
                if *e > end {
                    (end, what) = (*e, w);
                }
            }
        }
        let small = |s: &[u8], radix: u32| {
            let d: String = s.iter().filter(|b| **b != b'_').map(|b| *b as char).collect();
            if i32::from_str_radix(&d, radix).is_ok() { Kind::Int } else { Kind::Float }
        };
        Ok(match what {
            0 => (Kind::Float, end),
            10 => (small(&self.s[i..end], 10), end),
            11 => (small(&self.s[i..end - 2], 10), end - 2),
            2 | 8 | 16 => (small(&self.s[i + 2..end], what as u32), end),
            100 => return Err(Stop::Error("invalid hexadecimal integer", None)),
            101 => return Err(Stop::Error("invalid octal integer", None)),
            102 => return Err(Stop::Error("invalid binary integer", None)),
            _ => return Err(Stop::Error(JUNK, None)),
        })
    }
    /// Where a string goes on after its quote ended before i: past the quote of the next part.
    fn goes_on(&self, i: usize) -> Option<usize> {
        let e = self.run(i, space);
        (self.s[i..e].iter().any(|b| line_end(*b)) && self.at(e) == b'\'').then_some(e + 1)
    }
    /// Bit and hexadecimal strings, from inside the quote on.
    fn plain(&self, mut i: usize, open: &'static str) -> Result<usize, Stop> {
        loop {
            i = self.run(i, |b| b != b'\'');
            if i >= self.s.len() {
                return Err(Stop::Error(open, None));
            }
            i += 1;
            match self.goes_on(i) {
                Some(j) => i = j,
                None => return Ok(i),
            }
        }
    }
    fn hex_at(&self, i: usize, most: usize) -> usize {
        (i..i + most).take_while(|k| *k < self.s.len() && self.s[*k].is_ascii_hexdigit()).count()
    }
    /// A Unicode escape at i, where a backslash is: its value and end; or where it goes wrong.
    fn unicode(&self, i: usize) -> Option<Result<(u32, usize), Stop>> {
        let n = match self.at(i + 1) {
            b'u' => 4,
            b'U' => 8,
            _ => return None,
        };
        if self.hex_at(i + 2, n) < n {
            return Some(Err(Stop::Error("invalid Unicode escape", Some(i))));
        }
        let t = std::str::from_utf8(&self.s[i + 2..i + 2 + n]).unwrap();
        Some(Ok((u32::from_str_radix(t, 16).unwrap(), i + 2 + n)))
    }
    /// A quoted string, from inside the quote on.
    fn string(&self, mut i: usize, escapes: bool) -> Result<usize, Stop> {
        const PAIR: Stop = Stop::Error("invalid Unicode surrogate pair", None);
        loop {
            if i >= self.s.len() {
                return Err(Stop::Error("unterminated quoted string", None));
            }
            match self.s[i] {
                b'\'' if self.at(i + 1) == b'\'' => i += 2,
                b'\'' => match self.goes_on(i + 1) {
                    Some(j) => i = j,
                    None => return Ok(i + 1),
                },
                b'\\' if escapes => match self.unicode(i) {
                    Some(u) => {
                        let (c, e) = u?;
                        i = e;
                        match c {
                            0xd800..=0xdbff => {
                                if self.at(i) != b'\\' {
                                    return Err(PAIR);
                                }
                                match self.unicode(i) {
                                    Some(Ok((0xdc00..=0xdfff, e))) => i = e,
                                    Some(Err(x)) => return Err(x),
                                    _ => return Err(PAIR),
                                }
                            }
                            0xdc00..=0xdfff => return Err(PAIR),
                            1..=0x10ffff => {}
                            _ => return Err(Stop::Error("invalid Unicode escape value", None)),
                        }
                    }
                    // any other character after the backslash is taken with it; digits need no more care: they are not quotes
                    None => i += 2,
                },
                _ => i += 1,
            }
        }
    }
    /// A quoted name, from inside the quote on.
    fn quoted(&self, i: usize) -> Result<usize, Stop> {
        let mut k = i;
        loop {
            k = self.run(k, |b| b != b'"');
            if k >= self.s.len() {
                return Err(Stop::Error("unterminated quoted identifier", None));
            }
            if self.at(k + 1) != b'"' {
                break;
            }
            k += 2;
        }
        if k == i {
            return Err(Stop::Error("zero-length delimited identifier", None));
        }
        Ok(k + 1)
    }
    fn block(&self, mut i: usize) -> Result<usize, Stop> {
        let mut depth = 0;
        loop {
            if i >= self.s.len() {
                return Err(Stop::Error("unterminated /* comment", None));
            }
            if self.starts(i, "/*") {
                depth += 1;
                i += 2;
            } else if self.starts(i, "*/") {
                depth -= 1;
                i += 2;
                if depth == 0 {
                    return Ok(i);
                }
            } else {
                i += 1;
            }
        }
    }
    fn operator(&self, i: usize) -> Result<(Kind, usize), Stop> {
        let all = self.run(i, op_char);
        let mut end = all;
        for k in i + 1..all {
            if self.starts(k, "/*") || self.starts(k, "--") {
                end = k;
                break;
            }
        }
        let sign = |b: u8| b == b'+' || b == b'-';
        if end - i > 1 && sign(self.s[end - 1]) && !self.s[i..end - 1].iter().any(|b| b"~!@#^&|`?%".contains(b)) {
            while end - i > 1 && sign(self.s[end - 1]) {
                end -= 1;
            }
        }
        let kind = match &self.s[i..end] {
            b"=>" => Kind::EqualsGreater,
            b"<=" => Kind::LessEquals,
            b">=" => Kind::GreaterEquals,
            b"<>" | b"!=" => Kind::NotEquals,
            [b] if own_char(*b) => Kind::Char,
            t if t.len() >= 64 => return Err(Stop::Error("operator too long", None)),
            _ => Kind::Op,
        };
        Ok((kind, end))
    }
    fn next(&self, i: usize) -> Result<(Kind, usize), Stop> {
        let (b, c) = (self.s[i], self.at(i + 1));
        if b == b'-' && c == b'-' {
            return Ok((Kind::Line, self.run(i, |b| !line_end(b))));
        }
        if b == b'/' && c == b'*' {
            return Ok((Kind::Block, self.block(i)?));
        }
        if c == b'\'' {
            match b {
                b'b' | b'B' => return Ok((Kind::Bit, self.plain(i + 2, "unterminated bit string literal")?)),
                b'x' | b'X' => return Ok((Kind::Hex, self.plain(i + 2, "unterminated hexadecimal string literal")?)),
                b'e' | b'E' => return Ok((Kind::Str, self.string(i + 2, true)?)),
                b'n' | b'N' => return Ok((Kind::Nchar, i + 1)),
                _ => {}
            }
        }
        if matches!(b, b'u' | b'U') && c == b'&' && matches!(self.at(i + 2), b'\'' | b'"') {
            return match self.at(i + 2) {
                b'"' => Ok((Kind::Unicode, self.quoted(i + 3)?)),
                _ => Ok((Kind::Unicode, self.string(i + 3, false)?)),
            };
        }
        match b {
            b'\'' => Ok((Kind::Str, self.string(i + 1, false)?)),
            b'"' => Ok((Kind::Quoted, self.quoted(i + 1)?)),
            b'$' => {
                if c.is_ascii_digit() {
                    let e = self.run(i + 1, |b| b.is_ascii_digit());
                    let n = std::str::from_utf8(&self.s[i + 1..e]).unwrap();
                    return if n.parse::<i32>().is_ok() { Ok((Kind::Param, e)) } else { Err(Stop::Error("parameter number too large", None)) };
                }
                let t = if name_start(c) { self.run(i + 1, |b| name_cont(b) && b != b'$') } else { i + 1 };
                if self.at(t) != b'$' {
                    return Ok((Kind::Other, i + 1));
                }
                let mark = &self.s[i..t + 1];
                let rest = &self.s[t + 1..];
                match rest.windows(mark.len()).position(|w| w == mark) {
                    Some(k) => Ok((Kind::Str, t + 1 + k + mark.len())),
                    None => Err(Stop::Error("unterminated dollar-quoted string", None)),
                }
            }
            b'0'..=b'9' => self.number(i),
            b'.' if c == b'.' => Ok((Kind::DotDot, i + 2)),
            b'.' if c.is_ascii_digit() => self.number(i),
            b':' if c == b':' => Ok((Kind::Typecast, i + 2)),
            b':' if c == b'=' => Ok((Kind::ColonEquals, i + 2)),
            _ if op_char(b) => self.operator(i),
            _ if own_char(b) => Ok((Kind::Char, i + 1)),
            _ if name_start(b) => Ok((Kind::Word, self.run(i, name_cont))),
            _ => Ok((Kind::Other, i + 1)),
        }
    }
}
/// The tokens of a text, comments among them; or the first thing the scanner does not take.
pub fn scan(text: &str) -> Result<Vec<Lexeme>, Stop> {
    let s = Scan { s: text.as_bytes() };
    if text.contains('\0') {
        return Err(Stop::Unjudged("NUL"));
    }
    let mut v = vec![];
    let mut i = 0;
    loop {
        i = s.run(i, space);
        if i >= text.len() {
            return Ok(v);
        }
        let (kind, end) = s.next(i)?;
        v.push(Lexeme { kind, start: i, end });
        i = end;
    }
}
