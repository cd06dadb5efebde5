//! Just enough JSON for replay files and evidence.
use std::collections::BTreeMap;
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    I(i128),
    F(f64),
    S(String),
    A(Vec<J>),
    O(BTreeMap<String, J>),
}
impl J {
    pub fn obj(v: Vec<(&str, J)>) -> J {
        J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    pub fn get(&self, k: &str) -> &J {
        static N: J = J::Null;
        match self {
            J::O(m) => m.get(k).unwrap_or(&N),
            _ => &N,
        }
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::O(m) = self {
            m.insert(k.to_string(), v);
        }
    }
    pub fn u(&self) -> u64 {
        match self {
            J::I(i) => *i as u64,
            _ => 0,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => &[],
        }
    }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => o.push_str(&i.to_string()),
            J::F(f) => o.push_str(&format!("{f:.3}")),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push_str(",\n ");
                    }
                    J::S(k.clone()).w(o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        self.w(&mut s);
        s
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let b = s.as_bytes();
        let mut p = 0;
        let v = val(b, &mut p)?;
        Ok(v)
    }
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}
fn val(b: &[u8], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    match b.get(*p) {
        None => Err("end".into()),
        Some(b'{') => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, p);
                match b.get(*p) {
                    Some(b'}') => {
                        *p += 1;
                        return Ok(J::O(m));
                    }
                    Some(b',') => *p += 1,
                    _ => {
                        let J::S(k) = val(b, p)? else { return Err("key".into()) };
                        ws(b, p);
                        if b.get(*p) != Some(&b':') {
                            return Err("colon".into());
                        }
                        *p += 1;
                        let v = val(b, p)?;
                        m.insert(k, v);
                    }
                }
            }
        }
        Some(b'[') => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                match b.get(*p) {
                    Some(b']') => {
                        *p += 1;
                        return Ok(J::A(v));
                    }
                    Some(b',') => *p += 1,
                    _ => v.push(val(b, p)?),
                }
            }
        }
        Some(b'"') => {
            *p += 1;
            let mut o: Vec<u8> = vec![];
            loop {
                match b.get(*p) {
                    None => return Err("string".into()),
                    Some(b'"') => {
                        *p += 1;
                        return String::from_utf8(o).map(J::S).map_err(|e| e.to_string());
                    }
                    Some(b'\\') => {
                        *p += 1;
                        match b.get(*p) {
                            Some(b'n') => o.push(b'\n'),
                            Some(b't') => o.push(b'\t'),
                            Some(b'r') => o.push(b'\r'),
                            Some(b'u') => {
                                let h = std::str::from_utf8(b.get(*p + 1..*p + 5).ok_or("u")?).map_err(|e| e.to_string())?;
                                let mut c = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                if (0xd800..0xdc00).contains(&c) && b.get(*p + 5..*p + 7) == Some(b"\\u") {
                                    // a pair of surrogates
                                    let h = std::str::from_utf8(b.get(*p + 7..*p + 11).ok_or("u")?).map_err(|e| e.to_string())?;
                                    let d = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                    c = 0x10000 + ((c - 0xd800) << 10) + d.wrapping_sub(0xdc00);
                                    *p += 6;
                                }
                                let c = char::from_u32(c).ok_or("surrogate")?;
                                let mut t = [0; 4];
                                o.extend(c.encode_utf8(&mut t).as_bytes());
                                *p += 4;
                            }
                            Some(c) => o.push(*c),
                            None => return Err("esc".into()),
                        }
                        *p += 1;
                    }
                    Some(c) => {
                        o.push(*c);
                        *p += 1;
                    }
                }
            }
        }
        Some(b't') => {
            *p += 4;
            Ok(J::B(true))
        }
        Some(b'f') => {
            *p += 5;
            Ok(J::B(false))
        }
        Some(b'n') => {
            *p += 4;
            Ok(J::Null)
        }
        _ => {
            let st = *p;
            while *p < b.len() && matches!(b[*p], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[st..*p]).unwrap();
            if let Ok(i) = t.parse::<i128>() {
                Ok(J::I(i))
            } else {
                t.parse::<f64>().map(J::F).map_err(|_| format!("bad value at {st}"))
            }
        }
    }
}
