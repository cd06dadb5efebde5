//! Observations of the system under test, and the reference model of a tree.
use postgresql_cst_parser::{parse, NodeOrToken, ParserError, ResolvedNode};

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub kind: u32,
    pub start: u32,
    pub end: u32,
    pub parent: u32,
    pub tok: bool,
    pub kids: Vec<u32>,
}
/// A flat copy of a tree, in document order.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Model {
    pub text: String,
    pub recs: Vec<Rec>,
    pub texts: Vec<String>, // token texts, by record ("" for nodes)
}
pub const NONE: u32 = u32::MAX;

pub fn kind_of(k: postgresql_cst_parser::syntax_kind::SyntaxKind) -> u32 {
    cstree::RawSyntaxKind::from(k).0
}

pub fn snapshot(root: &ResolvedNode) -> Model {
    let mut m = Model { text: root.text().to_string(), recs: vec![], texts: vec![] };
    // explicit stack: the walk itself must not recurse
    fn rec(m: &mut Model, k: u32, r: (u32, u32), parent: u32, tok: Option<&str>) -> u32 {
        let i = m.recs.len() as u32;
        m.recs.push(Rec { kind: k, start: r.0, end: r.1, parent, tok: tok.is_some(), kids: vec![] });
        m.texts.push(tok.unwrap_or("").to_string());
        if parent != NONE {
            m.recs[parent as usize].kids.push(i);
        }
        i
    }
    let rg = |r: cstree::text::TextRange| (u32::from(r.start()), u32::from(r.end()));
    let i = rec(&mut m, kind_of(root.kind()), rg(root.text_range()), NONE, None);
    let mut stack: Vec<(Vec<NodeOrToken>, usize, u32)> = vec![(root.children_with_tokens().collect(), 0, i)];
    while let Some((kids, pos, parent)) = stack.last_mut() {
        if *pos >= kids.len() {
            stack.pop();
            continue;
        }
        let e = kids[*pos];
        *pos += 1;
        let parent = *parent;
        match e {
            NodeOrToken::Node(n) => {
                let i = rec(&mut m, kind_of(n.kind()), rg(n.text_range()), parent, None);
                stack.push((n.children_with_tokens().collect(), 0, i));
            }
            NodeOrToken::Token(t) => {
                rec(&mut m, kind_of(t.kind()), rg(t.text_range()), parent, Some(t.text()));
            }
        }
    }
    m
}
impl Model {
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        for (r, t) in self.recs.iter().zip(&self.texts) {
            for v in [r.kind, r.start, r.end, r.parent, r.tok as u32, t.len() as u32] {
                o.extend(v.to_le_bytes());
            }
            o.extend(t.as_bytes());
        }
        o
    }
    pub fn from_bytes(text: &str, b: &[u8]) -> Model {
        let mut m = Model { text: text.to_string(), ..Default::default() };
        let mut p = 0;
        while p < b.len() {
            let v: Vec<u32> = (0..6).map(|i| u32::from_le_bytes(b[p + 4 * i..p + 4 * i + 4].try_into().unwrap())).collect();
            p += 24;
            let t = String::from_utf8(b[p..p + v[5] as usize].to_vec()).unwrap();
            p += v[5] as usize;
            let i = m.recs.len() as u32;
            m.recs.push(Rec { kind: v[0], start: v[1], end: v[2], parent: v[3], tok: v[4] == 1, kids: vec![] });
            m.texts.push(t);
            if v[3] != NONE {
                m.recs[v[3] as usize].kids.push(i);
            }
        }
        m
    }
    pub fn leaves(&self) -> impl Iterator<Item = (usize, &Rec, &str)> {
        self.recs.iter().enumerate().filter(|(_, r)| r.tok).map(|(i, r)| (i, r, self.texts[i].as_str()))
    }
}
pub enum Outcome {
    Tree(ResolvedNode),
    Error(ParserError),
}
pub fn run(text: &str) -> Outcome {
    match parse(text) {
        Ok(t) => Outcome::Tree(t),
        Err(e) => Outcome::Error(e),
    }
}
/// Observe trees by the names of their kinds instead of the numbers (set before any parse).
pub static BY_NAME: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Everything a caller can observe of an outcome, as bytes.
pub fn observe(o: &Outcome) -> Vec<u8> {
    match o {
        Outcome::Tree(t) if BY_NAME.load(std::sync::atomic::Ordering::Relaxed) => {
            let mut b = vec![1u8];
            b.extend(t.text().to_string().as_bytes());
            b.extend(format!("{t:#?}").as_bytes());
            b
        }
        Outcome::Tree(t) => {
            let m = snapshot(t);
            let mut b = vec![1u8];
            b.extend((m.text.len() as u32).to_le_bytes());
            b.extend(m.text.as_bytes());
            b.extend(m.bytes());
            b
        }
        Outcome::Error(e) => {
            // 0, what positions it has, the positions, its text
            let (k, x, y) = match e {
                ParserError::ParseError { start_byte_pos, end_byte_pos, .. } => (1u8, *start_byte_pos, *end_byte_pos),
                ParserError::ScanReport(r) => (2, r.position_in_bytes, r.position_in_bytes),
                _ => (0, 0, 0),
            };
            let mut b = vec![0u8, k];
            b.extend((x as u32).to_le_bytes());
            b.extend((y as u32).to_le_bytes());
            b.extend(format!("{e:?}").as_bytes());
            b
        }
    }
}
/// Where an observed error says it is.
pub fn error_span(b: &[u8]) -> Option<(usize, usize)> {
    if b.len() < 10 || b[0] != 0 || b[1] == 0 {
        return None;
    }
    let n = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize;
    Some((n(2), n(6)))
}
#[cfg(feature = "asusers")]
pub fn wasm(text: &str) -> String {
    postgresql_cst_parser_wasm::parse_sql(text)
}
#[cfg(not(feature = "asusers"))]
pub fn wasm(_: &str) -> String {
    panic!("this build has no WebAssembly entry point")
}
pub fn describe(b: &[u8]) -> String {
    match b.first() {
        Some(0) => format!("Err {}", String::from_utf8_lossy(b.get(10..).unwrap_or(&[]))),
        Some(1) => format!("tree of {} bytes of observations, #{:016x}", b.len(), wl::rng::hash(b)),
        Some(2) => format!("wasm string {:?}", String::from_utf8_lossy(&b[1..]).chars().take(160).collect::<String>()),
        Some(3) => format!("panic: {}", String::from_utf8_lossy(&b[1..])),
        _ => "nothing".into(),
    }
}
