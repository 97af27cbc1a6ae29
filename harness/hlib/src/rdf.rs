use common::Src;
use std::collections::{BTreeMap, BTreeSet};

pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
pub const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
pub const RDFS: &str = "http://www.w3.org/2000/01/rdf-schema#";
pub const SH: &str = "http://www.w3.org/ns/shacl#";
pub const EX: &str = "http://e.org/";
pub fn xsd(s: &str) -> String {
    format!("{XSD}{s}")
}

/// An RDF term. Literals: language-tagged ones have the datatype rdf:langString.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T {
    Iri(String),
    B(String),
    L { lex: String, dt: String, lang: Option<String> },
}
impl T {
    pub fn iri(s: impl Into<String>) -> T {
        T::Iri(s.into())
    }
    pub fn ex(s: &str) -> T {
        T::Iri(format!("{EX}{s}"))
    }
    pub fn b(s: &str) -> T {
        T::B(s.into())
    }
    pub fn str(s: impl Into<String>) -> T {
        T::L { lex: s.into(), dt: xsd("string"), lang: None }
    }
    pub fn int(i: i64) -> T {
        T::L { lex: i.to_string(), dt: xsd("integer"), lang: None }
    }
    pub fn typed(lex: impl Into<String>, dt: &str) -> T {
        let dt = if dt.contains(':') { dt.to_string() } else { xsd(dt) };
        T::L { lex: lex.into(), dt, lang: None }
    }
    pub fn lang(lex: impl Into<String>, lang: &str) -> T {
        T::L { lex: lex.into(), dt: format!("{RDF}langString"), lang: Some(lang.into()) }
    }
    pub fn is_lit(&self) -> bool {
        matches!(self, T::L { .. })
    }
    pub fn is_iri(&self) -> bool {
        matches!(self, T::Iri(_))
    }
    pub fn is_b(&self) -> bool {
        matches!(self, T::B(_))
    }
    /// N-Triples syntax, which is also valid Turtle, SPARQL and ShExC.
    pub fn nt(&self) -> String {
        match self {
            T::Iri(i) => format!("<{i}>"),
            T::B(b) => format!("_:{b}"),
            T::L { lex, dt, lang } => {
                let q = quote(lex);
                match lang {
                    Some(l) => format!("{q}@{l}"),
                    None if *dt == xsd("string") => q,
                    None => format!("{q}^^<{dt}>"),
                }
            }
        }
    }
}
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub type Triple = (T, String, T);
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct G {
    pub ts: BTreeSet<Triple>,
}
impl G {
    pub fn add(&mut self, s: T, p: &str, o: T) {
        let p = if p.contains(':') { p.to_string() } else { format!("{EX}{p}") };
        self.ts.insert((s, p, o));
    }
    pub fn nt(&self) -> String {
        self.ts.iter().map(|(s, p, o)| format!("{} <{}> {} .\n", s.nt(), p, o.nt())).collect()
    }
    pub fn nt_order(&self, src: &mut Src) -> String {
        let mut v: Vec<String> = self.ts.iter().map(|(s, p, o)| format!("{} <{}> {} .\n", s.nt(), p, o.nt())).collect();
        src.shuffle(&mut v);
        v.concat()
    }
    pub fn nodes(&self) -> BTreeSet<T> {
        self.ts.iter().flat_map(|(s, _, o)| [s.clone(), o.clone()]).collect()
    }
    pub fn out(&self, s: &T) -> Vec<(&String, &T)> {
        self.ts.iter().filter(|t| &t.0 == s).map(|t| (&t.1, &t.2)).collect()
    }
    pub fn objs(&self, s: &T, p: &str) -> Vec<T> {
        self.ts.iter().filter(|t| &t.0 == s && t.1 == p).map(|t| t.2.clone()).collect()
    }
    pub fn subjs(&self, p: &str, o: &T) -> Vec<T> {
        self.ts.iter().filter(|t| &t.2 == o && t.1 == p).map(|t| t.0.clone()).collect()
    }
    pub fn has(&self, s: &T, p: &str, o: &T) -> bool {
        self.ts.contains(&(s.clone(), p.to_string(), o.clone()))
    }
    pub fn map(&self, f: &dyn Fn(&T) -> T) -> G {
        G { ts: self.ts.iter().map(|(s, p, o)| (f(s), p.clone(), f(o))).collect() }
    }
    pub fn bnodes(&self) -> Vec<String> {
        self.nodes()
            .into_iter()
            .filter_map(|n| if let T::B(b) = n { Some(b) } else { None })
            .collect()
    }
    /// Graph isomorphism: colour refinement, then individualisation of one blank node at a time.
    pub fn iso(&self, other: &G) -> bool {
        if self.ts.len() != other.ts.len() {
            return false;
        }
        let ca: BTreeMap<String, u64> = self.bnodes().into_iter().map(|b| (b, 1)).collect();
        let cb: BTreeMap<String, u64> = other.bnodes().into_iter().map(|b| (b, 1)).collect();
        ca.len() == cb.len() && iso_rec(self, other, ca, cb, &mut 0)
    }
}
fn iso_rec(g: &G, h: &G, ca: BTreeMap<String, u64>, cb: BTreeMap<String, u64>, steps: &mut usize) -> bool {
    *steps += 1;
    if *steps > 2000 {
        return true; // undecided: never an alarm
    }
    let (ca, cb) = (refine(g, ca), refine(h, cb));
    let classes = |c: &BTreeMap<String, u64>| {
        let mut m: BTreeMap<u64, Vec<String>> = BTreeMap::new();
        for (b, k) in c {
            m.entry(*k).or_default().push(b.clone());
        }
        m
    };
    let (ka, kb) = (classes(&ca), classes(&cb));
    if ka.len() != kb.len() || ka.iter().any(|(k, v)| kb.get(k).map(Vec::len) != Some(v.len())) {
        return false;
    }
    match ka.iter().filter(|(_, v)| v.len() > 1).min_by_key(|(_, v)| v.len()) {
        None => {
            let m: BTreeMap<String, String> = ka.iter().map(|(k, v)| (v[0].clone(), kb[k][0].clone())).collect();
            g.ts.iter().all(|(s, p, o)| h.ts.contains(&(ren(s, &m), p.clone(), ren(o, &m))))
        }
        Some((k, v)) => {
            let mut ca2 = ca.clone();
            ca2.insert(v[0].clone(), k ^ 0x5bd1e995);
            kb[k].iter().any(|y| {
                let mut cb2 = cb.clone();
                cb2.insert(y.clone(), k ^ 0x5bd1e995);
                iso_rec(g, h, ca2.clone(), cb2, steps)
            })
        }
    }
}
fn ren(t: &T, m: &BTreeMap<String, String>) -> T {
    match t {
        T::B(x) => T::B(m.get(x).cloned().unwrap_or_else(|| x.clone())),
        t => t.clone(),
    }
}
fn h(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
fn refine(g: &G, mut c: BTreeMap<String, u64>) -> BTreeMap<String, u64> {
    let count = |c: &BTreeMap<String, u64>| c.values().collect::<BTreeSet<_>>().len();
    let ts: Vec<(&T, u64, &T, u64, u64)> = g
        .ts
        .iter()
        .filter(|(s, _, o)| matches!(s, T::B(_)) || matches!(o, T::B(_)))
        .map(|(s, p, o)| (s, h(p), o, h(&s.nt()), h(&o.nt())))
        .collect();
    let mix = |a: u64, b: u64| (a.rotate_left(23) ^ b).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(31);
    loop {
        let mut sigs: BTreeMap<&String, Vec<u64>> = c.keys().map(|b| (b, vec![])).collect();
        for (s, p, o, hs, ho) in &ts {
            let same = s == o;
            if let T::B(x) = s {
                let k = if same { 7 } else if let T::B(y) = o { mix(c[y], 3) } else { *ho };
                sigs.get_mut(x).unwrap().push(mix(mix(1, *p), k));
            }
            if let T::B(x) = o {
                let k = if same { 7 } else if let T::B(y) = s { mix(c[y], 3) } else { *hs };
                sigs.get_mut(x).unwrap().push(mix(mix(2, *p), k));
            }
        }
        let n: BTreeMap<String, u64> = sigs
            .into_iter()
            .map(|(b, mut v)| {
                v.sort();
                (b.clone(), v.into_iter().fold(mix(11, c[b]), mix))
            })
            .collect();
        let stable = count(&n) == count(&c);
        c = n;
        if stable {
            return c;
        }
    }
}

/// Parses N-Triples (our own reader, for output produced by rudof).
pub fn parse_nt(text: &str) -> Result<G, String> {
    let mut g = G::default();
    for (ln, line) in text.lines().enumerate() {
        let mut p = P { s: line.chars().collect(), i: 0 };
        p.ws();
        if p.end() || p.peek() == '#' {
            continue;
        }
        let e = |m: &str| format!("line {}: {m}: {line}", ln + 1);
        let s = p.term().map_err(|m| e(&m))?;
        p.ws();
        let pr = match p.term().map_err(|m| e(&m))? {
            T::Iri(i) => i,
            _ => return Err(e("predicate is not an IRI")),
        };
        p.ws();
        let o = p.term().map_err(|m| e(&m))?;
        p.ws();
        if p.end() || p.peek() != '.' {
            return Err(e("missing dot"));
        }
        g.ts.insert((s, pr, o));
    }
    Ok(g)
}
pub fn parse_nt_term(text: &str) -> Result<T, String> {
    let mut p = P { s: text.chars().collect(), i: 0 };
    let t = p.term()?;
    if !p.end() {
        return Err(format!("trailing text in {text}"));
    }
    Ok(t)
}
struct P {
    s: Vec<char>,
    i: usize,
}
impl P {
    fn end(&self) -> bool {
        self.i >= self.s.len()
    }
    fn peek(&self) -> char {
        self.s[self.i]
    }
    fn ws(&mut self) {
        while !self.end() && self.peek().is_whitespace() {
            self.i += 1;
        }
    }
    fn esc(&mut self) -> Result<char, String> {
        // after the backslash
        let c = *self.s.get(self.i).ok_or("eof")?;
        self.i += 1;
        let n = match c {
            'u' => 4,
            'U' => 8,
            't' => return Ok('\t'),
            'n' => return Ok('\n'),
            'r' => return Ok('\r'),
            'b' => return Ok('\u{8}'),
            'f' => return Ok('\u{c}'),
            c => return Ok(c),
        };
        let h: String = self.s.get(self.i..self.i + n).ok_or("eof")?.iter().collect();
        self.i += n;
        char::from_u32(u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?).ok_or_else(|| "bad escape".into())
    }
    fn term(&mut self) -> Result<T, String> {
        match self.s.get(self.i) {
            Some('<') => Ok(T::Iri(self.iri()?)),
            Some('_') => {
                self.i += 2;
                let st = self.i;
                while !self.end() && (self.peek().is_alphanumeric() || "_-.".contains(self.peek())) {
                    self.i += 1;
                }
                while self.i > st && self.s[self.i - 1] == '.' {
                    self.i -= 1;
                }
                Ok(T::B(self.s[st..self.i].iter().collect()))
            }
            Some('"') => {
                self.i += 1;
                let mut lex = String::new();
                loop {
                    match self.s.get(self.i) {
                        None => return Err("unterminated literal".into()),
                        Some('"') => {
                            self.i += 1;
                            break;
                        }
                        Some('\\') => {
                            self.i += 1;
                            lex.push(self.esc()?);
                        }
                        Some(c) => {
                            lex.push(*c);
                            self.i += 1;
                        }
                    }
                }
                match self.s.get(self.i) {
                    Some('@') => {
                        self.i += 1;
                        let st = self.i;
                        while !self.end() && (self.peek().is_alphanumeric() || self.peek() == '-') {
                            self.i += 1;
                        }
                        Ok(T::lang(lex, &self.s[st..self.i].iter().collect::<String>()))
                    }
                    Some('^') => {
                        self.i += 2;
                        let dt = self.iri()?;
                        Ok(T::L { lex, dt, lang: None })
                    }
                    _ => Ok(T::str(lex)),
                }
            }
            c => Err(format!("unexpected {c:?}")),
        }
    }
    fn iri(&mut self) -> Result<String, String> {
        if self.s.get(self.i) != Some(&'<') {
            return Err("IRI expected".into());
        }
        self.i += 1;
        let mut o = String::new();
        loop {
            match self.s.get(self.i) {
                None => return Err("unterminated IRI".into()),
                Some('>') => {
                    self.i += 1;
                    return Ok(o);
                }
                Some('\\') => {
                    self.i += 1;
                    o.push(self.esc()?);
                }
                Some(c) => {
                    o.push(*c);
                    self.i += 1;
                }
            }
        }
    }
}
