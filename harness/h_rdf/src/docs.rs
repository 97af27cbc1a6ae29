//! Generators of RDF graphs, and of documents for them in several syntaxes.
use common::*;
use hlib::*;
use std::collections::{BTreeMap, BTreeSet};

pub const IRIS: &[&str] = &[
    "http://e.org/a",
    "http://e.org/b",
    "http://e.org/c",
    "http://base.org/r1",
    "http://base.org/d/r2",
    "http://base.org/d/e/r3?q=1",
    "http://base.org/",
    "http://e.org/",
    "http://e.org/x/y",
    "http://e.org/x#y",
    "http://e.org/\u{fc}\u{4e2d}",
    "http://e.org/a%20b",
    "http://e.org/a.b",
    "http://e.org/a.",
    "http://e.org/-x",
    "http://e.org/1a",
    "http://e.org/a,b(c)!'",
    "http://e.org/q?x=1&y=2#f",
    "http://e.org/a:b",
    "urn:x:y",
];
pub const PREDS: &[&str] = &[
    "http://e.org/p",
    "http://e.org/q",
    "http://e.org/x#r",
    "http://e.org/ns/_s-1",
    "http://base.org/pp",
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#type",
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#value",
    "http://e.org/\u{fc}",
    "http://e.org/a.b",
];
/// Predicates that have no qualified name in XML.
pub const ODD_PREDS: &[&str] = &["http://e.org/1", "http://e.org/a,b", "urn:x:1"];
pub const STRINGS: &[&str] = &[
    "",
    "a",
    "1",
    "true",
    "say \"x\"",
    "it's",
    "back\\slash",
    "line\nbreak",
    "cr\r\nlf",
    "tab\t.",
    " lead and trail ",
    "<a href='x'>&amp;</a>",
    "\u{e9}\u{1f600}",
    "ends with quote\"",
    "\"\"\"",
    "'''",
    "]]>",
    "# not a comment",
    "a\u{a0}b\u{2028}c",
];
pub const CONTROL: &[&str] = &["\u{1}", "a\u{7f}b", "\u{8}\u{c}", "\u{1f}x"];
pub const TYPED: &[(&str, &str)] = &[
    ("1", "byte"),
    ("1", "short"),
    ("1", "unsignedInt"),
    ("2020-01-01T00:00:00Z", "dateTime"),
    ("2020-01-01T01:00:00+01:00", "dateTime"),
    ("1", "integer"),
    ("-07", "integer"),
    ("+5", "integer"),
    ("1.0", "decimal"),
    ("-.5", "decimal"),
    ("1e3", "double"),
    ("-1.5E-2", "double"),
    ("1.", "decimal"),
    ("x", "integer"),
    ("", "integer"),
    ("true", "boolean"),
    ("false", "boolean"),
    ("1", "boolean"),
    ("2020-01-01", "date"),
    ("INF", "double"),
    ("a b", "http://e.org/dt"),
    ("<b>x</b>", "http://www.w3.org/1999/02/22-rdf-syntax-ns#XMLLiteral"),
    ("{\"a\": 1}", "http://www.w3.org/1999/02/22-rdf-syntax-ns#JSON"),
];
pub const LANGS: &[&str] = &["en", "en-gb", "fr", "de-ch-1996"];

#[derive(Clone, Copy)]
pub struct Dom {
    pub control: bool,
    pub odd_preds: bool,
    pub json: bool,
}
pub fn literal(s: &mut Src, d: Dom) -> T {
    match s.weighted(&[4, 4, 2, if d.control { 1 } else { 0 }]) {
        0 => T::str(s.picks(STRINGS)),
        1 => {
            let (l, t) = s.picks(TYPED);
            if !d.json && t.ends_with("#JSON") {
                return T::int(3);
            }
            T::typed(l, t)
        }
        2 => T::lang(s.picks(STRINGS), s.picks(LANGS)),
        _ => T::str(s.picks(CONTROL)),
    }
}
pub fn iri(s: &mut Src) -> T {
    T::iri(s.picks(IRIS))
}
pub fn pred(s: &mut Src, d: Dom) -> String {
    if d.odd_preds && s.chance(1, 8) { s.picks(ODD_PREDS).to_string() } else { s.picks(PREDS).to_string() }
}
/// A graph with up to `n` random statements plus lists and nested blank nodes.
pub fn graph(s: &mut Src, n: usize, d: Dom, tag: &str) -> G {
    let mut g = G::default();
    let nb = s.below(4);
    let bn = |i: usize| T::b(&format!("{tag}{i}"));
    let mut extra = 0;
    for _ in 0..s.size(0, n) {
        let sub = if nb > 0 && s.chance(1, 3) { bn(s.below(nb)) } else { iri(s) };
        let p = pred(s, d);
        let o = match s.weighted(&[4, 3, 2, 1, 1]) {
            0 => literal(s, d),
            1 => iri(s),
            2 if nb > 0 => bn(s.below(nb)),
            3 => {
                // a nested blank node
                extra += 1;
                let b = T::b(&format!("{tag}n{extra}"));
                for _ in 0..s.below(3) {
                    let (p, o) = (pred(s, d), literal(s, d));
                    g.add(b.clone(), &p, o);
                }
                b
            }
            4 => {
                // a list
                let k = s.below(4);
                let mut cell = T::iri(format!("{RDF}nil"));
                for _ in 0..k {
                    extra += 1;
                    let b = T::b(&format!("{tag}l{extra}"));
                    let o = if s.flip() { literal(s, d) } else { iri(s) };
                    g.add(b.clone(), &format!("{RDF}first"), o);
                    g.add(b.clone(), &format!("{RDF}rest"), cell);
                    cell = b;
                }
                cell
            }
            _ => T::int(s.range(-3, 12)),
        };
        g.add(sub, &p, o);
    }
    g
}
/// Language tags in lower case, as they compare.
pub fn lower_tags(g: &G) -> G {
    g.map(&|t| match t {
        T::L { lex, dt, lang: Some(l) } => T::L { lex: lex.clone(), dt: dt.clone(), lang: Some(l.to_lowercase()) },
        t => t.clone(),
    })
}

pub fn pn_local(l: &str, s: &mut Src) -> Option<String> {
    let cs: Vec<char> = l.chars().collect();
    let mut o = String::new();
    for (i, c) in cs.iter().enumerate() {
        match c {
            c if c.is_alphanumeric() => o.push(*c),
            '_' | ':' => o.push(*c),
            '-' if i > 0 => o.push('-'),
            '.' if i > 0 && i + 1 < cs.len() && s.flip() => o.push('.'),
            '~' | '.' | '-' | '!' | '$' | '&' | '\'' | '(' | ')' | '*' | '+' | ',' | ';' | '=' | '/' | '?' | '#' | '@' => {
                o.push('\\');
                o.push(*c);
            }
            '%' => o.push('%'),
            _ => return None,
        }
    }
    Some(o)
}
const NAMESPACES: &[&str] = &["http://e.org/", "http://base.org/", "http://base.org/d/", "http://e.org/x#", "http://www.w3.org/2001/XMLSchema#", "http://www.w3.org/1999/02/22-rdf-syntax-ns#", "urn:x:", "http://e.org/a", "http://e.org/ns/"];
const ALIASES: &[&str] = &["", "ex", "b", "p-1", "x.y", "\u{e9}"];

#[derive(Clone, Copy, PartialEq)]
pub enum Syn {
    Turtle,
    TriG,
    N3,
}
/// Writes a graph in Turtle (or TriG, N3), using the abbreviations of the language at random.
pub struct Writer<'a> {
    s: &'a mut Src,
    g: &'a G,
    o: String,
    base: String,
    pm: BTreeMap<String, String>,
    syn: Syn,
    /// blank nodes that can be written in brackets or as lists: the object of exactly one statement, without cycles
    inline: BTreeSet<T>,
    done: BTreeSet<T>,
    /// aliases that may not be declared, or not again
    fixed: BTreeSet<String>,
}
impl<'a> Writer<'a> {
    /// `defaults`: prefixes that need no declaration.
    pub fn write(s: &'a mut Src, g: &'a G, base: &str, syn: Syn, defaults: &BTreeMap<String, String>) -> String {
        let mut uses: BTreeMap<&T, Vec<&T>> = BTreeMap::new();
        for (sub, _, o) in &g.ts {
            if o.is_b() {
                uses.entry(o).or_default().push(sub);
            }
        }
        let mut inline = BTreeSet::new();
        for b in g.bnodes() {
            let b = T::B(b);
            // follow the only use up to a root
            let mut seen = BTreeSet::from([&b]);
            let mut cur = &b;
            let ok = loop {
                match uses.get(cur) {
                    None => break cur != &b || false,
                    Some(u) if u.len() == 1 => {
                        cur = u[0];
                        if !cur.is_b() {
                            break true;
                        }
                        if !seen.insert(cur) {
                            break false;
                        }
                    }
                    Some(_) => break cur != &b,
                }
            };
            if ok && uses.get(&b).is_some_and(|u| u.len() == 1) && s.chance(2, 3) {
                inline.insert(b);
            }
        }
        let mut w = Writer { s, g, o: String::new(), base: base.to_string(), pm: defaults.clone(), syn, inline, done: BTreeSet::new(), fixed: BTreeSet::new() };
        w.document();
        w.o
    }
    fn ws(&mut self) {
        let t = match self.s.weighted(&[12, 2, 1, 1]) {
            0 => " ",
            1 => "\n  ",
            2 => " # comment . ; \" <x>\n",
            _ => "\t",
        };
        self.o.push_str(t);
    }
    /// White space where none is needed.
    fn ows(&mut self) {
        if self.s.flip() {
            self.ws();
        }
    }
    fn directive(&mut self) {
        let sparql = self.s.flip();
        if self.s.chance(1, 5) {
            let b = self.s.picks(&["http://base.org/", "http://base.org/d/", "http://e.org/x/", "http://e.org/"]);
            let t = self.rel(b).unwrap_or_else(|| b.to_string());
            self.base = b.to_string();
            let t = escape_iri(&t, self.s);
            self.o.push_str(&if sparql { format!("BASE <{t}>\n") } else { format!("@base <{t}> .\n") });
        } else {
            let a = self.s.picks(ALIASES);
            let n = self.s.picks(NAMESPACES);
            if self.fixed.contains(a) {
                return;
            }
            let t = if self.s.flip() { self.rel(n) } else { None }.unwrap_or_else(|| n.to_string());
            let t = escape_iri(&t, self.s);
            self.pm.insert(a.to_string(), n.to_string());
            let kw = if self.s.flip() { "PREFIX" } else { "prefix" };
            self.o.push_str(&if sparql { format!("{kw} {a}: <{t}>\n") } else { format!("@prefix {a}: <{t}> .\n") });
        }
    }
    fn document(&mut self) {
        // default prefixes are either declared before use, or not at all
        for a in self.pm.keys().cloned().collect::<Vec<_>>() {
            if self.s.chance(1, 3) {
                let n = self.s.picks(NAMESPACES);
                self.o.push_str(&if self.s.flip() { format!("@prefix {a}: <{n}> .\n") } else { format!("PREFIX {a}: <{n}>\n") });
                self.pm.insert(a.clone(), n.to_string());
            }
            self.fixed.insert(a);
        }
        for _ in 0..self.s.below(5) {
            self.directive();
        }
        let g = self.g;
        let mut subs: Vec<T> = g.ts.iter().map(|t| t.0.clone()).filter(|t| !self.inline.contains(t)).collect::<BTreeSet<_>>().into_iter().collect();
        self.s.shuffle(&mut subs);
        for sub in subs {
            if self.s.chance(1, 8) {
                self.directive();
            }
            let wrap = self.syn == Syn::TriG && self.s.chance(1, 3);
            if wrap {
                match self.s.below(3) {
                    0 => self.o.push_str("GRAPH <http://g.org/1> {\n"),
                    1 => self.o.push_str("<http://g.org/2> {\n"),
                    _ => self.o.push_str("{\n"),
                }
            }
            self.subject(&sub);
            if wrap {
                if self.s.flip() {
                    self.o.push('.');
                }
                self.o.push_str("}\n");
            } else {
                self.o.push_str(".\n");
            }
        }
    }
    fn subject(&mut self, sub: &T) {
        let g = self.g;
        let ts: Vec<(&String, &T)> = g.out(sub);
        let used = g.ts.iter().any(|t| &t.2 == sub);
        let simple = ts.len() == 1 || self.s.chance(3, 4);
        if sub.is_b() && !used && self.s.flip() {
            // in brackets
            let mut ts: Vec<_> = ts;
            self.s.shuffle(&mut ts);
            let k = self.s.below(ts.len() + 1);
            self.o.push('[');
            self.ows();
            self.po(&ts[..k]);
            self.o.push(']');
            if k < ts.len() {
                self.ws();
                self.po(&ts[k..]);
            } else if k == 0 {
                unreachable!("a subject without statements")
            }
            self.ows();
            return;
        }
        if simple {
            self.term(sub);
            self.ws();
            self.po(&ts);
            self.ows();
            if self.o.ends_with(|c: char| c.is_alphanumeric() || c == '_') {
                self.o.push(' ');
            }
        } else {
            for (i, (p, o)) in ts.iter().enumerate() {
                if i > 0 {
                    self.o.push_str(".\n");
                }
                self.term(sub);
                self.ws();
                self.pred(p);
                self.ws();
                self.obj(o);
                self.o.push(' ');
            }
        }
    }
    fn po(&mut self, ts: &[(&String, &T)]) {
        let mut by: BTreeMap<&String, Vec<&T>> = BTreeMap::new();
        for (p, o) in ts {
            by.entry(p).or_default().push(o);
        }
        let mut ps: Vec<_> = by.into_iter().collect();
        self.s.shuffle(&mut ps);
        for (i, (p, os)) in ps.iter().enumerate() {
            if i > 0 {
                self.o.push_str(" ;");
                self.ows();
                if self.s.chance(1, 6) {
                    self.o.push_str(";\n");
                }
            }
            self.pred(p);
            self.ws();
            for (j, o) in os.iter().enumerate() {
                if j > 0 {
                    if self.s.chance(1, 4) {
                        self.o.push_str(" ; ");
                        self.pred(p);
                        self.ws();
                    } else {
                        self.o.push_str(" ,");
                        self.ows();
                    }
                }
                self.obj(o);
            }
        }
        if !ps.is_empty() && self.s.chance(1, 6) {
            self.o.push_str(" ; ");
        }
    }
    fn pred(&mut self, p: &str) {
        if p == format!("{RDF}type") && self.s.chance(3, 4) {
            self.o.push('a');
        } else {
            self.iri(p);
        }
    }
    fn obj(&mut self, o: &T) {
        if self.inline.contains(o) && self.done.insert(o.clone()) {
            let ts = self.g.out(o);
            if let Some(items) = self.list(o) {
                self.o.push('(');
                self.ows();
                for i in &items {
                    self.obj(i);
                    self.ws();
                }
                self.o.push(')');
                return;
            }
            self.o.push('[');
            self.ows();
            self.po(&ts);
            self.o.push(']');
            return;
        }
        if *o == T::iri(format!("{RDF}nil")) && self.s.flip() {
            self.o.push_str(self.s.picks(&["()", "( )"]));
            return;
        }
        self.term(o);
    }
    /// The items of a list all whose cells can be written inline.
    fn list(&mut self, o: &T) -> Option<Vec<T>> {
        let (mut items, mut cells, mut cur) = (vec![], vec![], o.clone());
        if !self.s.chance(4, 5) {
            return None;
        }
        let nil = T::iri(format!("{RDF}nil"));
        while cur != nil {
            let (f, r) = (self.g.objs(&cur, &format!("{RDF}first")), self.g.objs(&cur, &format!("{RDF}rest")));
            if f.len() != 1 || r.len() != 1 || self.g.out(&cur).len() != 2 || (cur != *o && !self.inline.contains(&cur)) {
                return None;
            }
            // the rest of a list may not be written in two ways
            if f[0] == r[0] {
                return None;
            }
            cells.push(cur);
            items.push(f[0].clone());
            cur = r[0].clone();
        }
        self.done.extend(cells);
        Some(items)
    }
    fn rel(&mut self, i: &str) -> Option<String> {
        if !i.starts_with("http://") {
            return None;
        }
        let rest = i.strip_prefix(&self.base)?;
        // a first segment with a colon would be a scheme
        if rest.is_empty() || rest.split('/').next().is_some_and(|x| x.contains(':')) {
            let path = i.strip_prefix("http://")?.split_once('/')?.1;
            let host = self.base.strip_prefix("http://")?.split_once('/')?.0;
            return i.strip_prefix(&format!("http://{host}")).map(|_| format!("/{path}"));
        }
        Some(match self.s.below(4) {
            0 => format!("./{rest}"),
            1 if self.base.ends_with("/d/") => format!("../d/{rest}"),
            2 => i.strip_prefix("http:").unwrap().to_string(),
            _ => rest.to_string(),
        })
    }
    fn iri(&mut self, i: &str) {
        let mut cands: Vec<(String, String)> = vec![];
        for (a, n) in &self.pm {
            if let Some(l) = i.strip_prefix(n.as_str()) {
                cands.push((a.clone(), l.to_string()));
            }
        }
        if !cands.is_empty() && self.s.chance(2, 3) {
            let (a, l) = self.s.picks(&cands);
            if let Some(l) = pn_local(&l, self.s) {
                self.o.push_str(&format!("{a}:{l}"));
                return;
            }
        }
        let t = if self.s.flip() { self.rel(i) } else { None }.unwrap_or_else(|| i.to_string());
        let t = escape_iri(&t, self.s);
        self.o.push_str(&format!("<{t}>"));
    }
    fn term(&mut self, t: &T) {
        match t {
            T::Iri(i) => self.iri(i),
            T::B(b) => self.o.push_str(&format!("_:{b}")),
            T::L { lex, dt, lang } => {
                let d = dt.strip_prefix(XSD).unwrap_or("");
                let digits = |x: &str| x.chars().all(|c| c.is_ascii_digit());
                let u = lex.trim_start_matches(['+', '-']);
                let signed = lex.len() - u.len() <= 1;
                let abbr = signed
                    && match d {
                        "integer" => !u.is_empty() && digits(u),
                        "decimal" => u.split_once('.').is_some_and(|(a, b)| digits(a) && digits(b) && !b.is_empty()),
                        "double" => u.split_once(['e', 'E']).is_some_and(|(m, e)| {
                            let e = e.strip_prefix(['+', '-']).unwrap_or(e);
                            let (a, b) = m.split_once('.').unwrap_or((m, ""));
                            !e.is_empty() && digits(e) && digits(a) && digits(b) && !(a.is_empty() && b.is_empty())
                        }),
                        "boolean" => lex == "true" || lex == "false",
                        _ => false,
                    };
                if abbr && self.s.chance(3, 4) {
                    self.o.push_str(lex);
                    return;
                }
                let q = string(lex, self.s);
                self.o.push_str(&q);
                match lang {
                    Some(l) => self.o.push_str(&format!("@{l}")),
                    None if d == "string" && self.s.chance(4, 5) => {}
                    None => {
                        self.o.push_str("^^");
                        self.iri(dt);
                    }
                }
            }
        }
    }
}
fn uchar(c: char, s: &mut Src) -> String {
    if (c as u32) < 0x10000 && s.flip() {
        format!("\\u{:04X}", c as u32)
    } else {
        format!("\\U{:08x}", c as u32)
    }
}
fn escape_iri(i: &str, s: &mut Src) -> String {
    if !s.chance(1, 8) {
        return i.to_string();
    }
    i.chars().map(|c| if s.chance(1, 6) && (c.is_alphanumeric()) { uchar(c, s) } else { c.to_string() }).collect()
}
/// One of the four kinds of quoted strings of Turtle.
pub fn string(lex: &str, s: &mut Src) -> String {
    let q = s.picks(&["\"", "'", "\"\"\"", "'''"]);
    let long = q.len() == 3;
    let qc = q.chars().next().unwrap();
    let mut o = String::from(q);
    let cs: Vec<char> = lex.chars().collect();
    for (i, &c) in cs.iter().enumerate() {
        let esc = match c {
            '\\' => true,
            // in a long string, one or two quotes not at the end need no escape
            c if c == qc => !(long && i + 1 < cs.len() && cs[i + 1] != qc && (i == 0 || cs[i - 1] != qc) && s.flip()),
            '\n' => !long || s.flip(),
            '\r' => true,
            _ => false,
        };
        if esc || s.chance(1, 40) {
            match c {
                '\n' => o.push_str("\\n"),
                '\r' => o.push_str("\\r"),
                '\t' => o.push_str("\\t"),
                '\u{8}' => o.push_str("\\b"),
                '\u{c}' => o.push_str("\\f"),
                '"' | '\'' | '\\' => {
                    o.push('\\');
                    o.push(c);
                }
                c => o.push_str(&uchar(c, s)),
            }
        } else {
            o.push(c);
        }
    }
    o.push_str(q);
    o
}

fn xml(t: &str) -> String {
    let mut o = String::new();
    for c in t.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' => o.push_str("&quot;"),
            '\r' => o.push_str("&#xD;"),
            '\n' => o.push_str("&#xA;"),
            '\t' => o.push_str("&#x9;"),
            c => o.push(c),
        }
    }
    o
}
fn qname(p: &str) -> Option<(&str, &str)> {
    let i = p.rfind(['/', '#'])? + 1;
    let (n, l) = p.split_at(i);
    let ok = l.chars().next().is_some_and(|c| c.is_alphabetic() || c == '_') && l.chars().all(|c| c.is_alphanumeric() || "_-.".contains(c));
    ok.then_some((n, l))
}
fn rel_to(i: &str, base: &str, s: &mut Src) -> String {
    match i.strip_prefix(base) {
        Some(r) if !r.is_empty() && !r.contains(':') && s.flip() => r.to_string(),
        _ => i.to_string(),
    }
}
/// RDF/XML with typed nodes, property attributes, nested nodes, xml:base and rdf:ID avoided.
pub fn rdf_xml(s: &mut Src, g: &G, base: &str) -> Option<String> {
    let mut o = format!("<?xml version=\"1.0\"?>\n<rdf:RDF xmlns:rdf=\"{RDF}\"");
    let mut base = base.to_string();
    if s.chance(1, 4) {
        base = "http://base.org/d/".into();
        o.push_str(&format!(" xml:base=\"{base}\""));
    }
    o.push_str(">\n");
    let subs: BTreeSet<&T> = g.ts.iter().map(|t| &t.0).collect();
    for sub in subs {
        let mut ts = g.out(sub);
        s.shuffle(&mut ts);
        // a typed node element
        let ty = ts.iter().position(|(p, o)| **p == format!("{RDF}type") && matches!(o, T::Iri(i) if qname(i).is_some()));
        let (open, close) = match ty {
            Some(i) if s.flip() => {
                let T::Iri(c) = ts.remove(i).1 else { unreachable!() };
                let (n, l) = qname(c)?;
                (format!("<t:{l} xmlns:t=\"{}\"", xml(n)), format!("</t:{l}>\n"))
            }
            _ => ("<rdf:Description".into(), "</rdf:Description>\n".into()),
        };
        o.push_str(&open);
        match sub {
            T::Iri(i) => o.push_str(&format!(" rdf:about=\"{}\"", xml(&rel_to(i, &base, s)))),
            T::B(b) => o.push_str(&format!(" rdf:nodeID=\"{b}\"")),
            _ => return None,
        }
        o.push_str(">\n");
        for (p, ob) in ts {
            let (n, l) = qname(p)?;
            let el = format!("v:{l}");
            o.push_str(&format!("<{el} xmlns:v=\"{}\"", xml(n)));
            match ob {
                T::Iri(i) => o.push_str(&format!(" rdf:resource=\"{}\"/>\n", xml(&rel_to(i, &base, s)))),
                T::B(b) => o.push_str(&format!(" rdf:nodeID=\"{b}\"/>\n")),
                T::L { lex, dt, lang } => {
                    match lang {
                        Some(l) => o.push_str(&format!(" xml:lang=\"{l}\"")),
                        None if *dt == xsd("string") => {}
                        None => o.push_str(&format!(" rdf:datatype=\"{}\"", xml(dt))),
                    }
                    o.push_str(&format!(">{}</{el}>\n", xml(lex)));
                }
            }
        }
        o.push_str(&close);
    }
    o.push_str("</rdf:RDF>\n");
    Some(o)
}
/// JSON-LD: flattened or nested node objects, with a context.
pub fn json_ld(s: &mut Src, g: &G, base: &str) -> String {
    use serde_json::{Map, Value, json};
    let mut ctx = Map::new();
    let mut base = base.to_string();
    if s.chance(1, 4) {
        base = "http://base.org/d/".into();
        ctx.insert("@base".into(), json!(base));
    }
    let pfx = s.flip();
    if pfx {
        ctx.insert("ex".into(), json!("http://e.org/"));
    }
    let iri = |i: &str, s: &mut Src| -> String {
        if pfx && s.flip() && i.starts_with("http://e.org/") && !i["http://e.org/".len()..].starts_with("//") {
            return format!("ex:{}", &i["http://e.org/".len()..]);
        }
        rel_to(i, &base, s)
    };
    let key = |i: &str, s: &mut Src| if pfx && s.flip() && i.starts_with("http://e.org/") { format!("ex:{}", &i["http://e.org/".len()..]) } else { i.to_string() };
    let mut nodes = vec![];
    for sub in g.ts.iter().map(|t| &t.0).collect::<BTreeSet<_>>() {
        let mut n = Map::new();
        n.insert(
            "@id".into(),
            json!(match sub {
                T::Iri(i) => iri(i, s),
                T::B(b) => format!("_:{b}"),
                _ => unreachable!(),
            }),
        );
        for (p, o) in g.out(sub) {
            if *p == format!("{RDF}type") && !o.is_lit() {
                let v = match o {
                    T::Iri(i) => key(i, s),
                    T::B(b) => format!("_:{b}"),
                    _ => unreachable!(),
                };
                let e = n.entry("@type").or_insert_with(|| json!([]));
                e.as_array_mut().unwrap().push(json!(v));
                continue;
            }
            let v = match o {
                T::Iri(i) => json!({"@id": iri(i, s)}),
                T::B(b) => json!({"@id": format!("_:{b}")}),
                T::L { lex, lang: Some(l), .. } => json!({"@value": lex, "@language": l}),
                T::L { lex, dt, .. } => {
                    let d = dt.strip_prefix(XSD).unwrap_or("");
                    match d {
                        "string" if s.flip() => json!(lex),
                        "string" => json!({"@value": lex}),
                        "boolean" if (lex == "true" || lex == "false") && s.flip() => json!(lex == "true"),
                        "integer" if lex.parse::<i64>().is_ok_and(|i| i.to_string() == *lex) && s.flip() => json!(lex.parse::<i64>().unwrap()),
                        _ => json!({"@value": lex, "@type": key(dt, s)}),
                    }
                }
            };
            let k = key(p, s);
            match n.get_mut(&k) {
                Some(Value::Array(a)) => a.push(v),
                Some(x) => {
                    let y = x.take();
                    *x = json!([y, v]);
                }
                None => {
                    let w = if s.flip() { json!([v]) } else { v };
                    n.insert(k, w);
                }
            }
        }
        nodes.push(Value::Object(n));
    }
    s.shuffle(&mut nodes);
    let doc = if ctx.is_empty() && s.flip() { json!(nodes) } else { json!({"@context": ctx, "@graph": nodes}) };
    doc.to_string()
}
/// N-Triples, or N-Quads with some statements in named graphs.
pub fn lines(s: &mut Src, g: &G, quads: bool) -> String {
    let mut v: Vec<String> = g
        .ts
        .iter()
        .map(|(a, p, o)| {
            let gr = if quads && s.chance(1, 3) { s.picks(&[" <http://g.org/1>", " _:gg"]) } else { "" };
            format!("{} <{p}> {}{gr} .", a.nt(), o.nt())
        })
        .collect();
    s.shuffle(&mut v);
    let mut o = String::new();
    for l in v {
        if s.chance(1, 10) {
            o.push_str("# comment\n\n");
        }
        o.push_str(&l);
        o.push_str(if s.chance(1, 8) { " # c\n" } else { "\n" });
    }
    o
}
