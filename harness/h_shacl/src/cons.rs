//! SPARQL constraints: queries over a few templates, their texts and their reference results.
use crate::genr::{CANON, pred};
use crate::model::*;
use common::Src;
use hlib::*;
use std::cmp::Ordering;
use std::collections::BTreeSet;

/// A condition on one term; evaluated with errors.
#[derive(Clone, Debug, PartialEq)]
pub enum Cond {
    Iri,
    Blank,
    Literal,
    Same(T),
    Lang(String),
    Datatype(String),
    Longer(usize),
    Less(T),
    Greater(T),
    Not(Box<Cond>),
    And(Box<Cond>, Box<Cond>),
    Or(Box<Cond>, Box<Cond>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    /// $this path ?value, with a condition on the value
    Match(Path, Option<Cond>),
    /// $this ?path ?value
    Any(Option<Cond>),
    /// no value, or some value, fulfils the condition
    Exists(bool, Path, Option<Cond>),
    Union(Path, Option<Cond>, Path, Option<Cond>),
    /// values with an arc back to the focus node
    Back(Path, String),
    /// values without an arc back
    NoBack(Path, String),
    /// the values as strings
    Str(Path),
    /// more than so many values
    Count(String, usize),
    /// a condition on the focus node
    This(Cond),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Sq {
    pub body: Body,
    pub text: String,
    /// sh:message of the constraint
    pub message: Option<T>,
    /// value of ?message
    pub bound: Option<T>,
    pub deactivated: bool,
    /// prefixes declared by ontologies: their names, and the index of the ontology
    pub prefixes: Vec<(String, String, usize)>,
    /// the ontology that is referred to, and what each ontology imports
    pub imports: Vec<(usize, usize)>,
}
pub struct Row {
    pub value: Option<T>,
    pub path: Option<Path>,
}

fn cond(c: &Cond, t: &T) -> Option<bool> {
    Some(match c {
        Cond::Iri => t.is_iri(),
        Cond::Blank => t.is_b(),
        Cond::Literal => t.is_lit(),
        Cond::Same(x) => t == x,
        Cond::Lang(l) => match t {
            T::L { lang, .. } => lang.clone().unwrap_or_default().to_lowercase() == *l,
            _ => return None,
        },
        Cond::Datatype(d) => match t {
            T::L { dt, .. } => dt == d,
            _ => return None,
        },
        Cond::Longer(n) => match t {
            T::B(_) => return None,
            T::Iri(s) | T::L { lex: s, .. } => s.chars().count() > *n,
        },
        Cond::Less(x) => compare(t, x)? == Ordering::Less,
        Cond::Greater(x) => compare(t, x)? == Ordering::Greater,
        Cond::Not(a) => !cond(a, t)?,
        Cond::And(a, b) => match (cond(a, t), cond(b, t)) {
            (Some(false), _) | (_, Some(false)) => false,
            (Some(true), Some(true)) => true,
            _ => return None,
        },
        Cond::Or(a, b) => match (cond(a, t), cond(b, t)) {
            (Some(true), _) | (_, Some(true)) => true,
            (Some(false), Some(false)) => false,
            _ => return None,
        },
    })
}
fn holds(c: &Option<Cond>, t: &T) -> bool {
    c.as_ref().is_none_or(|c| cond(c, t) == Some(true))
}
fn nullable(p: &Path) -> bool {
    match p {
        Path::P(_) => false,
        Path::Inv(q) | Path::Plus(q) => nullable(q),
        Path::Star(_) | Path::Opt(_) => true,
        Path::Seq(ps) => ps.iter().all(nullable),
        Path::Alt(ps) => ps.iter().any(nullable),
    }
}
/// Solutions of the query for a focus node.
pub fn rows(g: &G, q: &Sq, x: &T) -> Vec<Row> {
    if q.deactivated {
        return vec![];
    }
    if x.is_b() {
        BLANK.set(true);
        return vec![];
    }
    let values = |p: &Path, c: &Option<Cond>| -> Vec<T> {
        // paths of length zero from nodes outside of the graph
        if nullable(p) && !g.nodes().contains(x) {
            OPEN.set(true);
        }
        eval_path(g, x, p).into_iter().filter(|v| holds(c, v)).collect()
    };
    let rows = |vs: Vec<T>| -> Vec<Row> { vs.into_iter().map(|v| Row { value: Some(v), path: None }).collect() };
    let one = |b: bool| -> Vec<Row> { if b { vec![Row { value: None, path: None }] } else { vec![] } };
    match &q.body {
        Body::Match(p, c) => rows(values(p, c)),
        Body::Any(c) => g
            .out(x)
            .into_iter()
            .filter(|(_, v)| holds(c, v))
            .map(|(p, v)| Row { value: Some(v.clone()), path: Some(Path::P(p.clone())) })
            .collect(),
        Body::Exists(yes, p, c) => one(*yes != values(p, c).is_empty()),
        Body::Union(p, c, r, d) => rows([values(p, c), values(r, d)].concat()),
        Body::Back(p, r) => rows(values(p, &None).into_iter().filter(|v| g.has(v, r, x)).collect()),
        Body::NoBack(p, r) => rows(values(p, &None).into_iter().filter(|v| !g.has(v, r, x)).collect()),
        Body::Str(p) => rows(
            values(p, &None)
                .into_iter()
                .map(|v| match v {
                    T::B(_) => T::str("a blank node"),
                    T::Iri(s) | T::L { lex: s, .. } => T::str(s),
                })
                .collect(),
        ),
        Body::Count(p, n) => one(g.objs(x, p).into_iter().collect::<BTreeSet<_>>().len() > *n),
        Body::This(c) => one(cond(c, x) == Some(true)),
    }
}
thread_local! {
    /// Set when the focus node of a SPARQL constraint is a blank node.
    pub static BLANK: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

// ---------------------------------------------------------------- generation

fn gen_cond(s: &mut Src, depth: usize) -> Cond {
    match s.weighted(&[2, 1, 2, 3, 2, 2, 2, 2, 2, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
        0 => Cond::Iri,
        1 => Cond::Blank,
        2 => Cond::Literal,
        3 => Cond::Same(match crate::genr::term(s) {
            T::B(_) => T::ex("n1"),
            T::L { lex, lang: Some(l), .. } => T::lang(lex, &l.to_lowercase()),
            t => t,
        }),
        4 => Cond::Lang(s.pick(&["en", "fr", ""]).to_string()),
        5 => Cond::Datatype(xsd(*s.pick(&["integer", "string", "decimal", "boolean"]))),
        6 => Cond::Longer(s.below(4)),
        7 => Cond::Less(crate::genr::number(s)),
        8 => Cond::Greater(crate::genr::number(s)),
        9 => Cond::Not(Box::new(gen_cond(s, depth - 1))),
        10 => Cond::And(Box::new(gen_cond(s, depth - 1)), Box::new(gen_cond(s, depth - 1))),
        _ => Cond::Or(Box::new(gen_cond(s, depth - 1)), Box::new(gen_cond(s, depth - 1))),
    }
}
fn maybe(s: &mut Src) -> Option<Cond> {
    if s.flip() { Some(gen_cond(s, 2)) } else { None }
}
/// How the parts of a query are written.
struct Txt {
    upper: bool,
    prefix: Option<String>,
    this: [&'static str; 2],
    n: usize,
    dollar: Option<Path>,
}
impl Txt {
    fn kw(&self, k: &str) -> String {
        if self.upper { k.to_string() } else { k.to_lowercase() }
    }
    fn this(&mut self) -> &'static str {
        self.n += 1;
        self.this[self.n % 2]
    }
    fn iri(&self, i: &str) -> String {
        match &self.prefix {
            Some(p) if i.starts_with(EX) => format!("{p}:{}", &i[EX.len()..]),
            _ => format!("<{i}>"),
        }
    }
    fn term(&self, t: &T) -> String {
        match t {
            T::Iri(i) => self.iri(i),
            t => t.nt(),
        }
    }
    fn path(&self, p: &Path) -> String {
        let list = |ps: &[Path], sep: &str| format!("({})", ps.iter().map(|p| self.path(p)).collect::<Vec<_>>().join(sep));
        match p {
            Path::P(i) => self.iri(i),
            Path::Inv(q) => format!("^({})", self.path(q)),
            Path::Seq(ps) => list(ps, "/"),
            Path::Alt(ps) => list(ps, "|"),
            Path::Star(q) => format!("({})*", self.path(q)),
            Path::Plus(q) => format!("({})+", self.path(q)),
            Path::Opt(q) => format!("({})?", self.path(q)),
        }
    }
    fn top(&self, s: &mut Src, p: &Path) -> String {
        if self.dollar.as_ref() == Some(p) && s.chance(3, 4) { "$PATH".into() } else { self.path(p) }
    }
    fn cond(&self, c: &Cond, v: &str) -> String {
        match c {
            Cond::Iri => format!("isIRI({v})"),
            Cond::Blank => format!("isBlank({v})"),
            Cond::Literal => format!("isLiteral({v})"),
            Cond::Same(t) => format!("sameTerm({v}, {})", self.term(t)),
            Cond::Lang(l) => format!("LCASE(LANG({v})) = \"{l}\""),
            Cond::Datatype(d) => format!("DATATYPE({v}) = <{d}>"),
            Cond::Longer(n) => format!("STRLEN(STR({v})) > {n}"),
            Cond::Less(t) => format!("{v} < {}", self.term(t)),
            Cond::Greater(t) => format!("{v}>{}", self.term(t)),
            Cond::Not(a) => format!("!({})", self.cond(a, v)),
            Cond::And(a, b) => format!("({}) && ({})", self.cond(a, v), self.cond(b, v)),
            Cond::Or(a, b) => format!("({}) || ({})", self.cond(a, v), self.cond(b, v)),
        }
    }
    fn filter(&self, c: &Option<Cond>, v: &str) -> String {
        c.as_ref().map(|c| format!(" {}({})", self.kw("FILTER"), self.cond(c, v))).unwrap_or_default()
    }
}
/// Constraint of a node shape or of a property shape with a path.
pub fn constraint(s: &mut Src, own: &Option<Path>, depth: usize) -> Comp {
    debug_assert!(CANON.get());
    let path = |s: &mut Src| match own {
        Some(p) if s.chance(3, 4) => p.clone(),
        _ => crate::genr::path(s, depth),
    };
    let node = own.is_none() as u64;
    let body = match s.weighted(&[5, 2, 2 * node, 3, 3, 2, 2, 2 * node, 2 * node, 2 * node]) {
        0 => Body::Match(path(s), maybe(s)),
        1 => Body::Any(maybe(s)),
        2 => Body::Exists(false, path(s), maybe(s)),
        3 => Body::Union(path(s), maybe(s), path(s), maybe(s)),
        4 => Body::Back(path(s), pred(s)),
        5 => Body::NoBack(path(s), pred(s)),
        6 => Body::Str(path(s)),
        7 => Body::Count(pred(s), s.below(3)),
        8 => Body::Exists(true, path(s), maybe(s)),
        _ => Body::This(gen_cond(s, 2)),
    };
    let mut prefixes = vec![];
    let mut imports = vec![];
    let mut prologue = String::new();
    let prefix = match s.weighted(&[3, 3, 1]) {
        0 => None,
        1 => {
            let p = s.pick(&["ex", "", "where"]).to_string();
            let home = s.below(3);
            prefixes.push((p.clone(), EX.to_string(), home));
            if s.flip() {
                prefixes.push(("other".into(), "http://other.org/#".into(), s.below(3)));
            }
            // cycles of imports are harmless
            imports.extend((1..=home.max(prefixes.last().map_or(0, |p| p.2))).map(|i| (i - 1, i)));
            if !imports.is_empty() && s.flip() {
                imports.push((1, 0));
            }
            Some(p)
        }
        _ => {
            prologue = format!("{} e: <{EX}>\n", if s.flip() { "PREFIX" } else { "prefix" });
            Some("e".to_string())
        }
    };
    let mut t = Txt { upper: s.chance(2, 3), prefix, this: [*s.pick(&["$this", "?this"]), *s.pick(&["$this", "?this"])], n: 0, dollar: own.clone() };
    let v = *s.pick(&["?value", "$value"]);
    let aux = *s.pick(&["?o", "?somewhere", "?where_it_is", "?straße", "?valuesx", "?values"]);
    let sp = *s.pick(&["", " ", "\n  "]);
    let dot = *s.pick(&[" .", " . "]);
    let (w, x) = (t.kw("FILTER"), t.kw("OPTIONAL"));
    // comments and strings with things that look like parts of a query
    let note = *s.pick(&["", "", "", " # where { ?x\n", "\n# it's } <here\n", "# SELECT \"{\n"]);
    let noop = match s.below(8) {
        0 => format!(" {w}(\"where {{ }} }}\" != \"SELECT\")"),
        1 => format!(" {w}('it\\'s {{' != \"\"\"a\" {{ b\"\"\")"),
        2 => format!(" {w}(1 < 2 && 3 > 2)"),
        3 => format!(" {} ?k {{ 1 }}", t.kw("VALUES")),
        4 => format!(" {} (?k ?l) {{ (1 UNDEF) }}", t.kw("VALUES")),
        5 => format!(" {w}(?this != <http://e.org/where>)"),
        _ => String::new(),
    };
    let tp = |t: &mut Txt, p: String, o: &str| format!("{} {p} {o}{dot}", t.this());
    let mut project = format!("{} {v}", t.this());
    let inner = match &body {
        Body::Match(p, c) => {
            let p = t.top(s, p);
            let f = t.filter(c, v);
            let m = tp(&mut t, p, v);
            match s.below(3) {
                0 => format!("{m}{f}"),
                1 => format!("{{{sp}{m}{f} }}"),
                // the condition in a group of its own
                _ => format!("{{{note} {m} }}{f}"),
            }
        }
        Body::Any(c) => {
            project += " ?path";
            format!("{}{}", tp(&mut t, "?path".into(), v), t.filter(c, v))
        }
        Body::Exists(yes, p, c) => {
            project = t.this().to_string();
            let p = t.top(s, p);
            let not = if *yes { String::new() } else { format!("{} ", t.kw("NOT")) };
            let e = t.kw("EXISTS");
            let f = t.filter(c, aux);
            format!("{w} {not}{e} {{{sp}{}{f} }}", tp(&mut t, p, aux))
        }
        Body::Union(p, c, q, d) => {
            let (p, q) = (t.top(s, p), t.top(s, q));
            let (f, g) = (t.filter(c, v), t.filter(d, v));
            let u = t.kw("UNION");
            format!("{{{sp}{}{f} }}{sp}{u}{sp}{{{} {g}}}", tp(&mut t, p, v), tp(&mut t, q, v))
        }
        Body::Back(p, q) => {
            let p = t.top(s, p);
            let q = t.iri(q);
            let m = tp(&mut t, p, v);
            match s.below(3) {
                0 => format!("{m} {v} {q} {}", t.this()),
                1 => format!("{m} {{ {v} {q} {aux}{dot} {w}(sameTerm({aux}, {})) }}", t.this()),
                _ => format!("{m} {w} {} {{ {v} {q} {aux}{dot} {w}(sameTerm({aux}, {})) }}", t.kw("EXISTS"), t.this()),
            }
        }
        Body::NoBack(p, q) => {
            let p = t.top(s, p);
            let q = t.iri(q);
            let m = tp(&mut t, p, v);
            match s.below(2) {
                0 => format!("{m} {x} {{ {v} {q} {aux}{dot} {w}(sameTerm({aux}, {})) }} {w}(!BOUND({aux}))", t.this()),
                _ => format!("{m} {w} {} {{ {v} {q} {} }}", t.kw("NOT EXISTS"), t.this()),
            }
        }
        Body::Str(p) => {
            let p = t.top(s, p);
            let e = format!("IF(isBlank({aux}), \"a blank node\", STR({aux}))");
            let m = tp(&mut t, p, aux);
            if s.flip() {
                project = format!("{} ({e} AS {v})", t.this());
                m
            } else {
                format!("{m} {}({e} AS {v})", t.kw("BIND"))
            }
        }
        Body::Count(p, n) => {
            project = t.this().to_string();
            let p = t.iri(p);
            let (sel, group) = (t.kw("SELECT"), t.kw("GROUP BY"));
            let wh = if s.flip() { t.kw("WHERE") } else { String::new() };
            let m = tp(&mut t, p, aux);
            if s.flip() {
                format!("{{{sp}{sel} {} (COUNT(DISTINCT {aux}) AS ?n) {wh} {{ {m} }} {group} {} }}{sp}{w}(?n > {n})", t.this(), t.this())
            } else {
                format!("{{{note}\n {sel} {} {wh} {{ {m} }} {group} {} {} (COUNT(*) > {n}) }}", t.this(), t.this(), t.kw("HAVING"))
            }
        }
        Body::This(c) => {
            project = t.this().to_string();
            let v = t.this();
            let f = t.cond(c, v);
            if s.flip() { format!("{w}({f})") } else { format!("{{ {w}({f}) }}") }
        }
    };
    let bound = match s.below(5) {
        0 => Some(T::str("a \"bound\" message")),
        1 => Some(T::lang("message", "en")),
        _ => None,
    };
    if let Some(m) = &bound {
        project += &format!(" ({} AS ?message)", m.nt());
    }
    let distinct = if s.chance(1, 4) { format!("{} ", t.kw("DISTINCT")) } else { String::new() };
    let wh = if s.chance(2, 3) { t.kw("WHERE") } else { String::new() };
    let sel = t.kw("SELECT");
    let text = format!("{prologue}{sel} {distinct}{project} {wh}{note}{{{sp}{inner}{noop}{sp}}}");
    let message = if s.chance(1, 3) { Some(if s.flip() { T::str("own message") } else { T::lang("eigene", "de") }) } else { None };
    Comp::Sparql(Box::new(Sq { body, text, message, bound, deactivated: s.chance(1, 12), prefixes, imports }))
}

// ---------------------------------------------------------------- reifiers

thread_local! {
    /// Reifiers with the triples that they reify.
    pub static REIF: std::cell::RefCell<Vec<(T, (T, String, T))>> = const { std::cell::RefCell::new(vec![]) };
}
pub fn reifiers(t: &(T, String, T)) -> BTreeSet<T> {
    REIF.with_borrow(|r| r.iter().filter(|(_, x)| x == t).map(|(r, _)| r.clone()).collect())
}
pub fn is_reifier(x: &T) -> bool {
    REIF.with_borrow(|r| r.iter().any(|(y, _)| x == y))
}
pub fn reif_lines() -> String {
    REIF.with_borrow(|r| r.iter().map(|(r, (s, p, o))| format!("{} <{RDF}reifies> <<( {} <{p}> {} )>> .\n", r.nt(), s.nt(), o.nt())).collect())
}
