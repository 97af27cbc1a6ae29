//! Model of SHACL Core shapes graphs and the reference semantics.
use hlib::lit::*;
use hlib::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Path {
    P(String),
    Inv(Box<Path>),
    Seq(Vec<Path>),
    Alt(Vec<Path>),
    Star(Box<Path>),
    Plus(Box<Path>),
    Opt(Box<Path>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Comp {
    Class(String),
    Datatype(String),
    NodeKind(&'static str),
    MinCount(usize),
    MaxCount(usize),
    /// minInclusive, minExclusive, maxInclusive, maxExclusive
    Range(&'static str, T),
    MinLength(usize),
    MaxLength(usize),
    Pattern(usize),
    LanguageIn(Vec<String>),
    UniqueLang(bool),
    Equals(String),
    Disjoint(String),
    LessThan(String),
    LessThanOrEquals(String),
    Not(usize),
    And(Vec<usize>),
    Or(Vec<usize>),
    Xone(Vec<usize>),
    Node(usize),
    Property(usize),
    Qualified { shape: usize, min: Option<usize>, max: Option<usize>, disjoint: bool },
    Closed(Vec<String>),
    HasValue(T),
    In(Vec<T>),
    Sparql(Box<crate::cons::Sq>),
    /// sh:reifierShape, and whether reifiers are required
    Reifier(usize, bool),
}
#[derive(Clone, Debug)]
pub enum Target {
    Node(T),
    Class(String),
    SubjectsOf(String),
    ObjectsOf(String),
    Implicit,
}
#[derive(Clone, Debug)]
pub struct Shape {
    pub id: T,
    pub path: Option<Path>,
    pub comps: Vec<Comp>,
    pub targets: Vec<Target>,
    pub severity: Option<String>,
    pub deactivated: bool,
    pub typed: bool,
    pub message: Option<T>,
}
#[derive(Clone, Debug, Default)]
pub struct Schema {
    pub shapes: Vec<Shape>,
}
/// One validation result.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Res {
    pub focus: T,
    pub path: Option<Path>,
    pub value: Option<T>,
    pub component: String,
    pub source: Option<T>,
    pub severity: String,
}

// ---------------------------------------------------------------- to RDF

pub struct W {
    pub g: G,
    n: usize,
}
impl W {
    fn b(&mut self) -> T {
        self.n += 1;
        T::b(&format!("z{}", self.n))
    }
    fn list(&mut self, xs: Vec<T>) -> T {
        let mut rest = T::iri(format!("{RDF}nil"));
        for x in xs.into_iter().rev() {
            let b = self.b();
            self.g.add(b.clone(), &format!("{RDF}first"), x);
            self.g.add(b.clone(), &format!("{RDF}rest"), rest);
            rest = b;
        }
        rest
    }
    fn path(&mut self, p: &Path) -> T {
        let (k, o) = match p {
            Path::P(i) => return T::iri(i.clone()),
            Path::Seq(ps) => {
                let ts = ps.iter().map(|p| self.path(p)).collect();
                return self.list(ts);
            }
            Path::Alt(ps) => {
                let ts = ps.iter().map(|p| self.path(p)).collect();
                ("alternativePath", self.list(ts))
            }
            Path::Inv(p) => ("inversePath", self.path(p)),
            Path::Star(p) => ("zeroOrMorePath", self.path(p)),
            Path::Plus(p) => ("oneOrMorePath", self.path(p)),
            Path::Opt(p) => ("zeroOrOnePath", self.path(p)),
        };
        let b = self.b();
        self.g.add(b.clone(), &sh(k), o);
        b
    }
}
pub fn sh(s: &str) -> String {
    format!("{SH}{s}")
}
fn boolean(b: bool) -> T {
    T::typed(if b { "true" } else { "false" }, "boolean")
}

impl Schema {
    pub fn to_rdf(&self) -> G {
        let mut w = W { g: G::default(), n: 0 };
        let ty = format!("{RDF}type");
        for s in &self.shapes {
            let id = s.id.clone();
            if s.typed {
                w.g.add(id.clone(), &ty, T::iri(sh(if s.path.is_some() { "PropertyShape" } else { "NodeShape" })));
            }
            if let Some(p) = &s.path {
                let o = w.path(p);
                w.g.add(id.clone(), &sh("path"), o);
            }
            if s.deactivated {
                w.g.add(id.clone(), &sh("deactivated"), boolean(true));
            }
            if let Some(v) = &s.severity {
                w.g.add(id.clone(), &sh("severity"), T::iri(v.clone()));
            }
            if let Some(m) = &s.message {
                w.g.add(id.clone(), &sh("message"), m.clone());
            }
            for t in &s.targets {
                let (p, o) = match t {
                    Target::Node(n) => (sh("targetNode"), n.clone()),
                    Target::Class(c) => (sh("targetClass"), T::iri(c.clone())),
                    Target::SubjectsOf(p) => (sh("targetSubjectsOf"), T::iri(p.clone())),
                    Target::ObjectsOf(p) => (sh("targetObjectsOf"), T::iri(p.clone())),
                    Target::Implicit => (ty.clone(), T::iri(format!("{RDFS}Class"))),
                };
                w.g.add(id.clone(), &p, o);
            }
            for c in &s.comps {
                let id = id.clone();
                let sid = |i: &usize| self.shapes[*i].id.clone();
                match c {
                    Comp::Class(c) => w.g.add(id, &sh("class"), T::iri(c.clone())),
                    Comp::Datatype(c) => w.g.add(id, &sh("datatype"), T::iri(c.clone())),
                    Comp::NodeKind(k) => w.g.add(id, &sh("nodeKind"), T::iri(sh(k))),
                    Comp::MinCount(n) => w.g.add(id, &sh("minCount"), T::int(*n as i64)),
                    Comp::MaxCount(n) => w.g.add(id, &sh("maxCount"), T::int(*n as i64)),
                    Comp::Range(k, t) => w.g.add(id, &sh(k), t.clone()),
                    Comp::MinLength(n) => w.g.add(id, &sh("minLength"), T::int(*n as i64)),
                    Comp::MaxLength(n) => w.g.add(id, &sh("maxLength"), T::int(*n as i64)),
                    Comp::Pattern(i) => {
                        w.g.add(id.clone(), &sh("pattern"), T::str(PATTERNS[*i].0));
                        if !PATTERNS[*i].1.is_empty() {
                            w.g.add(id, &sh("flags"), T::str(PATTERNS[*i].1));
                        }
                    }
                    Comp::LanguageIn(ls) => {
                        let l = w.list(ls.iter().map(|l| T::str(l.clone())).collect());
                        w.g.add(id, &sh("languageIn"), l)
                    }
                    Comp::UniqueLang(b) => w.g.add(id, &sh("uniqueLang"), boolean(*b)),
                    Comp::Equals(p) => w.g.add(id, &sh("equals"), T::iri(p.clone())),
                    Comp::Disjoint(p) => w.g.add(id, &sh("disjoint"), T::iri(p.clone())),
                    Comp::LessThan(p) => w.g.add(id, &sh("lessThan"), T::iri(p.clone())),
                    Comp::LessThanOrEquals(p) => w.g.add(id, &sh("lessThanOrEquals"), T::iri(p.clone())),
                    Comp::Not(i) => w.g.add(id, &sh("not"), sid(i)),
                    Comp::And(v) | Comp::Or(v) | Comp::Xone(v) => {
                        let k = match c {
                            Comp::And(_) => "and",
                            Comp::Or(_) => "or",
                            _ => "xone",
                        };
                        let l = w.list(v.iter().map(sid).collect());
                        w.g.add(id, &sh(k), l)
                    }
                    Comp::Node(i) => w.g.add(id, &sh("node"), sid(i)),
                    Comp::Property(i) => w.g.add(id, &sh("property"), sid(i)),
                    Comp::Qualified { shape, min, max, disjoint } => {
                        w.g.add(id.clone(), &sh("qualifiedValueShape"), sid(shape));
                        if let Some(n) = min {
                            w.g.add(id.clone(), &sh("qualifiedMinCount"), T::int(*n as i64));
                        }
                        if let Some(n) = max {
                            w.g.add(id.clone(), &sh("qualifiedMaxCount"), T::int(*n as i64));
                        }
                        if *disjoint {
                            w.g.add(id, &sh("qualifiedValueShapesDisjoint"), boolean(true));
                        }
                    }
                    Comp::Closed(ig) => {
                        w.g.add(id.clone(), &sh("closed"), boolean(true));
                        if !ig.is_empty() {
                            let l = w.list(ig.iter().map(|p| T::iri(p.clone())).collect());
                            w.g.add(id, &sh("ignoredProperties"), l)
                        }
                    }
                    Comp::HasValue(t) => w.g.add(id, &sh("hasValue"), t.clone()),
                    Comp::In(ts) => {
                        let l = w.list(ts.clone());
                        w.g.add(id, &sh("in"), l)
                    }
                    Comp::Reifier(i, required) => {
                        w.g.add(id.clone(), &sh("reifierShape"), sid(i));
                        if *required {
                            w.g.add(id, &sh("reificationRequired"), boolean(true));
                        }
                    }
                    Comp::Sparql(q) => {
                        let b = w.b();
                        w.g.add(id, &sh("sparql"), b.clone());
                        w.g.add(b.clone(), &ty, T::iri(sh("SPARQLConstraint")));
                        w.g.add(b.clone(), &sh("select"), T::str(q.text.clone()));
                        if let Some(m) = &q.message {
                            w.g.add(b.clone(), &sh("message"), m.clone());
                        }
                        if q.deactivated {
                            w.g.add(b.clone(), &sh("deactivated"), boolean(true));
                        }
                        if !q.prefixes.is_empty() {
                            let onto: Vec<T> = (0..3).map(|i| if i == 1 { w.b() } else { T::iri(format!("{EX}onto{}-{i}", w.n)) }).collect();
                            w.g.add(b, &sh("prefixes"), onto[0].clone());
                            for (p, n, i) in &q.prefixes {
                                let d = w.b();
                                w.g.add(onto[*i].clone(), &sh("declare"), d.clone());
                                w.g.add(d.clone(), &sh("prefix"), T::str(p.clone()));
                                w.g.add(d, &sh("namespace"), T::typed(n.clone(), "anyURI"));
                            }
                            for (i, j) in &q.imports {
                                w.g.add(onto[*i].clone(), "http://www.w3.org/2002/07/owl#imports", onto[*j].clone());
                            }
                        }
                    }
                }
            }
        }
        w.g
    }
}

// ---------------------------------------------------------------- reference

pub fn eval_path(g: &G, x: &T, p: &Path) -> BTreeSet<T> {
    match p {
        Path::P(i) => g.objs(x, i).into_iter().collect(),
        Path::Inv(q) => g.nodes().into_iter().chain([x.clone()]).filter(|n| eval_path(g, n, q).contains(x)).collect(),
        Path::Seq(ps) => ps.iter().fold(BTreeSet::from([x.clone()]), |acc, p| acc.iter().flat_map(|n| eval_path(g, n, p)).collect()),
        Path::Alt(ps) => ps.iter().flat_map(|p| eval_path(g, x, p)).collect(),
        Path::Opt(q) => eval_path(g, x, q).into_iter().chain([x.clone()]).collect(),
        Path::Star(q) => closure(g, BTreeSet::from([x.clone()]), q),
        Path::Plus(q) => closure(g, eval_path(g, x, q), q),
    }
}
fn closure(g: &G, mut acc: BTreeSet<T>, q: &Path) -> BTreeSet<T> {
    loop {
        let more: BTreeSet<T> = acc.iter().flat_map(|n| eval_path(g, n, q)).filter(|n| !acc.contains(n)).collect();
        if more.is_empty() {
            return acc;
        }
        acc.extend(more);
    }
}
/// All subclasses of a class, itself included.
pub fn subclasses(g: &G, c: &T) -> BTreeSet<T> {
    closure(g, BTreeSet::from([c.clone()]), &Path::Inv(Box::new(Path::P(format!("{RDFS}subClassOf")))))
}
pub fn instances(g: &G, c: &T) -> BTreeSet<T> {
    subclasses(g, c).iter().flat_map(|c| g.subjs(&format!("{RDF}type"), c)).collect()
}
thread_local! {
    /// Set when the outcome depends on a comparison that SPARQL leaves to implementations.
    pub static OPEN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// Set when equal terms that are not comparable are tested with <=, or booleans or strings with language tags are compared.
    pub static OPEN_EQ: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// The SPARQL operators < and =; None when they raise an error.
pub fn compare(a: &T, b: &T) -> Option<Ordering> {
    let (T::L { lex: x, dt: d, lang: None }, T::L { lex: y, dt: e, lang: None }) = (a, b) else {
        return None;
    };
    let (Some(d), Some(e)) = (d.strip_prefix(XSD), e.strip_prefix(XSD)) else {
        if d == e {
            OPEN.set(true);
        }
        return None;
    };
    if is_numeric_dt(d) && is_numeric_dt(e) {
        if !valid_lexical(x, &xsd(d))? || !valid_lexical(y, &xsd(e))? {
            return None;
        }
        return num(x)?.partial_cmp(&num(y)?);
    }
    match (d, e) {
        ("string", "string") => Some(x.cmp(y)),
        ("boolean", "boolean") => {
            let v = |s: &str| match s {
                "true" | "1" => Some(true),
                "false" | "0" => Some(false),
                _ => None,
            };
            Some(v(x)?.cmp(&v(y)?))
        }
        ("dateTime", "dateTime") => {
            if !valid_lexical(x, &xsd(d))? || !valid_lexical(y, &xsd(e))? {
                return None;
            }
            // times that differ are days apart, so that the time zone only matters for equal ones
            let utc = |x: &str| x.replace("T11:00:00+01:00", "T10:00:00Z").replace("+00:00", "Z");
            let (x, y) = (utc(x), utc(y));
            let (u, v) = (x.trim_end_matches('Z'), y.trim_end_matches('Z'));
            if u == v && x != y { None } else { Some(u.cmp(v)) }
        }
        _ => None,
    }
}
/// Exact for the short numbers that are generated.
fn num(s: &str) -> Option<f64> {
    match s {
        "INF" => Some(f64::INFINITY),
        "-INF" => Some(f64::NEG_INFINITY),
        "NaN" => Some(f64::NAN),
        _ => dec(s).map(|v| v as f64),
    }
}
fn str_of(t: &T) -> Option<&str> {
    match t {
        T::Iri(i) => Some(i),
        T::L { lex, .. } => Some(lex),
        T::B(_) => None,
    }
}

impl Schema {
    fn siblings(&self, me: usize) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        let own: Vec<usize> = self.shapes[me].comps.iter().filter_map(|c| if let Comp::Qualified { shape, .. } = c { Some(*shape) } else { None }).collect();
        for p in &self.shapes {
            if p.comps.contains(&Comp::Property(me)) {
                for c in &p.comps {
                    if let Comp::Property(q) = c {
                        for c in &self.shapes[*q].comps {
                            if let Comp::Qualified { shape, .. } = c {
                                out.insert(*shape);
                            }
                        }
                    }
                }
            }
        }
        out.into_iter().filter(|s| !own.contains(s)).collect()
    }
    /// Whether judging some shape needs its own verdict, through the shapes of disjoint siblings.
    pub fn recursive(&self) -> bool {
        let n = self.shapes.len();
        let mut reach: Vec<BTreeSet<usize>> = (0..n)
            .map(|i| {
                let mut out = BTreeSet::new();
                for c in &self.shapes[i].comps {
                    match c {
                        Comp::Not(j) | Comp::Node(j) | Comp::Property(j) | Comp::Reifier(j, _) => {
                            out.insert(*j);
                        }
                        Comp::And(v) | Comp::Or(v) | Comp::Xone(v) => out.extend(v),
                        Comp::Qualified { shape, disjoint, .. } => {
                            out.insert(*shape);
                            if *disjoint {
                                out.extend(self.siblings(i));
                            }
                        }
                        _ => {}
                    }
                }
                out
            })
            .collect();
        for _ in 0..n {
            for i in 0..n {
                let more: BTreeSet<usize> = reach[i].iter().flat_map(|j| reach[*j].clone()).collect();
                reach[i].extend(more);
            }
        }
        (0..n).any(|i| reach[i].contains(&i))
    }
    pub fn conforms(&self, g: &G, s: usize, x: &T) -> bool {
        self.validate(g, s, x).is_empty()
    }
    pub fn validate(&self, g: &G, si: usize, x: &T) -> BTreeSet<Res> {
        let s = &self.shapes[si];
        let mut out = BTreeSet::new();
        if s.deactivated {
            return out;
        }
        let vn: BTreeSet<T> = match &s.path {
            None => BTreeSet::from([x.clone()]),
            Some(p) => eval_path(g, x, p),
        };
        let sev = s.severity.clone().unwrap_or(sh("Violation"));
        let mk = |component: &str, value: Option<&T>| Res {
            focus: x.clone(),
            path: s.path.clone(),
            value: value.cloned(),
            component: sh(&format!("{component}ConstraintComponent")),
            source: Some(s.id.clone()),
            severity: sev.clone(),
        };
        for c in &s.comps {
            // components decided value by value
            let per_value: Option<(&str, Box<dyn Fn(&T) -> bool + '_>)> = match c {
                Comp::Class(c) => {
                    let inst = instances(g, &T::iri(c.clone()));
                    Some(("Class", Box::new(move |v| !v.is_lit() && inst.contains(v))))
                }
                Comp::Datatype(d) => Some(("Datatype", Box::new(move |v| matches!(v, T::L { dt, lex, .. } if dt == d && valid_lexical(lex, dt).unwrap_or(true))))),
                Comp::NodeKind(k) => Some((
                    "NodeKind",
                    Box::new(move |v| match v {
                        T::Iri(_) => k.contains("IRI"),
                        T::B(_) => k.starts_with("BlankNode"),
                        T::L { .. } => k.contains("Literal"),
                    }),
                )),
                Comp::Range(k, b) => {
                    let n = match *k {
                        "minInclusive" => "MinInclusive",
                        "minExclusive" => "MinExclusive",
                        "maxInclusive" => "MaxInclusive",
                        _ => "MaxExclusive",
                    };
                    Some((
                        n,
                        Box::new(move |v| match compare(v, b) {
                            None => false,
                            Some(Ordering::Equal) => k.ends_with("Inclusive"),
                            Some(Ordering::Greater) => k.starts_with("min"),
                            Some(Ordering::Less) => k.starts_with("max"),
                        }),
                    ))
                }
                Comp::MinLength(n) => Some(("MinLength", Box::new(move |v| str_of(v).is_some_and(|s| s.chars().count() >= *n)))),
                Comp::MaxLength(n) => Some(("MaxLength", Box::new(move |v| str_of(v).is_some_and(|s| s.chars().count() <= *n)))),
                Comp::Pattern(i) => Some(("Pattern", Box::new(move |v| str_of(v).is_some_and(PATTERNS[*i].2)))),
                Comp::LanguageIn(ls) => Some((
                    "LanguageIn",
                    Box::new(move |v| {
                        matches!(v, T::L { lang: Some(t), .. } if ls.iter().any(|l| {
                            let (t, l) = (t.to_lowercase(), l.to_lowercase());
                            t == l || t.starts_with(&format!("{l}-"))
                        }))
                    }),
                )),
                Comp::Disjoint(p) => Some(("Disjoint", Box::new(move |v| !g.has(x, p, v)))),
                Comp::Not(i) => Some(("Not", Box::new(move |v| !self.conforms(g, *i, v)))),
                Comp::And(is) => Some(("And", Box::new(move |v| is.iter().all(|i| self.conforms(g, *i, v))))),
                Comp::Or(is) => Some(("Or", Box::new(move |v| is.iter().any(|i| self.conforms(g, *i, v))))),
                Comp::Xone(is) => Some(("Xone", Box::new(move |v| is.iter().filter(|i| self.conforms(g, **i, v)).count() == 1))),
                Comp::Node(i) => Some(("Node", Box::new(move |v| self.conforms(g, *i, v)))),
                Comp::In(ts) => Some(("In", Box::new(move |v| ts.contains(v)))),
                _ => None,
            };
            if let Some((n, ok)) = per_value {
                out.extend(vn.iter().filter(|v| !ok(v)).map(|v| mk(n, Some(v))));
                continue;
            }
            match c {
                Comp::MinCount(n) if vn.len() < *n => {
                    out.insert(mk("MinCount", None));
                }
                Comp::MaxCount(n) if vn.len() > *n => {
                    out.insert(mk("MaxCount", None));
                }
                Comp::HasValue(t) if !vn.contains(t) => {
                    out.insert(mk("HasValue", None));
                }
                Comp::UniqueLang(true) => {
                    let mut m: BTreeMap<String, usize> = BTreeMap::new();
                    for v in &vn {
                        if let T::L { lang: Some(l), .. } = v {
                            *m.entry(l.to_lowercase()).or_default() += 1;
                        }
                    }
                    if m.values().any(|n| *n > 1) {
                        out.insert(mk("UniqueLang", None));
                    }
                }
                Comp::Equals(p) => {
                    let o: BTreeSet<T> = g.objs(x, p).into_iter().collect();
                    out.extend(vn.symmetric_difference(&o).map(|v| mk("Equals", Some(v))));
                }
                Comp::LessThan(p) | Comp::LessThanOrEquals(p) => {
                    let n = if matches!(c, Comp::LessThan(_)) { "LessThan" } else { "LessThanOrEquals" };
                    for v in &vn {
                        for o in g.objs(x, p) {
                            let order = compare(v, &o);
                            let bools = |t: &T| matches!(t, T::L { dt, .. } if *dt == xsd("boolean"));
                            let langs = |t: &T| matches!(t, T::L { lang: Some(_), .. });
                            if order.is_none() && *v == o && n == "LessThanOrEquals" || bools(v) && bools(&o) || langs(v) && langs(&o) {
                                OPEN_EQ.set(true);
                            }
                            let ok = match order {
                                Some(Ordering::Less) => true,
                                Some(Ordering::Equal) => n == "LessThanOrEquals",
                                _ => false,
                            };
                            if !ok {
                                out.insert(mk(n, Some(v)));
                            }
                        }
                    }
                }
                Comp::Property(i) => {
                    for v in &vn {
                        out.extend(self.validate(g, *i, v));
                    }
                }
                Comp::Qualified { shape, min, max, disjoint } => {
                    let sib = if *disjoint { self.siblings(si) } else { BTreeSet::new() };
                    let n = vn.iter().filter(|v| self.conforms(g, *shape, v) && !sib.iter().any(|s| self.conforms(g, *s, v))).count();
                    if min.is_some_and(|m| n < m) {
                        out.insert(mk("QualifiedMinCount", None));
                    }
                    if max.is_some_and(|m| n > m) {
                        out.insert(mk("QualifiedMaxCount", None));
                    }
                }
                Comp::Sparql(q) => {
                    if matches!(q.body, crate::cons::Body::Any(_)) && crate::cons::is_reifier(x) {
                        OPEN.set(true);
                    }
                    for r in crate::cons::rows(g, q, x) {
                        let value = r.value.or(if s.path.is_none() { Some(x.clone()) } else { None });
                        let path = r.path.or(s.path.clone());
                        out.insert(Res { path, value, component: sh("SPARQLConstraintComponent"), ..mk("", None) });
                    }
                }
                Comp::Reifier(i, required) => {
                    let Some(Path::P(p)) = &s.path else { continue };
                    for v in &vn {
                        let rs = crate::cons::reifiers(&(x.clone(), p.clone(), v.clone()));
                        if rs.is_empty() && *required {
                            out.insert(mk("ReifierShape", Some(v)));
                        }
                        for r in rs {
                            out.extend(self.validate(g, *i, &r));
                        }
                    }
                }
                Comp::Closed(ig) => {
                    let mut known: BTreeSet<&String> = ig.iter().collect();
                    for c in &s.comps {
                        if let Comp::Property(i) = c
                            && let Some(Path::P(p)) = &self.shapes[*i].path
                        {
                            known.insert(p);
                        }
                    }
                    for v in &vn {
                        if crate::cons::is_reifier(v) {
                            OPEN.set(true);
                        }
                        for (p, o) in g.out(v) {
                            if !known.contains(p) {
                                out.insert(Res { path: Some(Path::P(p.clone())), value: Some(o.clone()), ..mk("Closed", None) });
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        out
    }
    pub fn focus_nodes(&self, g: &G, si: usize) -> BTreeSet<T> {
        let s = &self.shapes[si];
        let mut out = BTreeSet::new();
        for t in &s.targets {
            match t {
                Target::Node(n) => {
                    out.insert(n.clone());
                }
                Target::Class(c) => out.extend(instances(g, &T::iri(c.clone()))),
                Target::Implicit => out.extend(instances(g, &s.id)),
                Target::SubjectsOf(p) => out.extend(g.ts.iter().filter(|t| t.1 == *p).map(|t| t.0.clone())),
                Target::ObjectsOf(p) => out.extend(g.ts.iter().filter(|t| t.1 == *p).map(|t| t.2.clone())),
            }
        }
        out
    }
    pub fn report(&self, g: &G) -> BTreeSet<Res> {
        (0..self.shapes.len())
            .flat_map(|s| self.focus_nodes(g, s).into_iter().flat_map(move |x| self.validate(g, s, &x)))
            .collect()
    }
}

// ---------------------------------------------------------------- reading reports

fn read_path(g: &G, n: &T, depth: usize) -> Option<Path> {
    if depth > 20 {
        return None;
    }
    if let T::Iri(i) = n
        && *i != format!("{RDF}nil")
    {
        return Some(Path::P(i.clone()));
    }
    if !g.objs(n, &format!("{RDF}first")).is_empty() || *n == T::iri(format!("{RDF}nil")) {
        return Some(Path::Seq(read_list(g, n)?.iter().map(|x| read_path(g, x, depth + 1)).collect::<Option<_>>()?));
    }
    if g.out(n).len() != 1 {
        return None;
    }
    let (p, o) = g.out(n)[0];
    let sub = || read_path(g, o, depth + 1).map(Box::new);
    Some(match p.strip_prefix(SH)? {
        "alternativePath" => Path::Alt(read_list(g, o)?.iter().map(|x| read_path(g, x, depth + 1)).collect::<Option<_>>()?),
        "inversePath" => Path::Inv(sub()?),
        "zeroOrMorePath" => Path::Star(sub()?),
        "oneOrMorePath" => Path::Plus(sub()?),
        "zeroOrOnePath" => Path::Opt(sub()?),
        _ => return None,
    })
}
pub fn read_list(g: &G, n: &T) -> Option<Vec<T>> {
    let mut out = vec![];
    let mut n = n.clone();
    while n != T::iri(format!("{RDF}nil")) {
        let f = g.objs(&n, &format!("{RDF}first"));
        let r = g.objs(&n, &format!("{RDF}rest"));
        if f.len() != 1 || r.len() != 1 || out.len() > 50 {
            return None;
        }
        out.push(f[0].clone());
        n = r[0].clone();
    }
    Some(out)
}
pub struct Report {
    pub conforms: bool,
    pub results: BTreeSet<Res>,
    /// source, component and messages of each result
    pub messages: Vec<(Option<T>, String, BTreeSet<T>)>,
}
/// The case of language tags does not matter.
pub fn lower_tags(g: &G) -> G {
    let low = |t: &T| match t {
        T::L { lex, lang: Some(l), .. } => T::lang(lex.clone(), &l.to_lowercase()),
        t => t.clone(),
    };
    let mut out = G::default();
    for (s, p, o) in &g.ts {
        out.add(s.clone(), p, low(o));
    }
    out
}
/// Reads a validation report, checking that it is well formed.
pub fn read_report(text: &str) -> Result<Report, String> {
    let g = lower_tags(&parse_nt(text)?);
    let one = |n: &T, p: &str| -> Result<Option<T>, String> {
        let v = g.objs(n, &sh(p));
        if v.len() > 1 { Err(format!("{} values of sh:{p}", v.len())) } else { Ok(v.into_iter().next()) }
    };
    let reps = g.subjs(&format!("{RDF}type"), &T::iri(sh("ValidationReport")));
    if reps.len() != 1 {
        return Err(format!("{} validation reports", reps.len()));
    }
    let conforms = match one(&reps[0], "conforms")? {
        Some(T::L { lex, .. }) if lex == "true" => true,
        Some(T::L { lex, .. }) if lex == "false" => false,
        o => return Err(format!("sh:conforms {o:?}")),
    };
    let mut results = BTreeSet::new();
    let mut messages = vec![];
    let rs = g.objs(&reps[0], &sh("result"));
    for r in &rs {
        if !g.has(r, &format!("{RDF}type"), &T::iri(sh("ValidationResult"))) {
            return Err("result without type".into());
        }
        let iri = |t: Option<T>, w: &str| match t {
            Some(T::Iri(i)) => Ok(i),
            o => Err(format!("{w}: {o:?}")),
        };
        let path = match one(r, "resultPath")? {
            None => None,
            Some(n) => Some(read_path(&g, &n, 0).ok_or("ill-formed result path")?),
        };
        let component = iri(one(r, "sourceConstraintComponent")?, "component")?;
        messages.push((one(r, "sourceShape")?, component.clone(), g.objs(r, &sh("resultMessage")).into_iter().collect()));
        results.insert(Res {
            focus: one(r, "focusNode")?.ok_or("no focus node")?,
            path,
            value: one(r, "value")?,
            component,
            source: one(r, "sourceShape")?,
            severity: iri(one(r, "resultSeverity")?, "severity")?,
        });
    }
    Ok(Report { conforms, results, messages })
}
pub fn show(rs: &BTreeSet<Res>) -> String {
    rs.iter()
        .map(|r| {
            format!(
                "  {} {} value={} source={} path={:?} {}\n",
                r.component.trim_start_matches(SH),
                r.focus.nt(),
                r.value.as_ref().map(|v| v.nt()).unwrap_or("-".into()),
                r.source.as_ref().map(|v| v.nt()).unwrap_or("-".into()),
                r.path,
                r.severity.trim_start_matches(SH)
            )
        })
        .collect()
}
