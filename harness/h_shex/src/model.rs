//! Abstract ShEx schemas, with our own ShExC and ShExJ printers.
use hlib::*;
use serde_json::{Map, Value, json};

pub type Card = (usize, Option<usize>);
#[derive(Clone, Debug, PartialEq)]
pub enum SE {
    And(Vec<SE>),
    Or(Vec<SE>),
    Not(Box<SE>),
    Ref(usize),
    Nc(NC),
    Shape(Shape),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Shape {
    pub closed: bool,
    pub extra: Vec<String>,
    pub te: Option<TE>,
    pub extends: Vec<usize>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum TE {
    Each(Vec<TE>, Card),
    One(Vec<TE>, Card),
    Tc(Tc),
    /// a triple expression that carries the label `te<k>`
    Labelled(usize, Box<TE>),
    /// inclusion of the triple expression labelled `te<k>`
    Incl(usize),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Tc {
    pub pred: String,
    pub inv: bool,
    pub val: Option<Box<SE>>,
    pub card: Card,
    /// annotations, then semantic actions
    pub notes: Vec<Note>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Note {
    Ann(String, T),
    Act(String, Option<String>),
}
fn notes_c(v: &[Note]) -> String {
    let mut o = String::new();
    for n in v {
        match n {
            Note::Ann(p, T::Iri(i)) => o += &format!(" // {} {} ", iri(p), iri(i)),
            Note::Ann(p, t) => o += &format!(" // {} {} ", iri(p), t.nt()),
            Note::Act(n, None) => o += &format!(" %{}% ", iri(n)),
            Note::Act(n, Some(c)) => o += &format!(" %{}{{{}%}} ", iri(n), c.replace('\\', "\\\\").replace('%', "\\%")),
        }
    }
    o
}
fn notes_j(v: &[Note], m: &mut Map<String, Value>) {
    let anns: Vec<Value> = v.iter().filter_map(|n| if let Note::Ann(p, t) = n { Some(json!({"type": "Annotation", "predicate": p, "object": VS::Val(t.clone()).json()})) } else { None }).collect();
    let acts: Vec<Value> = v
        .iter()
        .filter_map(|n| match n {
            Note::Act(n, None) => Some(json!({"type": "SemAct", "name": n})),
            Note::Act(n, Some(c)) => Some(json!({"type": "SemAct", "name": n, "code": c})),
            _ => None,
        })
        .collect();
    if !anns.is_empty() {
        m.insert("annotations".into(), json!(anns));
    }
    if !acts.is_empty() {
        m.insert("semActs".into(), json!(acts));
    }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct NC {
    pub kind: Option<&'static str>,
    pub dt: Option<String>,
    pub facets: Vec<Facet>,
    pub values: Option<Vec<VS>>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Facet {
    Length(usize),
    MinLength(usize),
    MaxLength(usize),
    /// index in nc::PATTERNS
    Pattern(usize),
    MinIncl(Num),
    MinExcl(Num),
    MaxIncl(Num),
    MaxExcl(Num),
    TotalDigits(usize),
    FractionDigits(usize),
}
/// A number m * 10^-2, and how it is written.
#[derive(Clone, Debug, PartialEq)]
pub struct Num {
    pub v: i64,
    pub form: u8,
}
impl Num {
    pub fn text(&self) -> String {
        let neg = if self.v < 0 { "-" } else { "" };
        let a = self.v.abs();
        match self.form {
            0 if a % 100 == 0 => format!("{neg}{}", a / 100),
            0 | 1 => format!("{neg}{}.{:02}", a / 100, a % 100),
            3 if a < 100 => format!("{neg}.{a:02}"),
            3 => format!("{}{}.{:02}000000000", if neg.is_empty() { "+" } else { neg }, a / 100, a % 100),
            4 => format!("{neg}{a}e-2"),
            5 if a < 100 => format!("{neg}.{a:02}E+0"),
            _ => format!("{neg}{}.{:02}E0", a / 100, a % 100),
        }
    }
    pub fn json(&self) -> Value {
        if self.form == 0 && self.v % 100 == 0 {
            json!(self.v / 100)
        } else {
            json!(self.v as f64 / 100.0)
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum VS {
    Val(T),
    IriStem(String, Vec<Ex>),
    LitStem(String, Vec<Ex>),
    Lang(String),
    LangStem(String, Vec<Ex>),
    /// the wildcard, with exclusions of one kind: 0 IRIs, 1 literals, 2 languages
    Any(u8, Vec<Ex>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ex {
    pub s: String,
    pub stem: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Decl {
    pub se: SE,
    pub abs: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Schema {
    pub decls: Vec<Decl>,
    pub start: Option<SE>,
}

pub fn label(i: usize) -> String {
    format!("{EX}S{i}")
}
pub fn te_label(i: usize) -> String {
    format!("{EX}te{i}")
}
fn card(c: &Card) -> String {
    match c {
        (1, Some(1)) => "".into(),
        (0, Some(1)) => "?".into(),
        (0, None) => "*".into(),
        (1, None) => "+".into(),
        (a, None) => format!("{{{a},}}"),
        (a, Some(b)) if a == b => format!("{{{a}}}"),
        (a, Some(b)) => format!("{{{a},{b}}}"),
    }
}
thread_local! {
    /// The prefix that stands for `EX`.
    pub static PFX: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
fn iri(s: &str) -> String {
    match s.strip_prefix(EX) {
        Some(l) if !l.is_empty() && l.chars().all(|c| c.is_ascii_alphanumeric()) && !l.starts_with(|c: char| c.is_ascii_digit()) => PFX.with(|p| format!("{}:{l}", p.borrow())),
        _ => match s.strip_prefix(XSD) {
            Some(l) => format!("xsd:{l}"),
            None => format!("<{s}>"),
        },
    }
}
fn pats(i: usize) -> (&'static str, &'static str) {
    let p = &crate::nc::PATTERNS[i];
    (p.0, p.1)
}

impl Schema {
    pub fn shexc(&self) -> String {
        let mut o = format!("PREFIX : <{EX}>\nPREFIX xsd: <{XSD}>\n");
        if let Some(s) = &self.start {
            o += &format!("start = {}\n", self.se(s, 0));
        }
        for i in 0..self.decls.len() {
            o += &self.decl_c(i);
        }
        o
    }
    pub fn decl_c(&self, i: usize) -> String {
        let d = &self.decls[i];
        format!("{}{} {}\n", if d.abs { "ABSTRACT " } else { "" }, iri(&label(i)), self.se(&d.se, 0))
    }
    pub fn expr_c(&self, e: &SE) -> String {
        self.se(e, 0)
    }
    pub fn expr_j(&self, e: &SE) -> Value {
        self.jse(e)
    }
    pub fn decl_j(&self, i: usize) -> Value {
        let d = &self.decls[i];
        let mut x = json!({"type": "ShapeDecl", "id": label(i), "shapeExpr": self.jse(&d.se)});
        if d.abs {
            x["abstract"] = json!(true);
        }
        x
    }
    /// ctx: 0 top, 1 inside OR, 2 inside AND, 3 under NOT
    fn se(&self, s: &SE, ctx: u8) -> String {
        let par = |c: bool, t: String| if c { format!("({t})") } else { t };
        match s {
            SE::Or(v) => par(ctx >= 1, v.iter().map(|x| self.se(x, 1)).collect::<Vec<_>>().join(" OR ")),
            SE::And(v) => par(ctx >= 2, v.iter().map(|x| self.se(x, 2)).collect::<Vec<_>>().join(" AND ")),
            SE::Not(x) => par(ctx >= 3, format!("NOT {}", self.se(x, 3))),
            SE::Ref(i) => format!("@{}", iri(&label(*i))),
            SE::Nc(n) => n.shexc(),
            SE::Shape(sh) => {
                let mut o = String::new();
                for e in &sh.extends {
                    o += &format!("EXTENDS @{} ", iri(&label(*e)));
                }
                if !sh.extra.is_empty() {
                    o += &format!("EXTRA {} ", sh.extra.iter().map(|e| iri(e)).collect::<Vec<_>>().join(" "));
                }
                if sh.closed {
                    o += "CLOSED ";
                }
                match &sh.te {
                    None => o + "{ }",
                    Some(t) => format!("{o}{{ {} }}", self.te(t, 0)),
                }
            }
        }
    }
    /// ctx: 0 top, 1 in OneOf, 2 in EachOf
    fn te(&self, t: &TE, ctx: u8) -> String {
        match t {
            TE::Each(v, c) => {
                let b = v.iter().map(|x| self.te(x, 2)).collect::<Vec<_>>().join(" ; ");
                if *c != (1, Some(1)) || ctx == 2 { format!("( {b} ){}", card(c)) } else { b }
            }
            TE::One(v, c) => {
                let b = v.iter().map(|x| self.te(x, 1)).collect::<Vec<_>>().join(" | ");
                if *c != (1, Some(1)) || ctx >= 1 { format!("( {b} ){}", card(c)) } else { b }
            }
            TE::Tc(tc) => {
                let v = match &tc.val {
                    None => ".".into(),
                    Some(s) => self.se(s, 0),
                };
                format!("{}{} {v} {}{}", if tc.inv { "^" } else { "" }, iri(&tc.pred), card(&tc.card), notes_c(&tc.notes))
            }
            TE::Labelled(k, x) => match &**x {
                TE::Tc(_) => format!("${} {}", iri(&te_label(*k)), self.te(x, 2)),
                TE::Each(v, c) if *c == (1, Some(1)) => {
                    format!("${} ( {} )", iri(&te_label(*k)), v.iter().map(|x| self.te(x, 2)).collect::<Vec<_>>().join(" ; "))
                }
                _ => format!("${} {}", iri(&te_label(*k)), self.te(x, 2)),
            },
            TE::Incl(k) => format!("&{}", iri(&te_label(*k))),
        }
    }

    pub fn shexj(&self) -> String {
        let mut m = Map::new();
        m.insert("@context".into(), json!("http://www.w3.org/ns/shex.jsonld"));
        m.insert("type".into(), json!("Schema"));
        if let Some(s) = &self.start {
            m.insert("start".into(), self.jse(s));
        }
        let v: Vec<Value> = (0..self.decls.len()).map(|i| self.decl_j(i)).collect();
        m.insert("shapes".into(), json!(v));
        serde_json::to_string_pretty(&Value::Object(m)).unwrap()
    }
    fn jse(&self, s: &SE) -> Value {
        match s {
            SE::Or(v) => json!({"type": "ShapeOr", "shapeExprs": v.iter().map(|x| self.jse(x)).collect::<Vec<_>>()}),
            SE::And(v) => json!({"type": "ShapeAnd", "shapeExprs": v.iter().map(|x| self.jse(x)).collect::<Vec<_>>()}),
            SE::Not(x) => json!({"type": "ShapeNot", "shapeExpr": self.jse(x)}),
            SE::Ref(i) => json!(label(*i)),
            SE::Nc(n) => n.json(),
            SE::Shape(sh) => {
                let mut m = Map::new();
                m.insert("type".into(), json!("Shape"));
                if sh.closed {
                    m.insert("closed".into(), json!(true));
                }
                if !sh.extra.is_empty() {
                    m.insert("extra".into(), json!(sh.extra));
                }
                if !sh.extends.is_empty() {
                    m.insert("extends".into(), json!(sh.extends.iter().map(|e| label(*e)).collect::<Vec<_>>()));
                }
                if let Some(t) = &sh.te {
                    m.insert("expression".into(), self.jte(t));
                }
                Value::Object(m)
            }
        }
    }
    fn jte(&self, t: &TE) -> Value {
        let cc = |m: &mut Map<String, Value>, c: &Card| {
            if *c != (1, Some(1)) {
                m.insert("min".into(), json!(c.0));
                m.insert("max".into(), c.1.map(|x| json!(x)).unwrap_or(json!(-1)));
            }
        };
        let mut m = Map::new();
        match t {
            TE::Each(v, c) | TE::One(v, c) => {
                m.insert("type".into(), json!(if matches!(t, TE::Each(..)) { "EachOf" } else { "OneOf" }));
                m.insert("expressions".into(), json!(v.iter().map(|x| self.jte(x)).collect::<Vec<_>>()));
                cc(&mut m, c);
            }
            TE::Tc(tc) => {
                m.insert("type".into(), json!("TripleConstraint"));
                m.insert("predicate".into(), json!(tc.pred));
                if tc.inv {
                    m.insert("inverse".into(), json!(true));
                }
                if let Some(v) = &tc.val {
                    m.insert("valueExpr".into(), self.jse(v));
                }
                cc(&mut m, &tc.card);
                notes_j(&tc.notes, &mut m);
            }
            TE::Labelled(k, x) => {
                let mut v = self.jte(x);
                v["id"] = json!(te_label(*k));
                return v;
            }
            TE::Incl(k) => return json!(te_label(*k)),
        }
        Value::Object(m)
    }
}

impl NC {
    pub fn shexc(&self) -> String {
        let mut o: Vec<String> = vec![];
        if let Some(k) = self.kind {
            o.push(k.to_uppercase());
        }
        if let Some(d) = &self.dt {
            o.push(iri(d));
        }
        if let Some(vs) = &self.values {
            o.push(format!("[ {} ]", vs.iter().map(|v| v.shexc()).collect::<Vec<_>>().join(" ")));
        }
        for f in &self.facets {
            o.push(match f {
                Facet::Length(n) => format!("LENGTH {n}"),
                Facet::MinLength(n) => format!("MINLENGTH {n}"),
                Facet::MaxLength(n) => format!("MAXLENGTH {n}"),
                Facet::Pattern(i) => {
                    let (p, fl) = pats(*i);
                    format!("/{}/{fl}", p.replace('/', "\\/"))
                }
                Facet::MinIncl(n) => format!("MININCLUSIVE {}", n.text()),
                Facet::MinExcl(n) => format!("MINEXCLUSIVE {}", n.text()),
                Facet::MaxIncl(n) => format!("MAXINCLUSIVE {}", n.text()),
                Facet::MaxExcl(n) => format!("MAXEXCLUSIVE {}", n.text()),
                Facet::TotalDigits(n) => format!("TOTALDIGITS {n}"),
                Facet::FractionDigits(n) => format!("FRACTIONDIGITS {n}"),
            });
        }
        if o.is_empty() {
            return ".".into();
        }
        o.join(" ")
    }
    pub fn json(&self) -> Value {
        let mut m = Map::new();
        m.insert("type".into(), json!("NodeConstraint"));
        if let Some(k) = self.kind {
            m.insert("nodeKind".into(), json!(k));
        }
        if let Some(d) = &self.dt {
            m.insert("datatype".into(), json!(d));
        }
        if let Some(vs) = &self.values {
            m.insert("values".into(), json!(vs.iter().map(|v| v.json()).collect::<Vec<_>>()));
        }
        for f in &self.facets {
            match f {
                Facet::Length(n) => m.insert("length".into(), json!(n)),
                Facet::MinLength(n) => m.insert("minlength".into(), json!(n)),
                Facet::MaxLength(n) => m.insert("maxlength".into(), json!(n)),
                Facet::Pattern(i) => {
                    let (p, fl) = pats(*i);
                    if !fl.is_empty() {
                        m.insert("flags".into(), json!(fl));
                    }
                    m.insert("pattern".into(), json!(p))
                }
                Facet::MinIncl(n) => m.insert("mininclusive".into(), n.json()),
                Facet::MinExcl(n) => m.insert("minexclusive".into(), n.json()),
                Facet::MaxIncl(n) => m.insert("maxinclusive".into(), n.json()),
                Facet::MaxExcl(n) => m.insert("maxexclusive".into(), n.json()),
                Facet::TotalDigits(n) => m.insert("totaldigits".into(), json!(n)),
                Facet::FractionDigits(n) => m.insert("fractiondigits".into(), json!(n)),
            };
        }
        Value::Object(m)
    }
}
impl VS {
    fn shexc(&self) -> String {
        let exs = |k: u8, v: &[Ex]| -> String {
            v.iter()
                .map(|e| {
                    let b = match k {
                        0 => format!("<{}>", e.s),
                        1 => quote(&e.s),
                        _ => format!("@{}", e.s),
                    };
                    format!(" - {b}{}", if e.stem { "~" } else { "" })
                })
                .collect()
        };
        match self {
            VS::Val(T::Iri(i)) => iri(i),
            VS::Val(t) => t.nt(),
            VS::IriStem(s, e) => format!("<{s}>~{}", exs(0, e)),
            VS::LitStem(s, e) => format!("{}~{}", quote(s), exs(1, e)),
            VS::Lang(l) => format!("@{l}"),
            VS::LangStem(l, e) => format!("@{l}~{}", exs(2, e)),
            VS::Any(k, e) => format!(".{}", exs(*k, e)),
        }
    }
    fn json(&self) -> Value {
        let exs = |k: &str, v: &[Ex]| -> Value {
            json!(v.iter().map(|e| if e.stem { json!({"type": format!("{k}Stem"), "stem": e.s}) } else { json!(e.s) }).collect::<Vec<_>>())
        };
        let rng = |k: &str, s: Value, e: &[Ex]| {
            if e.is_empty() {
                json!({"type": format!("{k}Stem"), "stem": s})
            } else {
                json!({"type": format!("{k}StemRange"), "stem": s, "exclusions": exs(k, e)})
            }
        };
        match self {
            VS::Val(T::Iri(i)) => json!(i),
            VS::Val(T::L { lex, dt, lang }) => match lang {
                Some(l) => json!({"value": lex, "language": l}),
                None if *dt == xsd("string") => json!({"value": lex}),
                None => json!({"value": lex, "type": dt}),
            },
            VS::Val(T::B(_)) => unreachable!(),
            VS::IriStem(s, e) => rng("Iri", json!(s), e),
            VS::LitStem(s, e) => rng("Literal", json!(s), e),
            VS::Lang(l) => json!({"type": "Language", "languageTag": l}),
            VS::LangStem(l, e) => rng("Language", json!(l), e),
            VS::Any(k, e) => rng(["Iri", "Literal", "Language"][*k as usize], json!({"type": "Wildcard"}), e),
        }
    }
}
