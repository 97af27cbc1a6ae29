//! C20: property graphs against property graph schemas.
use common::*;
use hlib::*;
use pgschema::parser::{map_builder::MapBuilder, pg_builder::PgBuilder, pgs_builder::PgsBuilder};
use rudof_lib::Rudof;
use rudof_lib::formats::{DataFormat, ResultPgSchemaValidationFormat};
use std::collections::{BTreeMap, BTreeSet};

// Schemas

#[derive(Clone, Debug)]
pub enum Lab {
    Name(&'static str),
    Ref(usize),
    And(Vec<Lab>),
    Or(Vec<Lab>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Base {
    Str,
    Int,
    Date,
    Bool,
    Any,
    /// `CHECK` alone
    Check,
}
#[derive(Clone, Debug)]
pub enum Cond {
    True,
    False,
    Cmp(&'static str, Val),
    Regex(usize),
    And(Vec<Cond>),
    Or(Vec<Cond>),
    Not(Box<Cond>),
}
#[derive(Clone, Debug)]
pub struct Simple {
    base: Base,
    card: Option<(usize, Option<usize>)>,
    check: Option<Cond>,
}
/// Types joined by `|` or by `&`.
#[derive(Clone, Debug)]
pub struct Type {
    union: bool,
    of: Vec<Simple>,
}
#[derive(Clone, Debug)]
pub enum Props {
    One(bool, &'static str, Type),
    All(Vec<Props>),
    Any(Vec<Props>),
}
#[derive(Clone, Debug, Default)]
pub struct Spec {
    labels: Option<Lab>,
    props: Option<Props>,
}
#[derive(Clone, Debug)]
pub struct Schema {
    nodes: Vec<Spec>,
    /// source, edge, target
    edges: Vec<[Spec; 3]>,
}

// Graphs

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Val {
    Str(String),
    Int(i64),
    Date(String),
    Bool(bool),
}
#[derive(Clone, Debug, Default)]
pub struct Item {
    labels: BTreeSet<&'static str>,
    rec: BTreeMap<&'static str, Vec<Val>>,
}

type Alt<'a> = (BTreeSet<&'static str>, BTreeMap<&'static str, Vec<&'a Type>>);

// Semantics

const CAP: usize = 300;

fn merge<'a>(a: &Alt<'a>, b: &Alt<'a>) -> Alt<'a> {
    let mut r = a.clone();
    r.0.extend(b.0.iter());
    for (k, ts) in &b.1 {
        r.1.entry(k).or_default().extend(ts.iter());
    }
    r
}
fn product<'a>(parts: Vec<Vec<Alt<'a>>>) -> Option<Vec<Alt<'a>>> {
    let mut out = vec![Alt::default()];
    for p in parts {
        let mut next = vec![];
        for a in &out {
            for b in &p {
                next.push(merge(a, b));
            }
        }
        if next.len() > CAP {
            return None;
        }
        out = next;
    }
    Some(out)
}
impl Lab {
    fn alts<'a>(&self, s: &'a Schema) -> Option<Vec<Alt<'a>>> {
        match self {
            Lab::Name(l) => Some(vec![(BTreeSet::from([*l]), BTreeMap::new())]),
            Lab::Ref(i) => s.nodes[*i].alts(s),
            Lab::And(xs) => product(xs.iter().map(|x| x.alts(s)).collect::<Option<_>>()?),
            Lab::Or(xs) => Some(xs.iter().map(|x| x.alts(s)).collect::<Option<Vec<_>>>()?.concat()),
        }
    }
}
impl Props {
    fn alts(&self) -> Option<Vec<Alt<'_>>> {
        match self {
            Props::One(opt, k, t) => {
                let mut v = vec![(BTreeSet::new(), BTreeMap::from([(*k, vec![t])]))];
                if *opt {
                    v.push(Alt::default());
                }
                Some(v)
            }
            Props::All(xs) => product(xs.iter().map(|x| x.alts()).collect::<Option<_>>()?),
            Props::Any(xs) => Some(xs.iter().map(|x| x.alts()).collect::<Option<Vec<_>>>()?.concat()),
        }
    }
}
impl Spec {
    fn alts<'a>(&'a self, s: &'a Schema) -> Option<Vec<Alt<'a>>> {
        let l = match &self.labels {
            Some(l) => l.alts(s)?,
            None => vec![Alt::default()],
        };
        let p = match &self.props {
            Some(p) => p.alts()?,
            None => vec![Alt::default()],
        };
        product(vec![l, p])
    }
}

const PATS: &[(&str, fn(&str) -> bool)] = &[
    ("^A", |s| s.starts_with('A')),
    ("e$", |s| s.ends_with('e')),
    ("b+", |s| s.contains('b')),
    ("^[a-z]+$", |s| !s.is_empty() && s.chars().all(|c| c.is_ascii_lowercase())),
    (r"\d", |s| s.chars().any(|c| c.is_ascii_digit())),
    ("^$", |s| s.is_empty()),
    (r"^\w+@\w+\.org$", |s| s == "x@y.org"),
    ("A|b", |s| s.contains(['A', 'b'])),
    ("^.{3}$", |s| s.chars().count() == 3),
];
const STRS: &[&str] = &["Alice", "bob", "", "a1", "x@y.org", "é", "two words", "A", "42", "TRUE", "2020-01-02", "// no", "/* no */", "};", "abc", "e"];
const DATES: &[&str] = &["2020-01-02", "2019-12-31", "2020-02-29", "1999-01-01", "0001-01-01", "2020-01-03"];

/// Comparisons of values of different types and patterns on other values are errors. In the first reading an error
/// fails the whole condition, in the second one it is false where it stands.
impl Cond {
    fn strict(&self, v: &Val) -> Option<bool> {
        Some(match self {
            Cond::True => true,
            Cond::False => false,
            Cond::Cmp("=", w) => v == w,
            Cond::Cmp(op, w) => {
                let o = match (v, w) {
                    (Val::Int(a), Val::Int(b)) => a.cmp(b),
                    (Val::Date(a), Val::Date(b)) => a.cmp(b),
                    _ => return None,
                };
                match *op {
                    "<" => o.is_lt(),
                    "<=" => o.is_le(),
                    ">" => o.is_gt(),
                    _ => o.is_ge(),
                }
            }
            Cond::Regex(i) => match v {
                Val::Str(s) => PATS[*i].1(s),
                _ => return None,
            },
            Cond::And(xs) => {
                let mut r = true;
                for x in xs {
                    r &= x.strict(v)?;
                }
                r
            }
            Cond::Or(xs) => {
                let mut r = false;
                for x in xs {
                    r |= x.strict(v)?;
                }
                r
            }
            Cond::Not(x) => !x.strict(v)?,
        })
    }
    fn local(&self, v: &Val) -> bool {
        match self {
            Cond::And(xs) => xs.iter().all(|x| x.local(v)),
            Cond::Or(xs) => xs.iter().any(|x| x.local(v)),
            Cond::Not(x) => !x.local(v),
            c => c.strict(v).unwrap_or(false),
        }
    }
}
impl Simple {
    fn accepts(&self, vs: &[Val], strict: bool) -> bool {
        let (lo, hi) = match (self.base, self.card) {
            (Base::Any | Base::Check, _) => (0, None),
            (_, None) => (1, Some(1)),
            (_, Some(c)) => c,
        };
        vs.len() >= lo
            && hi.is_none_or(|hi| vs.len() <= hi)
            && vs.iter().all(|v| {
                (match self.base {
                    Base::Str => matches!(v, Val::Str(_)),
                    Base::Int => matches!(v, Val::Int(_)),
                    Base::Date => matches!(v, Val::Date(_)),
                    Base::Bool => matches!(v, Val::Bool(_)),
                    Base::Any | Base::Check => true,
                }) && self.check.as_ref().is_none_or(|c| if strict { c.strict(v).unwrap_or(false) } else { c.local(v) })
            })
    }
}
impl Type {
    fn accepts(&self, vs: &[Val], strict: bool) -> bool {
        if self.union { self.of.iter().any(|t| t.accepts(vs, strict)) } else { self.of.iter().all(|t| t.accepts(vs, strict)) }
    }
}
impl Item {
    fn fits(&self, alts: &[Alt], strict: bool) -> bool {
        alts.iter().any(|(ls, rec)| {
            *ls == self.labels && rec.keys().eq(self.rec.keys()) && rec.iter().all(|(k, ts)| ts.iter().all(|t| t.accepts(&self.rec[k], strict)))
        })
    }
}

// Generation

const LABELS: &[&str] = &["A", "B", "C", "Person", "knows", "Any1"];
const KEYS: &[&str] = &["name", "age", "date", "k_1", "Strings"];

fn val(s: &mut Src, b: Base) -> Val {
    match b {
        Base::Str => Val::Str(s.pick(STRS).to_string()),
        Base::Int => Val::Int(*s.pick(&[0, 1, 2, 3, 18, 19, 2147483647])),
        Base::Date => Val::Date(s.pick(DATES).to_string()),
        Base::Bool => Val::Bool(s.flip()),
        _ => {
            let b = s.picks(&[Base::Str, Base::Int, Base::Date, Base::Bool]);
            val(s, b)
        }
    }
}
fn cond(s: &mut Src, b: Base, d: usize) -> Cond {
    match if d == 0 { s.weighted(&[1, 1, 10, 6]) } else { s.weighted(&[1, 1, 10, 6, 4, 4, 3]) } {
        0 => Cond::True,
        1 => Cond::False,
        3 if !matches!(b, Base::Int | Base::Date | Base::Bool) || s.chance(1, 20) => Cond::Regex(s.below(PATS.len())),
        4 => Cond::And((0..s.size(2, 3)).map(|_| cond(s, b, d - 1)).collect()),
        5 => Cond::Or((0..s.size(2, 3)).map(|_| cond(s, b, d - 1)).collect()),
        6 => Cond::Not(Box::new(cond(s, b, d - 1))),
        _ => {
            let other = s.chance(1, 20);
            let v = val(s, if other { Base::Any } else { b });
            let op = if matches!(v, Val::Int(_) | Val::Date(_)) || s.chance(1, 20) { s.picks(&["<", "<=", ">", ">=", "="]) } else { "=" };
            Cond::Cmp(op, v)
        }
    }
}
fn simple(s: &mut Src) -> Simple {
    let base = s.picks(&[Base::Str, Base::Str, Base::Int, Base::Int, Base::Date, Base::Bool, Base::Any, Base::Check]);
    let card = match base {
        Base::Any | Base::Check => None,
        _ => match s.weighted(&[6, 1, 1, 1, 2]) {
            0 => None,
            1 => Some((0, Some(1))),
            2 => Some((0, None)),
            3 => Some((1, None)),
            _ => {
                let lo = s.below(3);
                Some((lo, if s.chance(1, 3) { None } else { Some(lo + s.below(3)) }))
            }
        },
    };
    let check = if base == Base::Check || s.chance(1, 3) { Some(cond(s, base, 2)) } else { None };
    Simple { base, card, check }
}
fn typ(s: &mut Src) -> Type {
    let n = 1 + s.weighted(&[12, 4, 2]);
    Type { union: s.chance(2, 3), of: (0..n).map(|_| simple(s)).collect() }
}
fn props(s: &mut Src, d: usize) -> Props {
    match if d == 0 { 0 } else { s.weighted(&[3, 5, 2]) } {
        0 => {
            let opt = s.chance(1, 4);
            let k = s.picks(KEYS);
            Props::One(opt, k, typ(s))
        }
        k => {
            let v = (0..s.size(2, 3)).map(|_| props(s, d - 1)).collect();
            if k == 1 { Props::All(v) } else { Props::Any(v) }
        }
    }
}
fn lab(s: &mut Src, refs: usize, d: usize) -> Lab {
    match if d == 0 { 0 } else { s.weighted(&[4, 3, 3]) } {
        0 => {
            if refs > 0 && s.flip() {
                Lab::Ref(s.below(refs))
            } else {
                Lab::Name(s.picks(LABELS))
            }
        }
        k => {
            let v = (0..s.size(2, 3)).map(|_| lab(s, refs, d - 1)).collect();
            if k == 1 { Lab::And(v) } else { Lab::Or(v) }
        }
    }
}
fn spec_(s: &mut Src, refs: usize) -> Spec {
    Spec {
        labels: if s.chance(9, 10) { Some(lab(s, refs, 2)) } else { None },
        props: if s.chance(2, 3) { Some(props(s, 2)) } else { None },
    }
}
fn schema(s: &mut Src) -> Schema {
    let mut sc = Schema { nodes: vec![], edges: vec![] };
    for i in 0..s.size(1, 4) {
        let n = spec_(s, i);
        sc.nodes.push(n);
    }
    let n = sc.nodes.len();
    for _ in 0..s.below(3) {
        let end = |s: &mut Src| if s.chance(2, 3) { Spec { labels: Some(Lab::Ref(s.below(n))), props: None } } else { spec_(s, n) };
        let e = [end(s), spec_(s, 0), end(s)];
        sc.edges.push(e);
    }
    sc
}
fn distinct(vs: &mut Vec<Val>) {
    let mut seen = BTreeSet::new();
    vs.retain(|v| seen.insert(v.clone()));
}
fn values(s: &mut Src, t: &Type) -> Vec<Val> {
    let t = s.pick(&t.of);
    let (lo, hi) = match (t.base, t.card) {
        (Base::Any | Base::Check, _) => (0, None),
        (_, None) => (1, Some(1)),
        (_, Some(c)) => c,
    };
    let n = match hi {
        _ if s.chance(1, 12) => s.below(4),
        Some(hi) => s.size(lo, hi),
        None => s.size(lo.max(1), lo.max(1) + 2),
    };
    let mut vs = vec![];
    for _ in 0..n {
        let mut v = val(s, t.base);
        for _ in 0..6 {
            if !vs.contains(&v) && t.check.as_ref().is_none_or(|c| c.local(&v)) {
                break;
            }
            v = val(s, t.base);
        }
        vs.push(v);
    }
    distinct(&mut vs);
    vs
}
fn item(s: &mut Src, alts: Option<&[Alt]>) -> Item {
    let mut it = Item::default();
    if let Some(alts) = alts
        && !alts.is_empty()
    {
        let (ls, rec) = s.pick(alts).clone();
        it.labels = ls;
        for (k, ts) in rec {
            let t = s.picks(&ts);
            it.rec.insert(k, values(s, t));
        }
        // mix of two alternatives
        if s.chance(1, 8) {
            it.labels = s.pick(alts).0.clone();
        }
    }
    if alts.is_none() || s.chance(1, 4) {
        match s.below(6) {
            0 => {
                it.labels.insert(s.picks(LABELS));
            }
            1 => {
                let l: Vec<_> = it.labels.iter().copied().collect();
                if !l.is_empty() {
                    it.labels.remove(s.pick(&l));
                }
            }
            2 => {
                let ks: Vec<_> = it.rec.keys().copied().collect();
                if !ks.is_empty() {
                    it.rec.remove(s.pick(&ks));
                }
            }
            k => {
                let ks: Vec<_> = if k == 3 { KEYS.to_vec() } else { it.rec.keys().copied().collect() };
                if !ks.is_empty() {
                    let k = s.picks(&ks);
                    let mut v: Vec<_> = (0..s.weighted(&[1, 5, 2])).map(|_| val(s, Base::Any)).collect();
                    distinct(&mut v);
                    it.rec.insert(k, v);
                }
            }
        }
    }
    it
}

// Writing

/// Some layout, with comments.
fn ws(s: &mut Src, o: &mut String) {
    match s.weighted(&[30, 4, 2, 1, 1, 1]) {
        0 => o.push(' '),
        1 => o.push('\n'),
        2 => o.push_str("  \t "),
        3 => o.push_str(" // ; comment ( {\n"),
        4 => o.push_str(" /* a \n comment */ "),
        _ => o.push_str(" /* of /* two */ levels */ "),
    }
}
struct W<'a, 'b> {
    s: &'a mut Src,
    o: &'b mut String,
}
impl W<'_, '_> {
    fn t(&mut self, t: &str) {
        self.o.push_str(t);
        ws(self.s, self.o);
    }
    fn val(&mut self, v: &Val) {
        match v {
            Val::Str(x) => self.t(&format!("\"{x}\"")),
            Val::Int(i) => self.t(&format!("{i}")),
            Val::Date(d) => {
                self.t("DATE");
                self.t(&format!("\"{d}\""))
            }
            Val::Bool(b) => self.t(if *b { "TRUE" } else { "FALSE" }),
        }
    }
    fn cond(&mut self, c: &Cond, top: bool) {
        let paren = match c {
            Cond::And(_) | Cond::Or(_) => !top,
            Cond::Not(_) => !top,
            _ => self.s.chance(1, 10),
        };
        if paren {
            self.t("(");
        }
        match c {
            Cond::True => self.t("TRUE"),
            Cond::False => self.t("FALSE"),
            Cond::Cmp(op, v) => {
                self.t(op);
                self.val(v);
            }
            Cond::Regex(i) => {
                self.t("REGEX");
                self.t(&format!("\"{}\"", PATS[*i].0));
            }
            Cond::And(xs) | Cond::Or(xs) => {
                let op = if matches!(c, Cond::And(_)) { "AND" } else { "OR" };
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        self.t(op);
                    }
                    self.cond(x, false);
                }
            }
            Cond::Not(x) => {
                self.t("NOT");
                self.cond(x, false);
            }
        }
        if paren {
            self.t(")");
        }
    }
    fn typ(&mut self, t: &Type) {
        for (i, x) in t.of.iter().enumerate() {
            if i > 0 {
                self.t(if t.union { "|" } else { "&" });
            }
            match x.base {
                Base::Str => self.t("STRING"),
                Base::Int => self.t("INTEGER"),
                Base::Date => self.t("DATE"),
                Base::Bool => self.t("BOOL"),
                Base::Any => self.t("ANY"),
                Base::Check => {}
            }
            match x.card {
                Some((0, Some(1))) if self.s.chance(4, 5) => self.t("?"),
                Some((0, None)) if self.s.chance(4, 5) => self.t("*"),
                Some((1, None)) if self.s.chance(4, 5) => self.t("+"),
                Some((lo, hi)) => {
                    self.t("{");
                    self.t(&lo.to_string());
                    self.t(",");
                    self.t(&hi.map_or("*".into(), |h| h.to_string()));
                    self.t("}");
                }
                None => {}
            }
            if let Some(c) = &x.check {
                self.t("CHECK");
                self.cond(c, true);
            }
        }
    }
    fn props(&mut self, p: &Props, top: bool) {
        let paren = !top && !matches!(p, Props::One(..)) || self.s.chance(1, 12);
        if paren {
            self.t("(");
        }
        match p {
            Props::One(opt, k, t) => {
                if *opt {
                    self.t("OPTIONAL");
                }
                self.t(k);
                self.t(":");
                self.typ(t);
            }
            Props::All(xs) | Props::Any(xs) => {
                let op = if matches!(p, Props::All(_)) { "," } else { "||" };
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        self.t(op);
                    }
                    // alternatives bind tighter than `,`
                    let bare = op == "," && matches!(x, Props::Any(_)) && self.s.flip();
                    self.props(x, bare);
                }
            }
        }
        if paren {
            self.t(")");
        }
    }
    fn lab(&mut self, l: &Lab, top: bool) {
        let paren = !top && !matches!(l, Lab::Name(_) | Lab::Ref(_)) || self.s.chance(1, 12);
        let sq = self.s.chance(1, 4);
        if paren {
            self.t(if sq { "[" } else { "(" });
        }
        match l {
            Lab::Name(n) => self.t(n),
            Lab::Ref(i) => {
                self.t("@");
                self.t(&format!("T{i}"));
            }
            Lab::And(xs) | Lab::Or(xs) => {
                let op = if matches!(l, Lab::And(_)) { "&" } else { "|" };
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        self.t(op);
                    }
                    self.lab(x, false);
                }
            }
        }
        if paren {
            self.t(if sq { "]" } else { ")" });
        }
    }
    fn spec(&mut self, sp: &Spec) {
        if let Some(l) = &sp.labels {
            self.t(":");
            self.lab(l, true);
        }
        if let Some(p) = &sp.props {
            self.t("{");
            self.props(p, true);
            self.t("}");
        }
    }
    fn schema(&mut self, sc: &Schema) {
        let mut order: Vec<(bool, usize)> = (0..sc.nodes.len()).map(|i| (true, i)).chain((0..sc.edges.len()).map(|i| (false, i))).collect();
        self.s.shuffle(&mut order);
        for (n, (node, i)) in order.into_iter().enumerate() {
            if n > 0 {
                self.t(";");
            }
            self.t("CREATE");
            if node {
                self.t("NODE");
                self.t("TYPE");
                self.t("(");
                self.t(&format!("T{i}"));
                self.spec(&sc.nodes[i]);
                self.t(")");
            } else {
                let [a, e, b] = &sc.edges[i];
                self.t("EDGE");
                self.t("TYPE");
                self.t("(");
                self.spec(a);
                self.t(")");
                self.t("-[");
                self.t(&format!("E{i}"));
                self.spec(e);
                self.t("]->");
                self.t("(");
                self.spec(b);
                self.t(")");
            }
        }
    }
    fn name(&mut self, n: &str) {
        if self.s.chance(1, 4) { self.t(&format!("\"{n}\"")) } else { self.t(n) }
    }
    fn item(&mut self, it: &Item) {
        if !it.labels.is_empty() {
            let mut ls: Vec<_> = it.labels.iter().copied().collect();
            self.s.shuffle(&mut ls);
            self.t("{");
            for (i, l) in ls.iter().enumerate() {
                if i > 0 {
                    self.t(",");
                }
                self.name(l);
            }
            self.t("}");
        }
        if !it.rec.is_empty() {
            let mut ks: Vec<_> = it.rec.iter().collect();
            self.s.shuffle(&mut ks);
            self.t("[");
            for (i, (k, vs)) in ks.iter().enumerate() {
                if i > 0 {
                    self.t(",");
                }
                self.name(k);
                self.t(":");
                if vs.len() == 1 && self.s.chance(4, 5) {
                    self.val(&vs[0]);
                } else {
                    self.t("[");
                    for (i, v) in vs.iter().enumerate() {
                        if i > 0 {
                            self.t(",");
                        }
                        self.val(v);
                    }
                    self.t("]");
                }
            }
            self.t("]");
        }
    }
}

/// Node and edge names.
const NODES: &[&str] = &["n1", "n2", "é", "3", "NODE"];
const EDGES: &[&str] = &["e1", "e2", "E0", "n3"];

struct Graph {
    nodes: Vec<Item>,
    edges: Vec<(usize, Item, usize)>,
}

/// One document, or two whose union is the graph.
fn write_graph(s: &mut Src, g: &Graph, docs: usize) -> Vec<String> {
    let mut out = vec![String::new(); docs];
    let mut parts: Vec<(Vec<Item>, Vec<bool>)> = vec![(vec![], vec![]); docs];
    for n in &g.nodes {
        let mut here = vec![Item::default(); docs];
        for l in &n.labels {
            let d = s.below(docs);
            here[d].labels.insert(l);
            if s.chance(1, 4) {
                here[s.below(docs)].labels.insert(l);
            }
        }
        for (k, vs) in &n.rec {
            let d = s.below(docs);
            let cut = if docs > 1 && s.chance(1, 3) { s.below(vs.len() + 1) } else { vs.len() };
            here[d].rec.insert(k, vs[..cut].to_vec());
            if cut < vs.len() {
                here[(d + 1) % docs].rec.insert(k, vs[cut..].to_vec());
            }
        }
        for (d, mut i) in here.into_iter().enumerate() {
            parts[d].1.push(d == 0 || !i.labels.is_empty() || !i.rec.is_empty());
            // the grammar has no nodes without labels and properties
            if i.labels.is_empty() && i.rec.is_empty() {
                if n.labels.is_empty() || s.chance(1, 4) { i = n.clone() } else { i.labels.extend(n.labels.first()) }
            }
            parts[d].0.push(i);
        }
    }
    let edge_doc: Vec<usize> = g.edges.iter().map(|_| s.below(docs)).collect();
    for (d, text) in out.iter_mut().enumerate() {
        let mut done = vec![false; g.nodes.len()];
        let mut order: Vec<usize> = (0..g.nodes.len()).filter(|i| parts[d].1[*i]).collect();
        s.shuffle(&mut order);
        let mut w = W { s, o: text };
        let node = |w: &mut W, i: usize, done: &mut Vec<bool>| {
            if !done[i] {
                done[i] = true;
                w.t("(");
                w.t(NODES[i]);
                w.item(&parts[d].0[i]);
                w.t(")");
            }
        };
        if w.s.chance(1, 3) {
            for i in &order {
                node(&mut w, *i, &mut done);
            }
        }
        for (j, (a, e, b)) in g.edges.iter().enumerate() {
            if edge_doc[j] != d {
                continue;
            }
            node(&mut w, *a, &mut done);
            node(&mut w, *b, &mut done);
            for t in ["(", NODES[*a], ")", "-", "(", EDGES[j]] {
                w.t(t);
            }
            w.item(e);
            for t in [")", "->", "(", NODES[*b], ")"] {
                w.t(t);
            }
        }
        for i in &order {
            node(&mut w, *i, &mut done);
        }
    }
    out.retain(|t| !t.is_empty());
    out
}

fn graph(s: &mut Src, alts: &[Vec<Alt>], ends: &[[Vec<Alt>; 3]]) -> Graph {
    let mut g = Graph { nodes: vec![], edges: vec![] };
    for _ in 0..s.size(1, NODES.len()) {
        let a = if s.chance(9, 10) { Some(s.pick(alts).as_slice()) } else { None };
        let mut n = item(s, a);
        if n.labels.is_empty() && n.rec.is_empty() {
            n.labels.insert("A");
        }
        g.nodes.push(n);
    }
    for _ in 0..s.below(EDGES.len() + 1) {
        let e = if ends.is_empty() || s.chance(1, 10) { None } else { Some(s.pick(ends)) };
        let it = item(s, e.map(|e| e[1].as_slice()));
        let mut end = |k: usize, g: &Graph| {
            let fit: Vec<usize> = (0..g.nodes.len()).filter(|i| e.is_some_and(|e| g.nodes[*i].fits(&e[k], true))).collect();
            if fit.is_empty() || s.chance(1, 5) { s.below(g.nodes.len()) } else { s.picks(&fit) }
        };
        let (a, b) = (end(0, &g), end(2, &g));
        g.edges.push((a, it, b));
    }
    g
}

/// What the association of each node or edge with a type has to answer, None if it depends on how errors in
/// conditions are read.
fn expect(g: &Graph, alts: &[Vec<Alt>], ends: &[[Vec<Alt>; 3]], item: &str, typ: &str) -> Option<bool> {
    let ask = |strict| {
        if let Some(i) = NODES[..g.nodes.len()].iter().position(|n| *n == item) {
            typ.strip_prefix('T').and_then(|t| t.parse::<usize>().ok()).and_then(|t| alts.get(t)).is_some_and(|a| g.nodes[i].fits(a, strict))
        } else {
            let (a, e, b) = &g.edges[EDGES.iter().position(|n| *n == item).unwrap()];
            typ.strip_prefix('E')
                .and_then(|t| t.parse::<usize>().ok())
                .and_then(|t| ends.get(t))
                .is_some_and(|t| g.nodes[*a].fits(&t[0], strict) && e.fits(&t[1], strict) && g.nodes[*b].fits(&t[2], strict))
        }
    };
    (ask(true) == ask(false)).then(|| ask(true))
}

type Ask = (&'static str, String, Option<bool>);

struct Made {
    schema: String,
    docs: Vec<String>,
    asks: Vec<Ask>,
    map: String,
}

fn make(s: &mut Src, c: &mut Case, docs: usize, flags: bool) -> Result<(Made, Vec<bool>), &'static str> {
    let sc = schema(s);
    let alts: Vec<Vec<Alt>> = sc.nodes.iter().map(|n| n.alts(&sc)).collect::<Option<_>>().ok_or("too many alternatives")?;
    let mut ends = vec![];
    for [a, e, b] in &sc.edges {
        ends.push([a.alts(&sc).ok_or("too many alternatives")?, e.alts(&sc).ok_or("too many alternatives")?, b.alts(&sc).ok_or("too many alternatives")?]);
    }
    let g = graph(s, &alts, &ends);
    let mut asks: Vec<Ask> = vec![];
    let names: Vec<&'static str> = NODES[..g.nodes.len()].iter().chain(&EDGES[..g.edges.len()]).copied().collect();
    for n in &names {
        for t in 0..=sc.nodes.len() {
            if s.chance(2, 3) && !EDGES.contains(n) || s.chance(1, 20) {
                let t = format!("T{t}");
                asks.push((n, t.clone(), expect(&g, &alts, &ends, n, &t)));
            }
        }
        for t in 0..=sc.edges.len() {
            if s.chance(2, 3) && EDGES.contains(n) || s.chance(1, 20) {
                let t = format!("E{t}");
                asks.push((n, t.clone(), expect(&g, &alts, &ends, n, &t)));
            }
        }
    }
    if asks.is_empty() {
        asks.push((NODES[0], "T0".into(), expect(&g, &alts, &ends, NODES[0], "T0")));
    }
    s.shuffle(&mut asks);
    let mut text = String::new();
    W { s, o: &mut text }.schema(&sc);
    let docs = write_graph(s, &g, docs);
    let mut map = String::new();
    let mut positive = vec![];
    let mut w = W { s, o: &mut map };
    for (i, (n, t, e)) in asks.iter().enumerate() {
        if i > 0 {
            w.t(",");
        }
        w.t(n);
        w.t(":");
        positive.push(!flags || if w.s.chance(4, 5) { e.unwrap_or(true) } else { w.s.flip() });
        if !positive[i] {
            w.t("!");
        }
        w.t(t);
    }
    c.desc = format!("{text}\n--\n{}\n--\n{map}", docs.join("\n+\n"));
    let yes = asks.iter().filter(|a| a.2 == Some(true)).count();
    let no = asks.iter().filter(|a| a.2 == Some(false)).count();
    c.nontrivial = yes > 0 && no > 0;
    c.label_if(yes > 0, "conforms");
    c.label_if(no > 0, "does not conform");
    c.label_if(asks.iter().any(|a| a.0.starts_with('e') && a.2 == Some(true)), "edge conforms");
    c.label_if(asks.iter().any(|a| a.2.is_none()), "open");
    Ok((Made { schema: text, docs, asks, map }, positive))
}

fn load_pg(r: &mut Rudof, docs: &[String], at_once: bool) -> Result<(), String> {
    if at_once {
        let d: Vec<_> = docs.iter().map(spec).collect();
        r.load_data().with_data(&d).with_data_format(&DataFormat::Pg).with_merge(true).execute().map_err(|e| e.to_string())
    } else {
        for (i, d) in docs.iter().enumerate() {
            r.load_data().with_data(&[spec(d)]).with_data_format(&DataFormat::Pg).with_merge(i > 0).execute().map_err(|e| e.to_string())?;
        }
        Ok(())
    }
}
fn out(r: &Rudof, f: ResultPgSchemaValidationFormat) -> Result<String, String> {
    let mut o = vec![];
    r.serialize_pgschema_validation_results(&mut o)
        .with_result_pg_schema_validation_format(&f)
        .with_show_colors(false)
        .execute()
        .map_err(|e| e.to_string())?;
    String::from_utf8(o).map_err(|e| e.to_string())
}

pub fn validate(s: &mut Src, c: &mut Case) -> Outcome {
    let ndocs = 1 + s.weighted(&[4, 1]);
    let (m, _) = match make(s, c, ndocs, false) {
        Ok(m) => m,
        Err(e) => return Outcome::Discard(e),
    };
    let mut r = rudof();
    let run = |r: &mut Rudof, at_once: bool| -> Result<(), String> {
        load_pg(r, &m.docs, at_once).map_err(|e| format!("data: {e}"))?;
        r.load_pg_schema(&spec(&m.schema)).execute().map_err(|e| format!("schema: {e}"))?;
        r.load_typemap(&spec(&m.map)).execute().map_err(|e| format!("map: {e}"))?;
        r.validate_pgschema().execute().map_err(|e| format!("validate: {e}"))
    };
    let at_once = s.flip();
    if let Err(e) = run(&mut r, at_once) {
        return fail(format!("refused:{}", e.split(':').next().unwrap_or("")), e);
    }
    // JSON
    let j = match out(&r, ResultPgSchemaValidationFormat::Json) {
        Ok(j) => j,
        Err(e) => return fail("json", e),
    };
    let v: serde_json::Value = match serde_json::from_str(&j) {
        Ok(v) => v,
        Err(e) => return fail("json", format!("{e}\n{j}")),
    };
    let got: Vec<(String, String, bool)> = v["associations"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|a| (a["node_id"].as_str().unwrap_or("").to_string(), a["type_name"].as_str().unwrap_or("").to_string(), a["conforms"] == true))
                .collect()
        })
        .unwrap_or_default();
    if got.len() != m.asks.len() || got.iter().zip(&m.asks).any(|(g, a)| g.0 != a.0 || g.1 != a.1) {
        return fail("associations", format!("{got:?} for {:?}", m.asks));
    }
    for (g, a) in got.iter().zip(&m.asks) {
        if let Some(e) = a.2
            && e != g.2
        {
            return fail(if e { "rejected" } else { "accepted" }, format!("{} : {} expected {e}\n{j}", a.0, a.1));
        }
    }
    if v["is_valid"] != got.iter().all(|g| g.2) {
        return fail("is-valid", j);
    }
    // the other formats
    match out(&r, ResultPgSchemaValidationFormat::Csv) {
        Ok(t) => {
            let rows = csv(&t);
            let bare: Vec<(String, String, bool)> =
                rows.iter().skip(1).map(|r| (r.first().cloned().unwrap_or_default(), r.get(1).cloned().unwrap_or_default(), r.get(2).is_some_and(|x| x == "true"))).collect();
            if bare != got || rows.iter().any(|r| r.len() != 4) {
                return fail("csv", format!("{t}\n{got:?}"));
            }
        }
        Err(e) => return fail("csv", e),
    }
    match out(&r, ResultPgSchemaValidationFormat::Compact) {
        Ok(t) => {
            let mut at = 0;
            for (n, ty, ok) in &got {
                let line = format!("\n{n}:{ty}: {ok} ");
                match t[at..].find(&line) {
                    Some(i) => at += i + line.len(),
                    None => return fail("compact", format!("{line:?} not in order in {t}")),
                }
            }
        }
        Err(e) => return fail("compact", e),
    }
    // a node that is not there is an error
    if s.chance(1, 20) {
        if r.load_typemap(&spec(format!("{}\n, absent: T0", m.map))).execute().is_err() {
            return fail("map", "with an absent node");
        }
        if r.validate_pgschema().execute().is_ok() {
            return fail("absent", "validates a node that is not in the graph");
        }
        c.label("absent node");
    }
    Outcome::Pass
}

fn csv(t: &str) -> Vec<Vec<String>> {
    let mut rows = vec![vec![]];
    let (mut cell, mut quoted) = (String::new(), false);
    let mut it = t.chars().peekable();
    while let Some(ch) = it.next() {
        match ch {
            '"' if quoted && it.peek() == Some(&'"') => {
                it.next();
                cell.push('"');
            }
            '"' => quoted = !quoted,
            ',' if !quoted => rows.last_mut().unwrap().push(std::mem::take(&mut cell)),
            '\r' if !quoted => {}
            '\n' if !quoted => {
                rows.last_mut().unwrap().push(std::mem::take(&mut cell));
                rows.push(vec![]);
            }
            ch => cell.push(ch),
        }
    }
    rows.retain(|r| !r.is_empty());
    rows
}

/// A type map with expected answers tells which ones fail.
pub fn expected(s: &mut Src, c: &mut Case) -> Outcome {
    let (m, positive) = match make(s, c, 1, true) {
        Ok(m) => m,
        Err(e) => return Outcome::Discard(e),
    };
    if m.asks.iter().any(|a| a.2.is_none()) {
        return Outcome::Discard("open condition");
    }
    let bad = m.asks.iter().zip(&positive).filter(|(a, p)| a.2 != Some(**p)).count();
    let (sc, pg, map) = match (PgsBuilder::new().parse_pgs(&m.schema), PgBuilder::new().parse_pg(&m.docs[0]), MapBuilder::new().parse_map(&m.map)) {
        (Ok(a), Ok(b), Ok(c)) => (a, b, c),
        (a, b, c) => return fail("refused", format!("{:?} {:?} {:?}", a.err(), b.err(), c.err())),
    };
    let res = match map.validate(&sc, &pg) {
        Ok(r) => r,
        Err(e) => return fail("validate", e.to_string()),
    };
    match map.compare_with_result(&res) {
        Ok(f) if f.len() == bad => Outcome::Pass,
        Ok(f) => fail("expected-answers", format!("{} wrong, {bad} expected: {}", f.len(), f.iter().map(|f| f.to_string()).collect::<Vec<_>>().join("\n"))),
        Err(e) => fail("expected-answers", e.to_string()),
    }
}

pub fn recursive() -> Result<(), String> {
    for (sc, ok) in [
        ("CREATE NODE TYPE (T : @T)", false),
        ("CREATE NODE TYPE (T : A | @U) ; CREATE NODE TYPE (U : B & @T)", false),
        ("CREATE NODE TYPE (T : @U & @U) ; CREATE NODE TYPE (U : A)", true),
    ] {
        let mut r = rudof();
        load_pg(&mut r, &["(n {A})".to_string()], true)?;
        r.load_pg_schema(&spec(sc)).execute().map_err(|e| e.to_string())?;
        r.load_typemap(&spec("n: T")).execute().map_err(|e| e.to_string())?;
        let res = r.validate_pgschema().execute();
        let conforms = res.is_ok() && out(&r, ResultPgSchemaValidationFormat::Json)?.contains("\"is_valid\": true");
        if conforms != ok {
            return Err(format!("{sc}: conforms {conforms}"));
        }
    }
    Ok(())
}
pub fn graph_types() -> Result<(), String> {
    let mut r = rudof();
    match r.load_pg_schema(&spec("CREATE NODE TYPE (T : A) ; CREATE GRAPH TYPE G STRICT { T }")).execute() {
        Ok(()) => Err("a graph type is accepted, and not checked".into()),
        Err(_) => Ok(()),
    }
}
