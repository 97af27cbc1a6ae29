//! C24: Map actions bind variables to the nodes that match; materialize puts them in a graph.
use crate::c23::file;
use common::*;
use hlib::*;
use rudof_lib::formats::*;
use rudof_lib::Rudof;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const NV: usize = 7;
const MAP: &str = "http://shex.io/extensions/Map/";
fn var(i: usize) -> String {
    format!("http://v.org/{}", ["a", "b", "name", "x-1", "é", "p/q", "v#7"][i])
}
/// What a variable or a leaf holds.
#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Dt(String),
    Iri,
    Any,
}
#[derive(Clone, Debug)]
enum V {
    Leaf(Kind),
    Ref(usize),
    Inline(Box<Sh>),
}
#[derive(Clone, Debug)]
struct P {
    pred: usize,
    inv: bool,
    card: (usize, Option<usize>),
    v: V,
    vars: Vec<usize>,
}
#[derive(Clone, Debug)]
enum E {
    P(P),
    /// together, perhaps optional
    All(Vec<P>, bool),
    One(Vec<P>),
}
#[derive(Clone, Debug, Default)]
struct Sh {
    es: Vec<E>,
    closed: bool,
    extra: Vec<usize>,
}
struct Sch {
    shapes: Vec<Sh>,
    start: bool,
    names: u8,
}
fn pred(i: usize) -> String {
    format!("{EX}p{i}")
}
fn label(i: usize) -> String {
    format!("{EX}S{i}")
}
impl Sch {
    fn code(&self, v: usize, c: bool) -> String {
        let i = var(v);
        let local = i.strip_prefix("http://v.org/").filter(|l| !l.contains(['/', '#']));
        match (self.names, local) {
            (1, Some(l)) if c => format!(" v:{l} "),
            (2, Some(l)) if c => format!(":{l}\n"),
            (0, _) => format!("<{i}>"),
            _ => format!("\t <{i}> "),
        }
    }
    fn c_p(&self, p: &P) -> String {
        let card = match p.card {
            (1, Some(1)) => "".to_string(),
            (0, Some(1)) => "?".to_string(),
            (0, None) => "*".to_string(),
            (1, None) => "+".to_string(),
            (a, Some(b)) => format!("{{{a},{b}}}"),
            (a, None) => format!("{{{a},}}"),
        };
        let v = match &p.v {
            V::Leaf(Kind::Any) => ".".to_string(),
            V::Leaf(Kind::Iri) => "IRI".to_string(),
            V::Leaf(Kind::Dt(d)) => format!("<{d}>"),
            V::Ref(i) => format!("@<{}>", label(*i)),
            V::Inline(s) => self.c_sh(s),
        };
        let acts: String = p.vars.iter().map(|v| format!(" %{}{{{}%}}", if self.names == 0 { format!("<{MAP}>") } else { "Map:".into() }, self.code(*v, true))).collect();
        format!("{}<{}> {v} {card}{acts}", if p.inv { "^" } else { "" }, pred(p.pred))
    }
    fn c_sh(&self, s: &Sh) -> String {
        let es: Vec<String> = s
            .es
            .iter()
            .map(|e| match e {
                E::P(p) => self.c_p(p),
                E::All(ps, opt) => format!("({}){}", ps.iter().map(|p| self.c_p(p)).collect::<Vec<_>>().join("; "), if *opt { "?" } else { "" }),
                E::One(ps) => format!("({})", ps.iter().map(|p| self.c_p(p)).collect::<Vec<_>>().join("\n | ")),
            })
            .collect();
        let extra: String = s.extra.iter().map(|p| format!("<{}> ", pred(*p))).collect();
        format!("{}{}{{ {} }}", if s.closed { "CLOSED " } else { "" }, if extra.is_empty() { extra } else { format!("EXTRA {extra}") }, es.join(" ;\n  "))
    }
    fn shexc(&self) -> String {
        let mut t = format!("PREFIX Map: <{MAP}>\nPREFIX {}: <http://v.org/>\n", if self.names == 2 { "" } else { "v" });
        if self.start {
            t += &format!("start = @<{}>\n", label(0));
        }
        for (i, s) in self.shapes.iter().enumerate() {
            t += &format!("<{}> {}\n", label(i), self.c_sh(s));
        }
        t
    }
    fn j_p(&self, p: &P) -> Value {
        let mut o = json!({"type": "TripleConstraint", "predicate": pred(p.pred)});
        if p.inv {
            o["inverse"] = json!(true);
        }
        match &p.v {
            V::Leaf(Kind::Any) => {}
            V::Leaf(Kind::Iri) => o["valueExpr"] = json!({"type": "NodeConstraint", "nodeKind": "iri"}),
            V::Leaf(Kind::Dt(d)) => o["valueExpr"] = json!({"type": "NodeConstraint", "datatype": d}),
            V::Ref(i) => o["valueExpr"] = json!(label(*i)),
            V::Inline(s) => o["valueExpr"] = self.j_sh(s),
        }
        if p.card != (1, Some(1)) {
            o["min"] = json!(p.card.0);
            o["max"] = json!(p.card.1.map_or(-1, |m| m as i64));
        }
        if !p.vars.is_empty() {
            o["semActs"] = p.vars.iter().map(|v| json!({"type": "SemAct", "name": MAP, "code": self.code(*v, false)})).collect();
        }
        o
    }
    fn j_group(&self, kind: &str, ps: &[P]) -> Value {
        if ps.len() == 1 {
            return self.j_p(&ps[0]);
        }
        json!({"type": kind, "expressions": ps.iter().map(|p| self.j_p(p)).collect::<Vec<_>>()})
    }
    fn j_sh(&self, s: &Sh) -> Value {
        let mut es: Vec<Value> = s
            .es
            .iter()
            .map(|e| match e {
                E::P(p) => self.j_p(p),
                E::All(ps, opt) => {
                    let mut g = self.j_group("EachOf", ps);
                    if *opt {
                        g["min"] = json!(0);
                        g["max"] = json!(1);
                    }
                    g
                }
                E::One(ps) => self.j_group("OneOf", ps),
            })
            .collect();
        let mut o = json!({"type": "Shape"});
        match es.len() {
            0 => {}
            1 => o["expression"] = es.pop().unwrap(),
            _ => o["expression"] = json!({"type": "EachOf", "expressions": es}),
        }
        if s.closed {
            o["closed"] = json!(true);
        }
        if !s.extra.is_empty() {
            o["extra"] = s.extra.iter().map(|p| json!(pred(*p))).collect();
        }
        o
    }
    fn shexj(&self) -> String {
        let mut o = json!({"@context": "http://www.w3.org/ns/shex.jsonld", "type": "Schema"});
        if self.start {
            o["start"] = json!(label(0));
        }
        o["shapes"] = self.shapes.iter().enumerate().map(|(i, s)| json!({"type": "ShapeDecl", "id": label(i), "shapeExpr": self.j_sh(s)})).collect();
        o.to_string()
    }
}

struct Gen {
    kinds: Vec<Kind>,
    fresh: usize,
}
const CARDS: &[(usize, Option<usize>)] = &[(1, Some(1)), (0, Some(1)), (0, None), (1, None)];
impl Gen {
    fn leaf(&self, s: &mut Src, pred: usize, mapped: bool) -> P {
        let vars: Vec<usize> = if mapped || s.chance(3, 4) { vec![s.below(NV)] } else { vec![] };
        let kind = match vars.first() {
            Some(v) if s.flip() => self.kinds[*v].clone(),
            Some(_) => Kind::Any,
            None => s.picks(&[Kind::Any, Kind::Iri, Kind::Dt(xsd("string"))]),
        };
        let inv = s.chance(1, 5) && (kind == Kind::Iri || kind == Kind::Any && vars.iter().all(|v| self.kinds[*v] == Kind::Iri));
        P { pred: pred + if inv { 20 } else { 0 }, inv, card: s.picks(CARDS), v: V::Leaf(kind), vars }
    }
    /// `target`: only what materialize is for.
    fn shape(&self, s: &mut Src, i: usize, n: usize, depth: usize, target: bool) -> Sh {
        let mut preds: Vec<usize> = (0..9).collect();
        s.shuffle(&mut preds);
        let mut sh = Sh::default();
        for _ in 0..s.size(1, 4) {
            let mut next = || preds.pop().unwrap_or(0);
            match s.weighted(&[6, 2, 1, 1, 1]) {
                1 if i + 1 < n || target => {
                    let j = if target && s.chance(1, 4) { s.below(n) } else { i + 1 + s.below((n - i).saturating_sub(1).max(1)) };
                    if j < n {
                        // what may be recursive is optional
                        let card = if j <= i { s.picks(&[(0, Some(1)), (0, None)]) } else { s.picks(CARDS) };
                        let any: Vec<usize> = (0..NV).filter(|v| self.kinds[*v] == Kind::Any).collect();
                        let vars = if !target && s.chance(1, 3) && !any.is_empty() { vec![s.picks(&any)] } else { vec![] };
                        let inv = s.chance(1, 6);
                        sh.es.push(E::P(P { pred: next() + if inv { 20 } else { 0 }, inv, card, v: V::Ref(j), vars }));
                    }
                }
                2 if depth < 2 => {
                    let inner = self.shape(s, i, n, depth + 1, target);
                    let inv = s.chance(1, 6);
                    sh.es.push(E::P(P { pred: next() + if inv { 20 } else { 0 }, inv, card: s.picks(CARDS), v: V::Inline(Box::new(inner)), vars: vec![] }));
                }
                3 => {
                    let ps = (0..s.size(1, 2)).map(|_| self.leaf(s, next(), true)).collect();
                    sh.es.push(E::All(ps, s.flip()));
                }
                4 => {
                    let ps: Vec<P> = (0..2).map(|_| P { card: (1, Some(1)), ..self.leaf(s, next(), true) }).collect();
                    sh.es.push(E::One(ps));
                }
                _ => {
                    let mut p = self.leaf(s, next(), target);
                    if s.chance(1, 8) {
                        let more = (0..NV).find(|v| !p.vars.is_empty() && self.kinds[*v] == self.kinds[p.vars[0]] && !p.vars.contains(v));
                        p.vars.extend(more);
                    }
                    // the same predicate once more, for values of another kind
                    let twin = !target && s.chance(1, 6) && matches!(p.v, V::Leaf(Kind::Dt(_)));
                    if twin {
                        let ks: Vec<usize> = (0..NV).filter(|v| matches!((&self.kinds[*v], &p.v), (Kind::Dt(a), V::Leaf(Kind::Dt(b))) if a != b)).collect();
                        if !ks.is_empty() {
                            let v = s.picks(&ks);
                            sh.es.push(E::P(P { pred: p.pred, inv: false, card: s.picks(CARDS), v: V::Leaf(self.kinds[v].clone()), vars: vec![v] }));
                        }
                    }
                    if !target && s.chance(1, 6) && matches!(p.v, V::Leaf(Kind::Dt(_))) && !twin && !p.inv {
                        sh.extra.push(p.pred);
                    }
                    sh.es.push(E::P(p));
                }
            }
        }
        if sh.es.is_empty() {
            sh.es.push(E::P(self.leaf(s, 9, true)));
        }
        sh
    }
    fn schema(&self, s: &mut Src, target: bool) -> Sch {
        let n = s.size(1, 3);
        let mut shapes: Vec<Sh> = (0..n).map(|i| self.shape(s, i, n, 0, target)).collect();
        let sch = Sch { shapes: shapes.clone(), start: s.flip(), names: s.below(3) as u8 };
        if s.chance(1, 4) && !format!("{:?}", sch.shapes).contains("inv: true") {
            for sh in &mut shapes {
                sh.closed = true;
            }
        }
        Sch { shapes, ..sch }
    }
    fn value(&mut self, s: &mut Src, k: &Kind) -> T {
        match k {
            Kind::Iri => T::ex(s.picks(&["i0", "i1", "i/2", "é"])),
            Kind::Dt(d) if *d == xsd("integer") => T::typed(s.picks(&["1", "01", "-7", "123456789012345678901234567890"]), d),
            Kind::Dt(d) if *d == xsd("short") => T::typed(s.picks(&["1", "300"]), d),
            Kind::Dt(d) if *d == xsd("decimal") => T::typed(s.picks(&["1.0", "1.50", "-.5"]), d),
            Kind::Dt(d) if *d == xsd("double") => T::typed(s.picks(&["1", "1.0e0", "INF", "1E3"]), d),
            Kind::Dt(d) if *d == xsd("boolean") => T::typed(s.picks(&["true", "1", "false"]), d),
            Kind::Dt(d) if *d == xsd("date") => T::typed(s.picks(&["2020-01-31", "2020-01-31Z"]), d),
            Kind::Dt(d) if *d == xsd("dateTime") => T::typed("2020-01-31T10:00:00.50", d),
            Kind::Dt(d) if d.ends_with("langString") => T::lang(s.picks(&["a", "\"q\"", ""]), s.picks(&["en", "es-mx"])),
            Kind::Dt(d) if *d == xsd("string") => T::str(s.picks(&["", "a", "b c", "\"\\", "l\nm", "<é>", "𝄞"])),
            Kind::Dt(d) => T::typed(s.picks(&["", "x", "<p/>"]), d),
            Kind::Any => match s.below(4) {
                0 => T::ex(s.picks(&["i0", "i1"])),
                1 => T::str("any"),
                2 => T::int(5),
                _ => {
                    self.fresh += 1;
                    T::b(&format!("o{}", self.fresh))
                }
            },
        }
    }
    fn node(&mut self, s: &mut Src, blank: bool) -> T {
        self.fresh += 1;
        if blank || s.flip() { T::b(&format!("n{}", self.fresh)) } else { T::ex(&format!("n{}", self.fresh)) }
    }
}
type Binds = BTreeMap<usize, BTreeSet<T>>;
struct Data {
    g: G,
    binds: Binds,
    tree: bool,
}
fn put(d: &mut Data, s: &T, p: &P, o: &T) {
    if p.inv { d.g.add(o.clone(), &pred(p.pred), s.clone()) } else { d.g.add(s.clone(), &pred(p.pred), o.clone()) }
}
fn fill_p(s: &mut Src, gn: &mut Gen, sch: &Sch, p: &P, x: &T, d: &mut Data, one: bool) {
    let max = if d.tree { p.card.1.unwrap_or(1) } else { p.card.1.unwrap_or(2) };
    let n = if one { 1 } else { s.size(p.card.0, max.max(p.card.0)) };
    let mut done = BTreeSet::new();
    for _ in 0..n {
        let o = match &p.v {
            V::Leaf(k) => {
                let mut k = match p.vars.first() {
                    Some(v) => gn.kinds[*v].clone(),
                    None => k.clone(),
                };
                if p.inv && k == Kind::Any {
                    k = Kind::Iri;
                }
                // a variable has one value where the graph is to be made again
                match p.vars.first().and_then(|v| d.binds.get(v)).and_then(|b| b.first()) {
                    Some(t) if d.tree => t.clone(),
                    _ => gn.value(s, &k),
                }
            }
            V::Ref(_) | V::Inline(_) => gn.node(s, d.tree),
        };
        if !done.insert(o.clone()) {
            continue;
        }
        put(d, x, p, &o);
        for v in &p.vars {
            d.binds.entry(*v).or_default().insert(o.clone());
        }
        match &p.v {
            V::Ref(j) => fill(s, gn, sch, &sch.shapes[*j], &o, d),
            V::Inline(sh) => fill(s, gn, sch, sh, &o, d),
            _ => {}
        }
    }
}
/// Data that conform, and what they bind.
fn fill(s: &mut Src, gn: &mut Gen, sch: &Sch, sh: &Sh, x: &T, d: &mut Data) {
    for e in &sh.es {
        match e {
            E::P(p) => fill_p(s, gn, sch, p, x, d, false),
            E::All(ps, opt) => {
                if !opt || s.flip() {
                    // an optional group that is there has something in it
                    for (i, p) in ps.iter().enumerate() {
                        fill_p(s, gn, sch, p, x, d, *opt && i == 0);
                    }
                }
            }
            E::One(ps) => {
                let p = s.picks(ps);
                fill_p(s, gn, sch, &p, x, d, true);
            }
        }
    }
    if !d.tree {
        for p in &sh.extra {
            if s.flip() {
                d.g.add(x.clone(), &pred(*p), T::typed("z", "http://other.org/dt"));
            }
        }
        if !sh.closed && s.chance(1, 4) {
            d.g.add(x.clone(), &format!("{EX}other"), T::int(9));
        }
    }
}

/// The graph that materialize should make. Whether it is complete.
struct Mat<'a> {
    sch: &'a Sch,
    st: &'a BTreeMap<usize, T>,
    g: G,
    n: usize,
    complete: bool,
}
impl Mat<'_> {
    fn any(&self, sh: &Sh, stack: &[usize]) -> bool {
        sh.es.iter().any(|e| match e {
            E::P(p) => self.any_p(p, stack),
            E::All(ps, _) | E::One(ps) => ps.iter().any(|p| self.any_p(p, stack)),
        })
    }
    fn any_p(&self, p: &P, stack: &[usize]) -> bool {
        match &p.v {
            V::Leaf(_) => p.vars.iter().any(|v| self.st.contains_key(v)),
            V::Inline(sh) => self.any(sh, stack),
            V::Ref(j) => !stack.contains(j) && self.any(&self.sch.shapes[*j], &[stack, &[*j]].concat()),
        }
    }
    /// What it requires is being made already.
    fn back_p(&self, p: &P, stack: &[usize]) -> bool {
        match &p.v {
            V::Leaf(_) => false,
            V::Inline(sh) => self.back(sh, stack),
            V::Ref(j) => stack.contains(j) || self.back(&self.sch.shapes[*j], &[stack, &[*j]].concat()),
        }
    }
    fn back(&self, sh: &Sh, stack: &[usize]) -> bool {
        sh.es.iter().any(|e| matches!(e, E::P(p) if p.card.0 > 0 && self.back_p(p, stack)))
    }
    fn p(&mut self, x: &T, p: &P, stack: &[usize]) {
        if p.card.0 == 0 && (!self.any_p(p, stack) || self.back_p(p, stack)) {
            return;
        }
        let put = |g: &mut G, x: &T, o: &T| if p.inv { g.add(o.clone(), &pred(p.pred), x.clone()) } else { g.add(x.clone(), &pred(p.pred), o.clone()) };
        if let V::Leaf(_) = p.v {
            let values: BTreeSet<&T> = p.vars.iter().filter_map(|v| self.st.get(v)).collect();
            self.complete &= !values.is_empty() && p.card.1.is_none_or(|m| values.len() <= m);
            for v in &p.vars {
                if let Some(t) = self.st.get(v) {
                    put(&mut self.g, x, t);
                }
            }
            return;
        }
        self.n += 1;
        let o = T::b(&format!("fresh{}", self.n));
        put(&mut self.g, x, &o);
        match &p.v {
            V::Inline(sh) => self.sh(&o, sh, stack),
            V::Ref(j) => self.sh(&o, &self.sch.shapes[*j], &[stack, &[*j]].concat()),
            _ => {}
        }
    }
    fn sh(&mut self, x: &T, sh: &Sh, stack: &[usize]) {
        for e in &sh.es {
            match e {
                E::P(p) => self.p(x, p, stack),
                E::All(ps, opt) => {
                    if !opt || ps.iter().any(|p| self.any_p(p, stack)) {
                        ps.iter().for_each(|p| self.p(x, p, stack));
                    }
                }
                E::One(ps) => {
                    let p = ps.iter().find(|p| self.any_p(p, stack)).unwrap_or(&ps[0]);
                    self.p(x, p, stack);
                }
            }
        }
    }
}

const OUT: &[(ResultDataFormat, DataFormat)] = &[
    (ResultDataFormat::NTriples, DataFormat::NTriples),
    (ResultDataFormat::Turtle, DataFormat::Turtle),
    (ResultDataFormat::RdfXml, DataFormat::RdfXml),
    (ResultDataFormat::JsonLd, DataFormat::JsonLd),
    (ResultDataFormat::TriG, DataFormat::TriG),
    (ResultDataFormat::N3, DataFormat::N3),
    (ResultDataFormat::NQuads, DataFormat::NQuads),
];
fn mat(r: &Rudof, node: Option<&str>, f: &ResultDataFormat) -> Result<String, String> {
    let mut out = vec![];
    let m = r.materialize(&mut out).with_result_format(f);
    match node {
        Some(n) => m.with_initial_node_iri(n).execute(),
        None => m.execute(),
    }
    .map_err(|e| format!("materialize: {e}"))?;
    String::from_utf8(out).map_err(|e| e.to_string())
}
fn save(r: &mut Rudof) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    r.serialize_map_state(&mut out).execute().map_err(|e| e.to_string())?;
    Ok(out)
}
fn load_sch(s: &mut Src, c: &mut Case, r: &mut Rudof, sch: &Sch) -> Result<(), String> {
    let (t, f) = if s.flip() { (sch.shexc(), ShExFormat::ShExC) } else { (sch.shexj(), ShExFormat::ShExJ) };
    c.desc += &format!("{t}\n");
    load_shex(r, &t, f).map_err(|e| format!("{e}\n{t}"))
}
/// All variables and their values, by way of a schema that has them all.
fn read_state(r: &mut Rudof) -> Result<BTreeMap<usize, T>, String> {
    let probe = Sch {
        shapes: vec![Sh { es: (0..NV).map(|v| E::P(P { pred: v, inv: false, card: (0, Some(1)), v: V::Leaf(Kind::Any), vars: vec![v] })).collect(), ..Sh::default() }],
        start: false,
        names: 0,
    };
    load_shex(r, &probe.shexc(), ShExFormat::ShExC)?;
    let g = parse_nt(&mat(r, Some("http://root.org/"), &ResultDataFormat::NTriples)?)?;
    let root = T::iri("http://root.org/");
    let mut m = BTreeMap::new();
    for v in 0..NV {
        let os = g.objs(&root, &pred(v));
        if os.len() > 1 {
            return Err(format!("several values of {}", var(v)));
        }
        if let Some(t) = os.first() {
            m.insert(v, t.clone());
        }
    }
    Ok(m)
}

pub fn map(s: &mut Src, c: &mut Case) -> Outcome {
    let dts = ["string", "integer", "decimal", "double", "boolean", "date", "dateTime", "short"];
    let mut kinds: Vec<Kind> = vec![];
    for _ in 0..NV {
        let k = match s.weighted(&[4, 3, 1, 1, 1]) {
            0 => Kind::Dt(xsd(s.picks(&dts))),
            1 => Kind::Iri,
            2 => Kind::Dt("http://www.w3.org/1999/02/22-rdf-syntax-ns#langString".into()),
            3 => Kind::Dt(format!("{EX}dt")),
            _ => Kind::Any,
        };
        kinds.push(k);
    }
    let mut gn = Gen { kinds, fresh: 0 };
    let mut r = rudof();
    // values from before
    let mut before: BTreeMap<usize, T> = BTreeMap::new();
    let pre = s.chance(1, 4);
    if pre {
        let sch = Sch { shapes: vec![Sh { es: (0..NV).map(|v| E::P(P { pred: v, inv: false, card: (0, None), v: V::Leaf(Kind::Any), vars: vec![v] })).collect(), ..Sh::default() }], start: false, names: 0 };
        let mut g = G::default();
        g.add(T::ex("old"), &format!("{EX}other"), T::int(1));
        for v in 0..NV {
            if s.flip() {
                let t = gn.value(s, &gn.kinds[v].clone());
                g.add(T::ex("old"), &pred(v), t.clone());
                before.insert(v, t);
            }
        }
        c.desc += &format!("# before\n{}", g.nt());
        let mut o = rudof();
        let bytes = load_shex(&mut o, &sch.shexc(), ShExFormat::ShExC).and_then(|_| load_nt(&mut o, &g)).and_then(|_| shex_run(&mut o, &format!("<{EX}old>@<{}>", label(0)))).and_then(|_| save(&mut o));
        let f = match bytes {
            Ok(b) => file(&b),
            Err(e) => return fail("before", e),
        };
        if let Err(e) = r.load_map_state(&f.0).execute() {
            return fail("load-state", e.to_string());
        }
    }
    // bind
    let sch = gn.schema(s, false);
    if let Err(e) = load_sch(s, c, &mut r, &sch) {
        return fail("load", e);
    }
    if s.chance(1, 6) {
        let mut bytes = vec![];
        if let Err(e) = r.compile_shex_schema_to_file(&mut bytes).execute() {
            return fail("compile", e.to_string());
        }
        let f = file(&bytes);
        if let Err(e) = r.load_shex_schema_precompiled(&InputSpec::Path(f.0.clone())).execute() {
            return fail("precompiled", e.to_string());
        }
    }
    let mut d = Data { g: G::default(), binds: Binds::new(), tree: false };
    let n = s.size(1, 2);
    let mut pairs = vec![];
    for i in 0..n {
        let x = T::ex(&format!("focus{i}"));
        let j = s.below(sch.shapes.len());
        fill(s, &mut gn, &sch, &sch.shapes[j], &x, &mut d);
        pairs.push(format!("{}@<{}>", x.nt(), label(j)));
    }
    // nodes that are not validated
    let mut decoy = Data { g: G::default(), binds: Binds::new(), tree: false };
    if s.flip() {
        fill(s, &mut gn, &sch, &sch.shapes[0], &T::ex("decoy"), &mut decoy);
        decoy.g.ts.iter().for_each(|(a, p, b)| d.g.add(a.clone(), p, b.clone()));
    }
    c.desc += &format!("{}{}\n", d.g.nt(), pairs.join(","));
    if let Err(e) = load_nt(&mut r, &d.g) {
        return fail("data", e);
    }
    match shex_run(&mut r, &pairs.join(",\n")) {
        Err(e) => return fail("validate", e),
        Ok(v) => {
            if let Some(((n, sh), st)) = v.iter().find(|(_, st)| *st != "conformant") {
                return fail("verdict", format!("{n}@{sh} is {st}"));
            }
        }
    }
    // where the state goes
    match s.below(3) {
        0 => {}
        k => {
            let f = match save(&mut r) {
                Ok(b) => file(&b),
                Err(e) => return fail("save", e),
            };
            if k == 1 {
                r = rudof();
            }
            if let Err(e) = r.load_map_state(&f.0).execute() {
                return fail("load-state", e.to_string());
            }
        }
    }
    let st = match read_state(&mut r) {
        Ok(m) => m,
        Err(e) => return fail("state", e),
    };
    // labels of blank nodes can change
    let mask = |t: &T| if t.is_b() { T::b("x") } else { t.clone() };
    for v in 0..NV {
        let got = st.get(&v).map(mask);
        let ok = match (&got, d.binds.get(&v), before.get(&v)) {
            (Some(t), Some(b), _) => b.iter().any(|x| mask(x) == *t),
            (Some(t), None, Some(o)) => mask(o) == *t,
            (None, None, None) => true,
            _ => false,
        };
        if !ok {
            return fail("bound", format!("{} is {got:?}, should be {:?} or {:?}", var(v), d.binds.get(&v), before.get(&v)));
        }
    }
    // materialize
    let target = gn.schema(s, true);
    if let Err(e) = load_sch(s, c, &mut r, &target) {
        return fail("load-target", e);
    }
    let root = s.chance(2, 3).then_some("http://root.org/r");
    let x = root.map_or(T::b("root"), T::iri);
    let mut m = Mat { sch: &target, st: &st, g: G::default(), n: 0, complete: true };
    m.sh(&x, &target.shapes[0], &[0]);
    let (rf, df) = s.pick(OUT);
    let text = match mat(&r, root, rf) {
        Ok(t) => t,
        Err(e) => return fail("materialize", e),
    };
    if let Err(e) = load_data(&mut r, &text, *df, false) {
        return fail("unreadable", format!("{e}\n{text}"));
    }
    let got = match write_data(&mut r, ResultDataFormat::NTriples).and_then(|t| parse_nt(&t)) {
        Ok(g) => g,
        Err(e) => return fail("write", e),
    };
    c.nontrivial = d.binds.len() > 1 && m.g.ts.len() > 1;
    if !got.iso(&m.g) {
        return fail("graph", format!("{}\nshould be\n{}", got.nt(), m.g.nt()));
    }
    if m.complete && root.is_some() && !m.g.ts.is_empty() {
        c.label("complete");
        match shex_run(&mut r, &format!("<http://root.org/r>@<{}>", label(0))) {
            Ok(v) if v.values().all(|st| st == "conformant") => {}
            v => return fail("conforms", format!("{v:?}\n{}", got.nt())),
        }
    }
    Outcome::Pass
}
/// A tree that is validated and materialized with the same schema is made again.
pub fn copy(s: &mut Src, c: &mut Case) -> Outcome {
    let dts = ["string", "integer", "decimal", "double", "boolean", "date", "dateTime", "short"];
    let mut kinds: Vec<Kind> = vec![];
    for _ in 0..NV {
        let k = match s.weighted(&[4, 3, 1, 1]) {
            0 => Kind::Dt(xsd(s.picks(&dts))),
            1 => Kind::Iri,
            2 => Kind::Dt("http://www.w3.org/1999/02/22-rdf-syntax-ns#langString".into()),
            _ => Kind::Dt(format!("{EX}dt")),
        };
        kinds.push(k);
    }
    let mut gn = Gen { kinds, fresh: 0 };
    let mut sch = gn.schema(s, true);
    // every constraint has its own variables where possible: no recursion
    fn acyclic(shapes: &mut [Sh]) {
        for (i, sh) in shapes.iter_mut().enumerate() {
            prune(sh, i);
        }
    }
    fn prune(sh: &mut Sh, i: usize) {
        sh.es.retain(|e| !matches!(e, E::P(P { v: V::Ref(j), .. }) if *j <= i));
        if sh.es.is_empty() {
            sh.es.push(E::P(P { pred: 9, inv: false, card: (1, Some(1)), v: V::Leaf(Kind::Any), vars: vec![0] }));
        }
        for e in &mut sh.es {
            if let E::P(P { v: V::Inline(x), .. }) = e {
                prune(x, i);
            }
        }
    }
    acyclic(&mut sch.shapes);
    let mut d = Data { g: G::default(), binds: Binds::new(), tree: true };
    fill(s, &mut gn, &sch, &sch.shapes[0], &T::ex("focus"), &mut d);
    // what the schema makes of the values
    let st: BTreeMap<usize, T> = d.binds.iter().map(|(v, b)| (*v, b.first().unwrap().clone())).collect();
    let mut m = Mat { sch: &sch, st: &st, g: G::default(), n: 0, complete: true };
    m.sh(&T::ex("focus"), &sch.shapes[0], &[0]);
    if !m.g.iso(&d.g) {
        return Outcome::Discard("a variable is used where there is no value");
    }
    let mut r = rudof();
    if let Err(e) = load_sch(s, c, &mut r, &sch) {
        return fail("load", e);
    }
    c.desc += &d.g.nt();
    c.nontrivial = d.g.ts.len() > 2;
    let run = |r: &mut Rudof| -> Result<(G, G), String> {
        load_nt(r, &d.g)?;
        let v = shex_run(r, &format!("<{EX}focus>@<{}>", label(0)))?;
        if v.values().any(|s| s != "conformant") {
            return Err(format!("{v:?}"));
        }
        let a = parse_nt(&mat(r, Some(&format!("{EX}focus")), &ResultDataFormat::NTriples)?)?;
        load_nt(r, &a)?;
        let v = shex_run(r, &format!("<{EX}focus>@<{}>", label(0)))?;
        if v.values().any(|s| s != "conformant") {
            return Err(format!("again {v:?}"));
        }
        let b = parse_nt(&mat(r, Some(&format!("{EX}focus")), &ResultDataFormat::NTriples)?)?;
        Ok((a, b))
    };
    match run(&mut r) {
        Err(e) => fail("run", e),
        Ok((a, b)) if !a.iso(&d.g) || !b.iso(&d.g) => fail("copy", format!("{}\nand\n{}", a.nt(), b.nt())),
        Ok(_) => Outcome::Pass,
    }
}
/// What has no finite graph is an error.
pub fn endless() -> Result<(), String> {
    for t in ["start=@<http://e/S> <http://e/S> { <http://e/p> @<http://e/S> }", "<http://e/S> { <http://e/p> @<http://e/T> + } <http://e/T> { <http://e/q> { <http://e/r> @<http://e/S> } }"] {
        let mut r = rudof();
        load_shex(&mut r, t, ShExFormat::ShExC)?;
        let f = file(b"{}");
        r.load_map_state(&f.0).execute().map_err(|e| e.to_string())?;
        if let Ok(g) = mat(&r, None, &ResultDataFormat::NTriples) {
            return Err(format!("{t}: {g}"));
        }
    }
    Ok(())
}
