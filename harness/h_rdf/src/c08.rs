//! C08: what shape maps select, and how they and their results are written.
use crate::docs::{IRIS, STRINGS, pn_local};
use common::*;
use hlib::*;
use rudof_lib::Rudof;
use rudof_lib::formats::{DataFormat, IriNormalizationMode, ResultShExValidationFormat, ShExFormat, ShExValidationSortByMode, ShapeMapFormat};
use rudof_rdf::rdf_core::term::Object;
use std::collections::{BTreeMap, BTreeSet};

const NODES: &str = "http://base.org/";
const SHAPES: &str = "http://shapes.org/";
const ALIASES: &[&str] = &["", "ex", "b", "s", "p-1", "x.y", "a", "start", "true"];
const NAMESPACES: &[&str] = &["http://e.org/", "http://base.org/", "http://base.org/d/", "http://e.org/x#", "http://shapes.org/", "http://e.org/a", "http://shapes.org/s/", "urn:x:"];
const PRED: &[&str] = &["http://e.org/p", "http://e.org/q", "http://base.org/pp", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"];

#[derive(Clone, Debug)]
enum Sel {
    Node(T),
    /// `{FOCUS p o}` or, backwards, `{s p FOCUS}`
    Triple(String, Option<T>, bool),
    Query(Q),
}
#[derive(Clone, Debug)]
enum Q {
    Subjects(String, Option<T>),
    Objects(Option<T>, String),
    Kind(bool),
    Union(String, String),
    Loops,
}
/// The shapes: name (START for the start shape) and what they ask.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Kind {
    Iri,
    Lit,
    BNode,
    Has,
    Lacks,
    Leaf,
    Vals,
    Any,
}
const KINDS: &[Kind] = &[Kind::Iri, Kind::Lit, Kind::BNode, Kind::Has, Kind::Lacks, Kind::Leaf, Kind::Vals, Kind::Any];

struct World {
    g: G,
    nodes_pm: BTreeMap<String, String>,
    shapes_pm: BTreeMap<String, String>,
    decls: Vec<(String, Kind)>,
    start: Kind,
    has: String,
    vals: Vec<T>,
}
fn lit(s: &mut Src) -> T {
    match s.weighted(&[3, 2, 3]) {
        0 => T::str(s.picks(STRINGS)),
        1 => T::lang(s.picks(STRINGS), s.picks(&["en", "fr", "en-gb"])),
        _ => {
            let (l, d) = s.picks(&[
                ("1", "integer"),
                ("-7", "integer"),
                ("1.5", "decimal"),
                ("true", "boolean"),
                ("false", "boolean"),
                ("2020-01-01", "date"),
                ("2020-01-01T00:00:00Z", "dateTime"),
                ("a b", "http://e.org/dt"),
                ("x\"y\\", "http://e.org/dt"),
                ("1", "http://e.org/a"),
            ]);
            T::typed(l, d)
        }
    }
}
fn iri(s: &mut Src) -> T {
    let n = if s.flip() { 5 } else { IRIS.len() };
    T::iri(s.picks(&IRIS[..n]))
}
fn world(s: &mut Src) -> World {
    let mut g = G::default();
    for _ in 0..s.size(0, 7) {
        let sub = if s.chance(1, 4) { T::b(s.picks(&["b0", "b1"])) } else { iri(s) };
        let o = match s.weighted(&[4, 3, 1]) {
            0 => lit(s),
            1 => iri(s),
            _ => T::b(s.picks(&["b0", "b1"])),
        };
        g.add(sub, s.picks(PRED), o);
    }
    let pm = |s: &mut Src| {
        let mut m = BTreeMap::new();
        for _ in 0..s.below(5) {
            m.insert(s.picks(ALIASES).to_string(), s.picks(NAMESPACES).to_string());
        }
        m
    };
    let (nodes_pm, shapes_pm) = (pm(s), pm(s));
    let mut decls: Vec<(String, Kind)> = vec![];
    for i in 0..s.size(1, 5) {
        let l = s.picks(&["http://shapes.org/", "http://shapes.org/s/", "http://e.org/x#", "urn:x:", "http://base.org/"]);
        decls.push((format!("{l}{}", ["A", "B", "s-1", "D.e", "1f"][i]), s.picks(KINDS)));
    }
    let vals = (0..s.size(1, 3)).map(|_| if s.flip() { lit(s) } else { iri(s) }).collect();
    World { g, nodes_pm, shapes_pm, decls, start: s.picks(KINDS), has: s.picks(PRED).to_string(), vals }
}
impl World {
    fn turtle(&self) -> String {
        let mut o: String = self.nodes_pm.iter().map(|(a, n)| format!("PREFIX {a}: <{n}>\n")).collect();
        o.push_str(&self.g.nt());
        o
    }
    fn expr(&self, k: Kind) -> String {
        match k {
            Kind::Iri => "IRI".into(),
            Kind::Lit => "LITERAL".into(),
            Kind::BNode => "BNODE".into(),
            Kind::Has => format!("{{ <{}> . + }}", self.has),
            Kind::Lacks => format!("NOT {{ <{}> . + }}", self.has),
            Kind::Leaf => "CLOSED { }".into(),
            Kind::Vals => format!("[ {} ]", self.vals.iter().map(|v| v.nt()).collect::<Vec<_>>().join(" ")),
            Kind::Any => "{ }".into(),
        }
    }
    fn shex(&self) -> String {
        let mut o: String = self.shapes_pm.iter().map(|(a, n)| format!("PREFIX {a}: <{n}>\n")).collect();
        o.push_str(&format!("start = {}\n", self.expr(self.start)));
        for (l, k) in &self.decls {
            o.push_str(&format!("<{l}> {}\n", self.expr(*k)));
        }
        o
    }
    fn conforms(&self, k: Kind, n: &T) -> bool {
        let has = self.g.out(n).iter().any(|(p, _)| **p == self.has);
        match k {
            Kind::Iri => n.is_iri(),
            Kind::Lit => n.is_lit(),
            Kind::BNode => n.is_b(),
            Kind::Has => has,
            Kind::Lacks => !has,
            Kind::Leaf => self.g.out(n).is_empty(),
            Kind::Vals => self.vals.contains(n),
            Kind::Any => true,
        }
    }
    fn select(&self, sel: &Sel) -> BTreeSet<T> {
        let ts = || self.g.ts.iter();
        let is = |o: &Option<T>, t: &T| o.as_ref().is_none_or(|o| o == t);
        match sel {
            Sel::Node(t) => BTreeSet::from([t.clone()]),
            Sel::Triple(p, o, false) | Sel::Query(Q::Subjects(p, o)) => ts().filter(|t| t.1 == *p && is(o, &t.2)).map(|t| t.0.clone()).collect(),
            Sel::Triple(p, o, true) | Sel::Query(Q::Objects(o, p)) => ts().filter(|t| t.1 == *p && is(o, &t.0)).map(|t| t.2.clone()).collect(),
            Sel::Query(Q::Kind(iri)) => ts().map(|t| t.2.clone()).filter(|t| if *iri { t.is_iri() } else { t.is_lit() }).collect(),
            Sel::Query(Q::Union(p, q)) => ts().filter(|t| t.1 == *p).map(|t| t.0.clone()).chain(ts().filter(|t| t.1 == *q).map(|t| t.2.clone())).collect(),
            Sel::Query(Q::Loops) => ts().filter(|t| t.0 == t.2).map(|t| t.0.clone()).collect(),
        }
    }
    fn expected(&self, map: &[(Sel, Option<usize>)]) -> BTreeMap<(T, String), bool> {
        let mut m = BTreeMap::new();
        for (sel, l) in map {
            let (name, k) = match l {
                None => ("Start".to_string(), self.start),
                Some(i) => (self.decls[*i].0.clone(), self.decls[*i].1),
            };
            for n in self.select(sel) {
                let ok = self.conforms(k, &n);
                m.insert((n, name.clone()), ok);
            }
        }
        m
    }
}
fn selectors(s: &mut Src, w: &World) -> Vec<(Sel, Option<usize>)> {
    let known: Vec<T> = w.g.nodes().into_iter().collect();
    let node = |s: &mut Src| {
        if !known.is_empty() && s.chance(2, 3) {
            s.pick(&known).clone()
        } else {
            match s.weighted(&[3, 3]) {
                0 => iri(s),
                _ => lit(s),
            }
        }
    };
    let preds: Vec<String> = w.g.ts.iter().map(|t| t.1.clone()).collect();
    let pred = |s: &mut Src| if !preds.is_empty() && s.chance(4, 5) { s.pick(&preds).clone() } else { s.picks(PRED).to_string() };
    // blank nodes are variables inside of patterns, and literals are never subjects
    let end = |s: &mut Src, subj: bool| match node(s) {
        _ if s.flip() => None,
        T::B(_) => None,
        t if subj && !t.is_iri() => None,
        t => Some(t),
    };
    (0..s.size(1, 5))
        .map(|_| {
            let sel = match s.weighted(&[4, 4, 3]) {
                0 => Sel::Node(node(s)),
                1 => {
                    let back = s.flip();
                    Sel::Triple(pred(s), end(s, back), back)
                }
                _ => Sel::Query(match s.below(5) {
                    0 => Q::Subjects(pred(s), end(s, false)),
                    1 => Q::Objects(end(s, true), pred(s)),
                    2 => Q::Kind(s.flip()),
                    3 => Q::Union(pred(s), pred(s)),
                    _ => Q::Loops,
                }),
            };
            (sel, if s.chance(1, 4) { None } else { Some(s.below(w.decls.len())) })
        })
        .collect()
}
fn name(s: &mut Src, i: &str, pm: &BTreeMap<String, String>, base: &str) -> String {
    if s.chance(1, 4)
        && let Some(r) = i.strip_prefix(base)
        && !r.is_empty()
        && !r.split(['/', '?', '#']).next().unwrap().contains(':')
    {
        return format!("<{r}>");
    }
    if s.chance(3, 4) {
        let c: Vec<_> = pm.iter().filter(|(_, n)| i.starts_with(n.as_str())).collect();
        if !c.is_empty() {
            let (a, n) = *s.pick(&c);
            if let Some(l) = pn_local(&i[n.len()..], s) {
                return format!("{a}:{l}");
            }
        }
    }
    format!("<{i}>")
}
fn string(s: &mut Src, t: &str) -> String {
    let plain = !t.contains(['\\', '\n', '\r']);
    match s.below(4) {
        0 if plain && !t.contains('\'') => format!("'{t}'"),
        1 if !t.contains('\\') && !t.contains('"') => format!("\"\"\"{t}\"\"\""),
        2 if !t.contains('\\') && !t.contains('\'') => format!("'''{t}'''"),
        _ => quote(t),
    }
}
fn term(s: &mut Src, t: &T, w: &World) -> String {
    match t {
        T::Iri(i) => name(s, i, &w.nodes_pm, NODES),
        T::B(b) => format!("_:{b}"),
        T::L { lex, dt, lang } => {
            let short = s.flip();
            if short && [xsd("integer"), xsd("decimal"), xsd("boolean")].contains(dt) {
                return lex.clone();
            }
            let q = string(s, lex);
            match lang {
                Some(l) => format!("{q}@{l}"),
                None if *dt == xsd("string") && short => q,
                None => format!("{q}^^{}", name(s, dt, &w.nodes_pm, NODES)),
            }
        }
    }
}
fn query(s: &mut Src, q: &Q) -> String {
    let d = if s.flip() { "DISTINCT " } else { "" };
    let v = s.picks(&["focus", "x", "n1"]);
    let o = |o: &Option<T>| o.as_ref().map(|t| t.nt()).unwrap_or("?any".into());
    let wh = if s.flip() { "WHERE " } else { "" };
    let body = match q {
        Q::Subjects(p, x) => format!("?{v} <{p}> {}", o(x)),
        Q::Objects(x, p) => format!("{} <{p}> ?{v}", o(x)),
        Q::Kind(iri) => format!("?a ?b ?{v} FILTER({}(?{v}))", if *iri { "isIRI" } else { "isLiteral" }),
        Q::Union(p, q) => format!("{{ ?{v} <{p}> ?y }} UNION {{ ?z <{q}> ?{v} }}"),
        Q::Loops => format!("?{v} ?p ?{v}"),
    };
    // the first variable selects
    let more = match q {
        Q::Subjects(_, None) | Q::Objects(None, _) if s.chance(1, 4) => " ?any",
        Q::Union(..) if s.chance(1, 4) => " ?z ?y",
        Q::Loops if s.chance(1, 4) => " ?p",
        _ => "",
    };
    format!("SELECT {d}?{v}{more} {wh}{{ {body} }}")
}
fn sp(s: &mut Src) -> &'static str {
    s.picks(&["", " ", "", "\n", " # x@y, \"z\n", "\t "])
}
fn sp1(s: &mut Src) -> &'static str {
    s.picks(&[" ", "\n", " # c\n", "  "])
}
fn sel(s: &mut Src, x: &Sel, w: &World) -> String {
    match x {
        Sel::Node(t) => term(s, t, w),
        Sel::Triple(p, o, back) => {
            let p = if p.ends_with("#type") && s.flip() { "a".to_string() } else { name(s, p, &w.nodes_pm, NODES) };
            let o = match o {
                Some(t) => term(s, t, w),
                None => "_".into(),
            };
            let f = s.picks(&["FOCUS", "focus", "Focus"]);
            let (a, b) = if *back { (o.as_str(), f) } else { (f, o.as_str()) };
            format!("{{{}{a}{}{p}{}{b}{}}}", sp(s), sp1(s), sp1(s), sp(s))
        }
        Sel::Query(q) => {
            let t = query(s, q);
            format!("{}{}{}", s.picks(&["SPARQL", "sparql"]), sp1(s), string(s, &t))
        }
    }
}
fn shape(s: &mut Src, l: Option<usize>, w: &World) -> String {
    match l {
        None => s.picks(&["START", "start", "Start"]).to_string(),
        Some(i) => name(s, &w.decls[i].0, &w.shapes_pm, SHAPES),
    }
}
fn write(s: &mut Src, map: &[(Sel, Option<usize>)], w: &World) -> String {
    let mut o = sp(s).to_string();
    for (i, (x, l)) in map.iter().enumerate() {
        if i > 0 {
            o.push(',');
            o.push_str(sp(s));
        }
        let t = sel(s, x, w);
        o.push_str(&t);
        // "x"@en is a literal, whatever comes next
        o.push_str(if t.ends_with(['"', '\'']) { sp1(s) } else { sp(s) });
        o.push('@');
        o.push_str(sp(s));
        o.push_str(&shape(s, *l, w));
        o.push_str(sp(s));
    }
    if s.chance(1, 4) {
        o.push(',');
        o.push_str(sp(s));
    }
    o
}
fn node(o: &Object) -> Result<T, String> {
    Ok(match o {
        Object::Iri(i) => T::iri(i.as_str()),
        Object::BlankNode(b) => T::b(b),
        Object::Literal(l) => {
            let lex = l.lexical_form();
            match l.lang() {
                Some(g) => T::lang(lex, &g.to_string().to_lowercase()),
                None => T::typed(lex, l.datatype().get_iri().map_err(|e| e.to_string())?.as_str()),
            }
        }
        o => return Err(format!("odd node {o:?}")),
    })
}
fn results(r: &Rudof) -> Result<BTreeMap<(T, String), bool>, String> {
    let mut m = BTreeMap::new();
    for (n, l, v) in r.shex_validation_results().ok_or("no results")?.iter() {
        let ok = match v.code().as_str() {
            "conformant" => true,
            "nonconformant" => false,
            c => return Err(format!("status {c}")),
        };
        if m.insert((node(n.as_object())?, l.to_string()), ok).is_some() {
            return Err(format!("{n} @ {l} twice"));
        }
    }
    Ok(m)
}
fn diff(want: &BTreeMap<(T, String), bool>, got: &BTreeMap<(T, String), bool>) -> Option<(&'static str, String)> {
    for (k, v) in want {
        match got.get(k) {
            None => return Some(("missing", format!("{} @ {} has no verdict", k.0.nt(), k.1))),
            Some(g) if g != v => return Some(("verdict", format!("{} @ {}: conformant {g}", k.0.nt(), k.1))),
            _ => {}
        }
    }
    got.keys().find(|k| !want.contains_key(k)).map(|k| ("extra", format!("{} @ {} was not asked", k.0.nt(), k.1)))
}
fn load_map(r: &mut Rudof, text: &str) -> Result<(), String> {
    let m = spec(text);
    r.load_shapemap(&m).with_base_nodes(NODES).with_base_shapes(SHAPES).execute().map_err(|e| e.to_string())
}
fn print_map(r: &mut Rudof, f: ShapeMapFormat) -> Result<String, String> {
    let mut out = vec![];
    r.serialize_shapemap(&mut out).with_result_shapemap_format(&f).with_show_colors(false).execute().map_err(|e| e.to_string())?;
    String::from_utf8(out).map_err(|e| e.to_string())
}
fn session(w: &World) -> Result<Rudof, Outcome> {
    let mut r = rudof();
    load_data(&mut r, &w.turtle(), DataFormat::Turtle, false).map_err(|e| fail("load-data", e))?;
    let sch = spec(w.shex());
    r.load_shex_schema(&sch)
        .with_shex_schema_format(&ShExFormat::ShExC)
        .with_base("http://third.org/")
        .execute()
        .map_err(|e| fail("load-schema", e.to_string()))?;
    Ok(r)
}
fn of(x: &Sel) -> &'static str {
    match x {
        Sel::Node(T::L { .. }) => "literal",
        Sel::Node(_) => "node",
        Sel::Triple(..) => "pattern",
        Sel::Query(_) => "query",
    }
}
/// Selected pairs, however the map is given; the printed map selects the same.
pub fn maps(s: &mut Src, c: &mut Case) -> Outcome {
    let w = world(s);
    let map = selectors(s, &w);
    let want = w.expected(&map);
    c.desc = format!("{}--\n{}--\n", w.turtle(), w.shex());
    for (x, _) in &map {
        c.label(of(x));
    }
    let kinds = if map.len() == 1 { of(&map[0].0) } else { "several" };
    c.nontrivial = want.len() >= 2;
    let mut r = match session(&w) {
        Ok(r) => r,
        Err(o) => return o,
    };
    if s.chance(1, 3) {
        c.label("pair by pair");
        for (x, l) in &map {
            let n = sel(s, x, &w);
            let lax = s.flip();
            let mode = if lax { IriNormalizationMode::Lax } else { IriNormalizationMode::Strict };
            let t = l.map(|_| shape(s, *l, &w));
            let t = if t.is_none() && s.flip() { Some("START".to_string()) } else { t };
            let n = match x {
                Sel::Node(T::Iri(i)) if lax && s.flip() && i.starts_with("http://") => i.clone(),
                // a quoted selector with a URL in it is taken for an IRI: a documented heuristic
                Sel::Node(T::L { .. }) | Sel::Query(_) if lax && n.contains("://") => {
                    return Outcome::Discard("lax mode and a URL inside of a literal or query");
                }
                // an IRI in a prefixed name
                Sel::Node(T::Iri(_)) if lax && !n.starts_with('<') && n.contains("://") => return Outcome::Discard("lax mode and a URL inside of a literal or query"),
                _ => n,
            };
            c.desc.push_str(&format!("add {n} @ {t:?}\n"));
            let mut a = r.add_node_shape_to_shapemap(&n).with_base_nodes(NODES).with_base_shapes(SHAPES).with_iri_mode(mode);
            if let Some(t) = &t {
                a = a.with_shape(t);
            }
            if let Err(e) = a.execute() {
                return fail(format!("add-{}", of(x)), e.to_string());
            }
        }
    } else {
        let text = write(s, &map, &w);
        c.desc.push_str(&text);
        if let Err(e) = load_map(&mut r, &text) {
            return fail(format!("load-{kinds}"), format!("{e}\n{text}"));
        }
    }
    if let Err(e) = r.validate_shex().execute() {
        return fail(format!("validate-{kinds}"), e.to_string());
    }
    let got = match results(&r) {
        Ok(m) => m,
        Err(e) => return fail("results", e),
    };
    if let Some((k, m)) = diff(&want, &got) {
        return fail(format!("{k}-{kinds}"), m);
    }
    if s.chance(1, 2) {
        c.label("printed");
        let text = match print_map(&mut r, ShapeMapFormat::Compact) {
            Ok(t) => t,
            Err(e) => return fail(format!("print-{kinds}"), e),
        };
        c.desc.push_str(&format!("\n-- printed\n{text}"));
        let mut r = match session(&w) {
            Ok(r) => r,
            Err(o) => return o,
        };
        if let Err(e) = load_map(&mut r, &text) {
            return fail(format!("reload-{kinds}"), format!("{e}\n{text}"));
        }
        if let Err(e) = r.validate_shex().execute() {
            return fail(format!("revalidate-{kinds}"), e.to_string());
        }
        match results(&r) {
            Ok(m) => {
                if let Some((k, m)) = diff(&want, &m) {
                    return fail(format!("printed-{k}-{kinds}"), m);
                }
            }
            Err(e) => return fail("results", e),
        }
    }
    Outcome::Pass
}
/// The results, in every format and order, list the pairs of the map with their status.
pub fn formats(s: &mut Src, c: &mut Case) -> Outcome {
    let w = world(s);
    let map = selectors(s, &w);
    let want = w.expected(&map);
    let text = write(s, &map, &w);
    c.desc = format!("{}--\n{}--\n{text}", w.turtle(), w.shex());
    c.nontrivial = want.len() >= 2;
    let mut r = match session(&w) {
        Ok(r) => r,
        Err(o) => return o,
    };
    if let Err(e) = load_map(&mut r, &text).and_then(|_| r.validate_shex().execute().map_err(|e| e.to_string())) {
        return fail("run", e);
    }
    let (yes, no) = (want.values().filter(|v| **v).count(), want.values().filter(|v| !**v).count());
    for f in [ResultShExValidationFormat::Json, ResultShExValidationFormat::Csv, ResultShExValidationFormat::Compact, ResultShExValidationFormat::Details] {
        let sort = s.picks(&[ShExValidationSortByMode::Node, ShExValidationSortByMode::Shape, ShExValidationSortByMode::Status, ShExValidationSortByMode::Details]);
        let mut out = vec![];
        let tag = format!("{f:?}").to_lowercase();
        if let Err(e) = r.serialize_shex_validation_results(&mut out).with_result_shex_validation_format(&f).with_shex_validation_sort_order_mode(&sort).execute() {
            return fail(format!("format-{tag}"), e.to_string());
        }
        let out = String::from_utf8(out).unwrap_or_default();
        match f {
            ResultShExValidationFormat::Json => {
                let mut m: Vec<(String, String, bool)> = vec![];
                let Ok(serde_json::Value::Array(a)) = serde_json::from_str(&out) else {
                    return fail("format-json-syntax", out);
                };
                for e in &a {
                    let st = |k: &str| e[k].as_str().unwrap_or("?").to_string();
                    m.push((st("node"), st("shape"), st("status") == "conformant"));
                }
                let mut e: Vec<_> = r.shex_validation_results().unwrap().iter().map(|(n, l, v)| (n.to_string(), l.to_string(), v.code() == "conformant")).collect();
                m.sort();
                e.sort();
                if m != e || m.len() != want.len() {
                    return fail("format-json", format!("{m:?}\n{e:?}"));
                }
                for (n, ..) in want.keys().filter_map(|(n, _)| if let T::Iri(i) = n { Some((i, 0)) } else { None }) {
                    if !m.iter().any(|x| x.0 == *n) {
                        return fail("format-json-iri", format!("{n}\n{out}"));
                    }
                }
            }
            ResultShExValidationFormat::Csv => {
                let rows = csv(&out);
                let st = |x: &str| rows.iter().skip(1).filter(|r| r.get(2).is_some_and(|c| c == x)).count();
                if rows.len() != want.len() + 1 || st("OK") != yes || st("FAIL") != no {
                    return fail("format-csv", format!("expected {yes} OK, {no} FAIL\n{out}"));
                }
                let key = |r: &Vec<String>| match sort {
                    // literals that differ only in their language tag count as equal
                    ShExValidationSortByMode::Node => Some(r[0].clone()).filter(|n| n.contains(':') && !n.starts_with('"')),
                    ShExValidationSortByMode::Shape => Some(r[1].clone()),
                    ShExValidationSortByMode::Status => Some(if r[2] == "OK" { "0" } else { "1" }.to_string()),
                    _ => None,
                };
                // what belongs together stays together
                let ks: Vec<_> = rows.iter().skip(1).filter_map(key).collect();
                let mut d = ks.clone();
                d.dedup();
                if d.iter().collect::<BTreeSet<_>>().len() != d.len() {
                    return fail("format-csv-order", format!("{sort:?}\n{out}"));
                }
            }
            _ => {
                let rows: Vec<&str> = out.lines().filter(|l| l.starts_with('│')).collect();
                let st = |x: &str| rows.iter().filter(|l| l.split('│').nth(3).is_some_and(|c| c.trim() == x)).count();
                if st("OK") != yes || st("FAIL") != no {
                    return fail(format!("format-{tag}"), format!("expected {yes} OK, {no} FAIL\n{out}"));
                }
            }
        }
    }
    Outcome::Pass
}
/// RFC 4180.
fn csv(t: &str) -> Vec<Vec<String>> {
    let (mut rows, mut row, mut cell, mut quoted) = (vec![], vec![], String::new(), false);
    let mut cs = t.chars().peekable();
    while let Some(ch) = cs.next() {
        match ch {
            '"' if quoted && cs.peek() == Some(&'"') => {
                cs.next();
                cell.push('"');
            }
            '"' => quoted = !quoted,
            ',' if !quoted => row.push(std::mem::take(&mut cell)),
            '\n' if !quoted => {
                row.push(std::mem::take(&mut cell));
                rows.push(std::mem::take(&mut row));
            }
            '\r' if !quoted => {}
            ch => cell.push(ch),
        }
    }
    rows
}
