//! Generator of shapes graphs and data graphs.
use crate::model::*;
use common::Src;
use hlib::lit::*;
use hlib::*;

pub const PREDS: [&str; 3] = ["p0", "p1", "p2"];
pub fn pred(s: &mut Src) -> String {
    format!("{EX}{}", PREDS[s.weighted(&[4, 2, 1])])
}
fn class(s: &mut Src) -> String {
    format!("{EX}C{}", s.below(4))
}
pub fn node(s: &mut Src) -> T {
    match s.weighted(&[4, 1]) {
        0 => T::ex(&format!("n{}", s.below(4))),
        _ => T::b(if s.flip() { "x" } else { "y" }),
    }
}
thread_local! {
    /// Only literals that triple stores keep as they are.
    pub static CANON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn number(s: &mut Src) -> T {
    if CANON.get() {
        return match s.weighted(&[5, 3, 2]) {
            0 => T::int(s.range(-1, 4)),
            1 => T::typed(*s.pick(&["1.5", "2.5", "-0.5", "0.05", "-0.05", "10.5"]), "decimal"),
            _ => T::typed(*s.pick(&["1.5", "2", "-1"]), "double"),
        };
    }
    match s.weighted(&[5, 3, 2, 1, 1]) {
        0 => T::int(s.range(-1, 4)),
        1 => T::typed(*s.pick(&["1.5", "1.0", "2.50", "-0.5", "2.0", "0.05", "-0.05", ".5", "10.0", "+1.0"]), "decimal"),
        2 => T::typed(*s.pick(&["1.5e0", "2E0", "0.0e0", "5e-1", "1e1", "INF", "-INF", "NaN"]), *s.pick(&["double", "double", "float"])),
        3 => T::typed(*s.pick(&["10", "100", "-10", "127", "128", "2147483648", "9007199254740993", "-9223372036854775808", "18446744073709551615"]), *s.pick(&["integer", "decimal", "long", "byte", "unsignedLong"])),
        _ => T::typed(*s.pick(&["1", "2", "3", "-0", "01"]), *s.pick(&["int", "nonNegativeInteger", "byte", "float", "unsignedInt"])),
    }
}
pub fn literal(s: &mut Src) -> T {
    match s.weighted(&[4, 3, 3, 1, 1, 1, 1]) {
        0 => number(s),
        1 => T::str(*s.pick(&["", "a", "ab", "abc", "b", "é", "日本", "a.b", "12", "ABc", "a/x/b"])),
        2 => T::lang(*s.pick(&["a", "b", "ab", "é"]), *s.pick(&["en", "en-gb", "fr", "enx", "fr-be"])),
        3 => T::typed(*s.pick(if CANON.get() { &["true", "false"] } else { &["true", "false", "1"] }), "boolean"),
        4 => T::typed(*s.pick(&["2020-01-31T10:00:00", "2020-02-29T10:00:00", "2021-01-01T00:00:00", "2020-01-31T10:00:00Z", "2021-01-01T00:00:00Z"]), "dateTime"),
        5 if CANON.get() => T::typed(*s.pick(&["abc", "", "1.x"]), *s.pick(&["integer", "boolean", "byte", "dateTime"])),
        5 => T::typed(*s.pick(&["abc", "", "1.5", "300", "-1"]), *s.pick(&["integer", "boolean", "byte", "nonNegativeInteger", "dateTime"])),
        _ => T::typed(*s.pick(&["a", "ab", "1"]), "http://e.org/dt"),
    }
}
pub fn term(s: &mut Src) -> T {
    match s.weighted(&[5, 4]) {
        0 => literal(s),
        _ => node(s),
    }
}
/// Terms that may occur in a shapes graph as constants: no blank nodes, and well-formed.
fn constant(s: &mut Src) -> T {
    match term(s) {
        T::B(_) => T::ex("n0"),
        T::L { lex, dt, lang: None } if valid_lexical(&lex, &dt) == Some(false) => T::str(lex),
        t => t,
    }
}
pub fn path(s: &mut Src, depth: usize) -> Path {
    if depth == 0 {
        return Path::P(pred(s));
    }
    match s.weighted(&[5, 2, 2, 2, 1, 1, 1]) {
        0 => Path::P(pred(s)),
        1 => Path::Inv(Box::new(path(s, depth - 1))),
        2 => Path::Seq((0..s.size(2, 3)).map(|_| path(s, depth - 1)).collect()),
        3 => Path::Alt((0..s.size(2, 3)).map(|_| path(s, depth - 1)).collect()),
        4 => Path::Star(Box::new(path(s, depth - 1))),
        5 => Path::Plus(Box::new(path(s, depth - 1))),
        _ => Path::Opt(Box::new(path(s, depth - 1))),
    }
}
const KINDS: [&str; 6] = ["BlankNode", "IRI", "Literal", "BlankNodeOrIRI", "BlankNodeOrLiteral", "IRIOrLiteral"];
/// Between lo and hi different elements.
fn some(s: &mut Src, xs: &[usize], lo: usize, hi: usize) -> Vec<usize> {
    let mut v = xs.to_vec();
    s.shuffle(&mut v);
    let n = s.size(lo, hi);
    v.truncate(n);
    v
}
/// A component without reference to other shapes.
pub fn comp(s: &mut Src, prop: bool) -> Comp {
    let k = s.weighted(&[3, 4, 3, 4, 3, 3, 3, 3, 2, 2, 3, 3, if prop { 3 } else { 0 }, if prop { 3 } else { 0 }, if prop { 4 } else { 0 }, if prop { 3 } else { 0 }, if prop { 3 } else { 0 }]);
    match k {
        0 => Comp::Class(class(s)),
        1 => Comp::Datatype(match s.below(8) {
            0 => format!("{EX}dt"),
            1 => format!("{RDF}langString"),
            _ => xsd(*s.pick(&["integer", "string", "decimal", "boolean", "double", "byte", "dateTime", "nonNegativeInteger"])),
        }),
        2 => Comp::NodeKind(*s.pick(&KINDS)),
        3 => {
            let k = *s.pick(&["minInclusive", "minExclusive", "maxInclusive", "maxExclusive"]);
            Comp::Range(k, if s.chance(1, 8) { T::typed("2020-06-01T00:00:00", "dateTime") } else { number(s) })
        }
        4 => Comp::MinLength(s.below(5)),
        5 => Comp::MaxLength(s.below(5)),
        6 => Comp::Pattern(s.below(PATTERNS.len())),
        7 => Comp::LanguageIn((0..s.size(1, 2)).map(|_| s.pick(&["en", "fr", "en-GB", "EN", "fr-be"]).to_string()).collect()),
        8 => Comp::Equals(pred(s)),
        9 => Comp::Disjoint(pred(s)),
        10 => Comp::HasValue(constant(s)),
        11 => {
            let mut v: Vec<T> = (0..s.size(1, 3)).map(|_| constant(s)).collect();
            v.dedup();
            Comp::In(v)
        }
        12 => Comp::MinCount(s.below(4)),
        13 => Comp::MaxCount(s.below(4)),
        14 => Comp::UniqueLang(s.chance(4, 5)),
        15 => Comp::LessThan(pred(s)),
        _ => Comp::LessThanOrEquals(pred(s)),
    }
}
fn single(c: &Comp) -> bool {
    !matches!(c, Comp::Class(_) | Comp::HasValue(_) | Comp::Equals(_) | Comp::Disjoint(_) | Comp::Property(_) | Comp::Node(_) | Comp::Not(_) | Comp::And(_) | Comp::Or(_) | Comp::Xone(_) | Comp::LessThan(_) | Comp::LessThanOrEquals(_))
}
/// Adds a component unless it occurs already, or may occur only once.
pub fn push(v: &mut Vec<Comp>, c: Comp) {
    let clash = v.iter().any(|d| {
        *d == c
            || single(&c)
                && std::mem::discriminant(d) == std::mem::discriminant(&c)
                && match (d, &c) {
                    (Comp::Range(a, _), Comp::Range(b, _)) => a == b,
                    _ => true,
                }
    });
    if !clash {
        v.push(c);
    }
}
#[derive(Clone)]
pub struct Knobs {
    pub shapes: usize,
    pub paths: usize,
    /// constraints that refer to other shapes
    pub refs: bool,
    pub comps: bool,
}
pub fn target(s: &mut Src, i: usize, iri: bool) -> Target {
    match s.weighted(&[4, 3, 3, 2, if iri { 2 } else { 0 }]) {
        0 => Target::Node(match constant(s) {
            t if !t.is_iri() && s.flip() => T::ex(&format!("n{}", i % 4)),
            t => t,
        }),
        1 => Target::Class(class(s)),
        2 => Target::SubjectsOf(pred(s)),
        3 => Target::ObjectsOf(pred(s)),
        _ => Target::Implicit,
    }
}
/// A shape with several qualified property shapes for the same values.
fn family(s: &mut Src, k: &Knobs) -> Schema {
    let plain = |id: usize| Shape { id: T::ex(&format!("S{id}")), path: None, comps: vec![], targets: vec![], severity: None, deactivated: false, typed: true, message: None };
    let (np, nn) = (s.size(2, 4), s.size(2, 4));
    let mut shapes = vec![plain(0)];
    for _ in 0..s.size(1, 2) {
        let t = target(s, 0, true);
        shapes[0].targets.push(t);
    }
    let p = path(s, k.paths);
    for i in 1..=np {
        let min = if s.flip() { Some(s.below(3)) } else { None };
        let max = if min.is_none() || s.flip() { Some(s.below(3)) } else { None };
        let shape = 1 + np + s.below(nn);
        let path = Some(if s.chance(1, 4) { path(s, k.paths) } else { p.clone() });
        shapes[0].comps.push(Comp::Property(i));
        shapes.push(Shape { path, comps: vec![Comp::Qualified { shape, min, max, disjoint: s.chance(2, 3) }], ..plain(i) });
    }
    for i in 0..nn {
        let mut comps = vec![];
        for _ in 0..s.size(1, 2) {
            push(&mut comps, comp(s, false));
        }
        shapes.push(Shape { comps, ..plain(1 + np + i) });
    }
    Schema { shapes }
}
pub fn schema(s: &mut Src, k: &Knobs) -> Schema {
    if k.refs && k.comps && k.shapes > 3 && s.chance(1, 16) {
        return family(s, k);
    }
    let n = s.size(1, k.shapes);
    let props: Vec<bool> = (0..n).map(|_| s.chance(3, 5)).collect();
    let mut shapes: Vec<Shape> = vec![];
    let mut referred = vec![false; n];
    // shapes that are validated for their own targets and for those that refer to them
    let busy = s.chance(1, 3);
    for i in 0..n {
        let mut comps = vec![];
        let later: Vec<usize> = (i + 1..n).collect();
        let lp: Vec<usize> = later.iter().copied().filter(|j| props[*j]).collect();
        let ln: Vec<usize> = later.iter().copied().filter(|j| !props[*j]).collect();
        for _ in 0..s.size(if n == 1 { 1 } else { 0 }, 3) {
            let r = k.refs && !later.is_empty() && s.chance(3, 4);
            if !r {
                if k.comps {
                    push(&mut comps, comp(s, props[i]));
                }
                continue;
            }
            let c = match s.weighted(&[if lp.is_empty() { 0 } else { 5 }, if ln.is_empty() { 0 } else { 3 }, 2, 2, 2, 2, if props[i] { 4 } else { 0 }]) {
                0 => Comp::Property(*s.pick(&lp)),
                1 => Comp::Node(*s.pick(&ln)),
                2 => Comp::Not(*s.pick(&later)),
                3 => Comp::And(some(s, &later, 1, 2)),
                4 => Comp::Or(some(s, &later, 1, 3)),
                5 => Comp::Xone(some(s, &later, 1, 3)),
                _ => {
                    let min = if s.flip() { Some(s.below(3)) } else { None };
                    let max = if min.is_none() || s.flip() { Some(s.below(3)) } else { None };
                    Comp::Qualified { shape: *s.pick(&later), min, max, disjoint: s.chance(1, 3) }
                }
            };
            push(&mut comps, c);
        }
        if !props[i] && s.chance(1, 6) {
            comps.push(Comp::Closed((0..s.size(0, 2)).map(|_| if s.flip() { format!("{RDF}type") } else { pred(s) }).collect::<std::collections::BTreeSet<_>>().into_iter().collect()));
        }
        for c in &comps {
            match c {
                Comp::Not(j) | Comp::Node(j) | Comp::Property(j) => referred[*j] = true,
                Comp::And(v) | Comp::Or(v) | Comp::Xone(v) => v.iter().for_each(|j| referred[*j] = true),
                Comp::Qualified { shape, .. } => referred[*shape] = true,
                _ => {}
            }
        }
        let iri = !referred[i] || s.chance(2, 3);
        let id = if iri { T::ex(&format!("S{i}")) } else { T::b(&format!("s{i}")) };
        let mut targets = vec![];
        if i == 0 || busy && s.chance(2, 3) || s.chance(1, 4) {
            for _ in 0..s.size(1, 2) {
                targets.push(target(s, i, iri));
            }
        }
        // implicit targets are those of shapes with an explicit type
        let typed = s.chance(3, 4) || targets.iter().any(|t| matches!(t, Target::Implicit));
        shapes.push(Shape {
            id,
            path: if props[i] { Some(path(s, k.paths)) } else { None },
            comps,
            targets,
            severity: if s.chance(1, 5) { Some(sh(*s.pick(&["Warning", "Info", "Violation"]))) } else { None },
            deactivated: s.chance(1, 10),
            typed,
            message: if s.chance(1, 6) { Some(T::str("a message")) } else { None },
        });
    }
    for (i, sh) in shapes.iter_mut().enumerate() {
        // a shape nobody refers to and without target is not a shape at all unless it is typed
        if !referred[i] && sh.targets.is_empty() {
            sh.typed = true;
        }
    }
    let mut sch = Schema { shapes };
    if sch.recursive() {
        for c in sch.shapes.iter_mut().flat_map(|s| s.comps.iter_mut()) {
            if let Comp::Qualified { disjoint, .. } = c {
                *disjoint = false;
            }
        }
    }
    sch
}
/// Constants of the shapes.
fn constants(sch: &Schema) -> Vec<T> {
    let mut v = vec![];
    for s in &sch.shapes {
        for c in &s.comps {
            match c {
                Comp::HasValue(t) | Comp::Range(_, t) => v.push(t.clone()),
                Comp::In(ts) => v.extend(ts.clone()),
                _ => {}
            }
        }
        for t in &s.targets {
            if let Target::Node(n) = t {
                v.push(n.clone());
            }
        }
    }
    v
}
pub fn data(s: &mut Src, sch: &Schema, n: usize) -> G {
    let mut g = G::default();
    let cs = constants(sch);
    let classes: Vec<String> = (0..4).map(|i| format!("{EX}C{i}")).chain(sch.shapes.iter().filter(|s| s.targets.iter().any(|t| matches!(t, Target::Implicit))).map(|s| if let T::Iri(i) = &s.id { i.clone() } else { String::new() })).filter(|c| !c.is_empty()).collect();
    for _ in 0..s.size(1, n) {
        match s.weighted(&[8, 2, 1]) {
            0 => {
                let o = if !cs.is_empty() && s.chance(1, 3) { s.pick(&cs).clone() } else { term(s) };
                let (a, p) = (node(s), pred(s));
                g.add(a.clone(), &p, o.clone());
                if let T::L { lex, lang: Some(l), .. } = &o
                    && s.flip()
                {
                    g.add(a, &p, T::lang(format!("{lex}2"), l));
                } else if s.chance(1, 4) {
                    // the same value under another predicate
                    g.add(a, &pred(s), o);
                } else if s.chance(1, 4) {
                    // the same value for another node
                    g.add(node(s), &p, o);
                } else if o.is_lit() && !CANON.get() && s.chance(1, 4) {
                    // another literal of the same value
                    let t = hlib::lit::twin(s, &o);
                    let a = if s.flip() { a } else { node(s) };
                    g.add(a, &p, t.clone());
                    if s.flip() {
                        g.add(node(s), &pred(s), hlib::lit::twin(s, &t));
                    }
                }
            }
            1 => g.add(node(s), &format!("{RDF}type"), T::iri(s.pick(&classes).clone())),
            _ => g.add(T::iri(s.pick(&classes).clone()), &format!("{RDFS}subClassOf"), T::iri(s.pick(&classes).clone())),
        }
    }
    if s.chance(1, 8) {
        // an instance of a class far below the one that a shape may name
        let mut up = s.pick(&classes).clone();
        for i in 0..s.size(1, 6) {
            let down = format!("{EX}D{i}");
            g.add(T::iri(down.clone()), &format!("{RDFS}subClassOf"), T::iri(up));
            up = down;
        }
        g.add(node(s), &format!("{RDF}type"), T::iri(up));
    }
    g
}
