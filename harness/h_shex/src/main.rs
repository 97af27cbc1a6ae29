//! ShEx validation against a reference validator.
mod ext;
mod genr;
mod imp;
mod model;
mod nc;
mod ncgen;
mod refv;
mod rt;
use common::*;
use genr::*;
use hlib::*;
use model::*;
use nc::nc_ok;
use refv::*;
use rudof_lib::Rudof;
use rudof_lib::formats::ShExFormat;

/// Displayed form of a node in the results.
fn shown(t: &T) -> String {
    match t {
        T::Iri(i) => i.clone(),
        T::B(b) => format!("_:{b}"),
        T::L { .. } => t.nt(),
    }
}

/// Loads and validates; compares every verdict with the reference.
fn compare(s: &mut Src, c: &mut Case, sch: &Schema, g: &G, json: bool) -> Outcome {
    compare_with(s, c, sch, sch, g, json)
}
/// `plain` is the schema that the reference reads.
fn compare_with(s: &mut Src, c: &mut Case, sch: &Schema, plain: &Schema, g: &G, json: bool) -> Outcome {
    let text = if json { sch.shexj() } else { sch.shexc() };
    c.desc = format!("{}\n--\n{}", sch.shexc(), g.nt());
    c.label(if json { "ShExJ" } else { "ShExC" });
    compare_loaded(s, c, sch, plain, g, &|r| load_shex(r, &text, if json { ShExFormat::ShExJ } else { ShExFormat::ShExC }).map_err(|e| format!("{e}\n{text}")))
}
/// With the schema loaded in some other way.
fn compare_loaded(s: &mut Src, c: &mut Case, sch: &Schema, plain: &Schema, g: &G, load: &dyn Fn(&mut Rudof) -> Result<(), String>) -> Outcome {
    if std::env::var("VERIF_TRACE").is_ok() {
        eprintln!("{}", c.desc);
    }
    let mut r = rudof();
    let data = g.nt_order(s);
    if let Err(e) = load_data(&mut r, &data, rudof_lib::formats::DataFormat::NTriples, false) {
        return fail("load-data", e);
    }
    let (_, neg) = sccs(plain);
    let loaded = load(&mut r);
    if neg {
        c.label("negated recursion");
        return match loaded {
            Err(e) if e.contains("negative cycle") => Outcome::Pass,
            Err(e) => fail("neg-cycle-other-error", e),
            Ok(()) => fail("neg-cycle-accepted", "a schema with recursion through negation was accepted"),
        };
    }
    if let Err(e) = loaded {
        return fail("load-schema", e);
    }
    let mut focus: Vec<T> = (0..4).map(|i| T::ex(NODES[i])).collect();
    if g.nodes().contains(&T::b("x")) {
        focus.push(T::b("x"));
    }
    let kn = knot(plain, g, &focus);
    if kn > 3 {
        return Outcome::Discard("more than 3 mutually dependent (node, shape) pairs");
    }
    c.label_if(kn > 0, "recursion through the data");
    let mut rf = Ref::new(plain, g, &focus);
    rf.solve();
    let mut assoc = vec![];
    for n in &focus {
        for l in 0..sch.decls.len() {
            assoc.push((n.clone(), l));
        }
    }
    s.shuffle(&mut assoc);
    let map: Vec<String> = assoc.iter().map(|(n, l)| format!("{}@<{}>", n.nt(), label(*l))).collect();
    let v = match shex_run(&mut r, &map.join(",")) {
        Ok(v) => v,
        Err(e) => return fail("validate-error", e),
    };
    if rf.stats.ambiguous {
        return Outcome::Discard("left-over incoming arcs");
    }
    c.label_if(rf.stats.disjoint_choice, "triple matched by several constraints");
    let (mut yes, mut no) = (0, 0);
    for (n, l) in &assoc {
        let want = rf.typing.contains(&(n.clone(), *l));
        if want { yes += 1 } else { no += 1 }
        let got = v.get(&(shown(n), label(*l)));
        let w = if want { "conformant" } else { "nonconformant" };
        if got.map(|x| x.as_str()) != Some(w) {
            return fail(
                format!("verdict-{}", if want { "too-strict" } else { "too-lax" }),
                format!("{} @ S{l}: rudof says {got:?}, expected {w}\nquery {}", n.nt(), map.join(",")),
            );
        }
    }
    c.label(match (yes, no) {
        (0, _) => "all nonconformant",
        (_, 0) => "all conformant",
        _ => "mixed verdicts",
    });
    c.nontrivial = yes > 0 && no > 0;
    Outcome::Pass
}

fn check_shapes(s: &mut Src, c: &mut Case) -> Outcome {
    let k = Knobs { labels: 2, refs: false, nested: false, inverse: true, logic: false, depth: 2, incl: false };
    let n = s.size(1, 2);
    let sch = Schema { decls: (0..n).map(|_| Decl { se: SE::Shape(shape(s, &k, 0)), abs: false }).collect(), start: None };
    if count_leaves(&sch) > 6 {
        return Outcome::Discard("more than 6 triple constraints");
    }
    let g = data(s, &sch, 6);
    let json = s.chance(7, 8);
    compare(s, c, &sch, &g, json)
}
fn check_refs(s: &mut Src, c: &mut Case) -> Outcome {
    let n = s.size(1, 3);
    let k = Knobs { labels: n, refs: true, nested: true, inverse: true, logic: true, depth: 1, incl: false };
    let sch = Schema { decls: (0..n).map(|_| Decl { se: se(s, &k, 2), abs: false }).collect(), start: None };
    if count_leaves(&sch) > 5 {
        return Outcome::Discard("more than 5 triple constraints");
    }
    let g = data(s, &sch, 4);
    let json = s.chance(7, 8);
    compare(s, c, &sch, &g, json)
}

fn wild_kind(k: u8, v: &T) -> bool {
    match k {
        0 => v.is_iri(),
        1 => v.is_lit(),
        _ => matches!(v, T::L { lang: Some(_), .. }),
    }
}
/// Coarse class of a value, part of the signature of a failure.
fn class(v: &T) -> String {
    match v {
        T::Iri(_) => "iri".into(),
        T::B(_) => "bnode".into(),
        T::L { lang: Some(_), .. } => "lang".into(),
        T::L { dt, .. } => dt.strip_prefix(XSD).unwrap_or("custom").into(),
    }
}
fn check_ncs(s: &mut Src, c: &mut Case) -> Outcome {
    let n = ncgen::nc(s);
    let tc = Tc { pred: format!("{EX}p"), inv: false, card: (1, Some(1)), val: Some(Box::new(SE::Nc(n.clone()))), notes: vec![] };
    let sch = Schema { decls: vec![Decl { se: SE::Shape(Shape { te: Some(TE::Tc(tc)), ..Default::default() }), abs: false }], start: None };
    let k = s.size(1, 8);
    let vals: Vec<T> = (0..k).map(|_| ncgen::near(s, &n)).collect();
    let text_facet = n.facets.iter().any(|f| matches!(f, Facet::Length(_) | Facet::MinLength(_) | Facet::MaxLength(_) | Facet::Pattern(_)));
    let mut g = G::default();
    let focus: Vec<T> = (0..k).map(|i| T::ex(&format!("n{i}"))).collect();
    for (f, v) in focus.iter().zip(&vals) {
        if v.is_b() && text_facet {
            return Outcome::Discard("text facet on a blank node");
        }
        g.add(f.clone(), &format!("{EX}p"), v.clone());
    }
    let num_facet = n.facets.iter().any(|f| matches!(f, Facet::MinIncl(_) | Facet::MinExcl(_) | Facet::MaxIncl(_) | Facet::MaxExcl(_) | Facet::TotalDigits(_) | Facet::FractionDigits(_)));
    // the compact syntax has no form for text and numeric facets without a datatype
    let json = s.chance(2, 3) || text_facet && num_facet && n.dt.is_none();
    let text = if json { sch.shexj() } else { sch.shexc() };
    c.desc = format!("{}\n--\n{}", sch.shexc(), g.nt());
    c.label(if json { "ShExJ" } else { "ShExC" });
    c.label_if(n.values.is_some(), "value set");
    c.label_if(n.dt.is_some(), "datatype");
    c.label_if(n.kind.is_some(), "node kind");
    c.label_if(!n.facets.is_empty(), "facets");
    let mut r = rudof();
    if let Err(e) = load_nt(&mut r, &g) {
        return fail("load-data", e);
    }
    if let Err(e) = load_shex(&mut r, &text, if json { ShExFormat::ShExJ } else { ShExFormat::ShExC }) {
        return fail("load-schema", format!("{e}\n{text}"));
    }
    let map: Vec<String> = focus.iter().map(|n| format!("{}@<{}>", n.nt(), label(0))).collect();
    let v = match shex_run(&mut r, &map.join(",")) {
        Ok(v) => v,
        Err(e) => return fail("validate-error", e),
    };
    // whether a wildcard with exclusions accepts values of the other kinds is read in several ways
    if let Some(vs) = &n.values
        && vals.iter().any(|v| !nc_ok(&n, v) && vs.iter().any(|x| matches!(x, VS::Any(k, _) if !wild_kind(*k, v))))
    {
        return Outcome::Discard("wildcard and a value of another kind");
    }
    let (mut yes, mut no) = (0, 0);
    for (f, x) in focus.iter().zip(&vals) {
        let want = nc_ok(&n, x);
        if want { yes += 1 } else { no += 1 }
        let got = v.get(&(shown(f), label(0)));
        if got.map(|x| x.as_str()) != Some(if want { "conformant" } else { "nonconformant" }) {
            let k = if n.values.is_some() { "values" } else if n.dt.is_some() { "datatype" } else { "facet" };
            return fail(
                format!("{k}-{}-{}-{}", class(x), if json { "shexj" } else { "shexc" }, if want { "too-strict" } else { "too-lax" }),
                format!("value {} against {}: rudof says {got:?}, expected {}", x.nt(), n.shexc(), if want { "conformant" } else { "nonconformant" }),
            );
        }
    }
    c.label(match (yes, no) {
        (0, _) => "all nonconformant",
        (_, 0) => "all conformant",
        _ => "mixed verdicts",
    });
    c.nontrivial = yes > 0 && no > 0;
    Outcome::Pass
}

fn main() {
    main_with(vec![
        Prop {
            id: "C02",
            rule: "a case is one schema and one graph validated for every node and shape; non-trivial when some pair conforms and some does not",
            checks: vec![Check { name: "shapes", quick: 60_000, thorough: 1_000_000, f: check_shapes }],
            directed: vec![],
            assumptions: &["schemas have at most 6 triple constraints", "left-over incoming arcs and EXTRA on predicates that the expression does not mention are out of the domain"],
        },
        Prop {
            id: "C03",
            rule: "a case is one node constraint and up to 8 values; non-trivial when some value conforms and some does not",
            checks: vec![Check { name: "constraints", quick: 60_000, thorough: 1_000_000, f: check_ncs }],
            directed: vec![],
            assumptions: &["text facets on blank nodes, wildcards against values of another kind and ill-formed literals inside value sets are out of the domain", "date types other than xsd:dateTime are not checked lexically"],
        },
        Prop {
            id: "C04",
            rule: "a case is one schema of up to 3 mutually referring shapes and one graph, all pairs queried in random order; non-trivial when some pair conforms and some does not",
            checks: vec![Check { name: "refs", quick: 40_000, thorough: 1_000_000, f: check_refs }],
            directed: vec![],
            assumptions: &["at most 5 triple constraints and 3 mutually dependent (node, shape) pairs: the search of the engine is exponential in them"],
        },
        Prop {
            id: "C05",
            rule: "a case is one inheritance hierarchy and one graph, all pairs queried; non-trivial when some pair conforms and some does not",
            checks: vec![Check { name: "extends", quick: 40_000, thorough: 1_000_000, f: ext::check_extends }],
            directed: vec![],
            assumptions: &["extended shapes are neither CLOSED nor EXTRA", "shapes of the hierarchy do not refer to each other; one shape outside may refer to them"],
        },
        Prop {
            id: "C15",
            rule: "a case is one schema divided into files that import each other and one graph, all pairs queried; non-trivial when there are several files and some pair conforms and some does not",
            checks: vec![Check { name: "imports", quick: 15_000, thorough: 500_000, f: imp::check_imports }],
            directed: vec![],
            assumptions: &["labels of shapes and triple expressions are unique over all files"],
        },
        Prop {
            id: "C07",
            rule: "a case is one schema compiled to bytes, reloaded, recompiled, cut and damaged; non-trivial when it uses every construct or yields mixed verdicts",
            checks: vec![Check { name: "compiled", quick: 20_000, thorough: 1_000_000, f: ext::check_compiled }],
            directed: vec![],
            assumptions: &["files are damaged only by cutting them and in the first 8 bytes: the format has no checksum over the body"],
        },
        Prop {
            id: "C06",
            rule: "a case is one schema, read in both syntaxes or written and read again; non-trivial when it has more than a bare triple constraint",
            checks: vec![Check { name: "read", quick: 12_000, thorough: 1_000_000, f: rt::check_read }, Check { name: "print", quick: 20_000, thorough: 1_000_000, f: rt::check_print }, Check { name: "layout", quick: 20_000, thorough: 500_000, f: rt::check_layout }],
            directed: vec![Directed { name: "big-numbers", f: rt::big_numbers }],
            assumptions: &["comparison is of the JSON form up to: case of language tags, the empty shape as a value, nested AND/OR, base and prefixes"],
        },
    ]);
}
