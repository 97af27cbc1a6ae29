//! SHACL validation against a reference, and between engines and syntaxes.
mod cons;
mod genr;
mod model;
use common::*;
use genr::*;
use hlib::*;
use model::*;
use rudof_lib::Rudof;
use rudof_lib::formats::{DataFormat, ResultDataFormat, ResultShaclValidationFormat, ShaclFormat, ShaclValidationMode};

fn describe(sch: &Schema, g: &G) -> String {
    format!("{}--\n{}{}", sch.to_rdf().nt(), g.nt(), cons::reif_lines())
}
fn setup(s: &mut Src, sch: &Schema, g: &G) -> Result<Rudof, Outcome> {
    let mut r = rudof();
    let mut d = g.nt_order(s) + &cons::reif_lines();
    // the case of a language tag does not matter
    if s.chance(1, 4) {
        d = d.replacen("\"@en ", "\"@EN ", 1);
    }
    load_data(&mut r, &d, rudof_lib::formats::DataFormat::NTriples, false).map_err(|e| fail("load-data", e))?;
    let sg = sch.to_rdf().nt_order(s);
    load_shacl(&mut r, &sg, ShaclFormat::NTriples).map_err(|e| fail("load-shapes", format!("{e}\n{sg}")))?;
    // the shapes graph as rudof writes it
    if REWRITE.get() {
        let (f, _, _, _) = *s.pick(&FORMATS);
        let text = write_shacl(&mut r, f).map_err(|e| fail("write-error", e))?;
        load_shacl(&mut r, &text, f).map_err(|e| fail("reload-error", format!("{e}\n{text}")))?;
    }
    Ok(r)
}
fn results(r: &mut Rudof, mode: ShaclValidationMode) -> Result<Report, Outcome> {
    run_shacl(r, mode).map_err(|e| fail("validate-error", e))?;
    let t = shacl_report(r, ResultShaclValidationFormat::NTriples).map_err(|e| fail("report-error", e))?;
    read_report(&t).map_err(|e| fail("ill-formed-report", format!("{e}\n{t}")))
}
/// Names the components on which the reports differ.
fn diff(exp: &std::collections::BTreeSet<Res>, got: &Report) -> Option<(String, String)> {
    let missing: std::collections::BTreeSet<Res> = exp.difference(&got.results).cloned().collect();
    let extra: std::collections::BTreeSet<Res> = got.results.difference(exp).cloned().collect();
    let name = |r: &std::collections::BTreeSet<Res>| r.iter().next().map(|r| r.component.trim_start_matches(SH).trim_end_matches("ConstraintComponent").to_string());
    if let Some(n) = name(&missing) {
        return Some((format!("missing-{n}"), format!("missing:\n{}extra:\n{}", show(&missing), show(&extra))));
    }
    if let Some(n) = name(&extra) {
        return Some((format!("extra-{n}"), format!("extra:\n{}", show(&extra))));
    }
    if got.conforms != exp.is_empty() {
        return Some(("conforms".into(), format!("sh:conforms {} with {} results", got.conforms, exp.len())));
    }
    None
}
fn against_reference(s: &mut Src, c: &mut Case, sch: &Schema, g: &G, mode: ShaclValidationMode) -> Outcome {
    c.desc = describe(sch, g);
    OPEN.set(false);
    OPEN_EQ.set(false);
    cons::BLANK.set(false);
    let exp = sch.report(g);
    if cons::BLANK.get() {
        return Outcome::Discard("SPARQL constraint on a blank node");
    }
    if mode == ShaclValidationMode::Sparql && OPEN_EQ.get() {
        return Outcome::Discard("comparison that SPARQL engines decide differently");
    }
    if OPEN.get() {
        return Outcome::Discard("comparison of literals with an unknown datatype");
    }
    let nfocus: usize = (0..sch.shapes.len()).map(|i| sch.focus_nodes(g, i).len()).sum();
    c.nontrivial = nfocus > 0 && !exp.is_empty() && exp.iter().map(|r| &r.focus).collect::<std::collections::BTreeSet<_>>().len() <= nfocus;
    c.label_if(exp.is_empty(), "conforms");
    for r in &exp {
        c.label(r.component.trim_start_matches(SH).trim_end_matches("ConstraintComponent"));
    }
    let mut r = match setup(s, sch, g) {
        Ok(r) => r,
        Err(o) => return o,
    };
    match results(&mut r, mode) {
        Err(o) => o,
        Ok(rep) => match diff(&exp, &rep) {
            Some((sig, m)) => fail(&sig, m),
            None => {
                for (source, component, ms) in &rep.messages {
                    if component == &sh("SPARQLConstraintComponent") {
                        let qs: Vec<&cons::Sq> = sch.shapes.iter().filter(|s| Some(&s.id) == source.as_ref()).flat_map(|s| &s.comps).filter_map(|c| if let Comp::Sparql(q) = c { Some(&**q) } else { None }).collect();
                        if let [q] = qs[..]
                            && let Some(m) = q.bound.as_ref().or(q.message.as_ref())
                            && *ms != std::collections::BTreeSet::from([m.clone()])
                        {
                            return fail("sparql-message", format!("the results of {source:?} should have the message {m:?}, not {ms:?}"));
                        }
                    } else if let Some(m) = sch.shapes.iter().find(|s| Some(&s.id) == source.as_ref()).and_then(|s| s.message.as_ref())
                        && *ms != std::collections::BTreeSet::from([m.clone()])
                    {
                        return fail("message", format!("the results of {source:?} should have the message {m:?}, not {ms:?}"));
                    }
                }
                Outcome::Pass
            }
        },
    }
}
thread_local! {
    static REWRITE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// SPARQL constraints and reifier shapes among other components.
fn constraints(s: &mut Src, c: &mut Case) -> Outcome {
    CANON.set(true);
    cons::REIF.with_borrow_mut(|v| v.clear());
    let depth = s.below(2);
    let mut sch = schema(s, &Knobs { shapes: 3, paths: depth, refs: true, comps: true });
    let n = sch.shapes.len();
    let mut any = false;
    for i in 0..n {
        if let Some(Path::P(_)) = &sch.shapes[i].path
            && i + 1 < n
            && s.chance(1, 3)
        {
            let j = i + 1 + s.below(n - i - 1);
            let required = s.flip();
            sch.shapes[i].comps.push(Comp::Reifier(j, required));
            any = true;
        }
        if i == 0 && !any || s.chance(1, 4) {
            for _ in 0..s.size(1, 2) {
                let q = cons::constraint(s, &sch.shapes[i].path, depth);
                sch.shapes[i].comps.push(q);
            }
        }
    }
    if sch.recursive() {
        for c in sch.shapes.iter_mut().flat_map(|s| s.comps.iter_mut()) {
            if let Comp::Qualified { disjoint, .. } = c {
                *disjoint = false;
            }
        }
    }
    let mut g = data(s, &sch, 9);
    if any {
        let ts: Vec<(T, String, T)> = g.ts.iter().filter(|t| t.1.starts_with(EX)).cloned().collect();
        for t in ts {
            for _ in 0..s.size(0, 2) {
                let r = match s.below(4) {
                    0 => node(s),
                    1 => T::b("r0"),
                    _ => T::ex(&format!("r{}", s.below(3))),
                };
                for _ in 0..s.size(0, 2) {
                    g.add(r.clone(), &pred(s), term(s));
                }
                cons::REIF.with_borrow_mut(|v| {
                    if !v.contains(&(r.clone(), t.clone())) {
                        v.push((r, t.clone()));
                    }
                });
            }
        }
    }
    let mode = if s.flip() { ShaclValidationMode::Native } else { ShaclValidationMode::Sparql };
    REWRITE.set(s.chance(1, 4));
    let o = against_reference(s, c, &sch, &g, mode);
    REWRITE.set(false);
    cons::REIF.with_borrow_mut(|v| v.clear());
    if cons::BLANK.get() { Outcome::Discard("SPARQL constraint on a blank node") } else { o }
}
/// SPARQL constraints on blank nodes.
fn blank_focus() -> Result<(), String> {
    let mut r = rudof();
    load_data(&mut r, &format!("_:b <{EX}p> <{EX}o> .\n"), DataFormat::NTriples, false)?;
    let shapes = format!("@prefix sh: <{SH}> . @prefix ex: <{EX}> . ex:S a sh:NodeShape ; sh:targetSubjectsOf ex:p ; sh:sparql [ sh:select \"SELECT $this ?value WHERE {{ $this <{EX}p> ?value }}\" ] .");
    load_shacl(&mut r, &shapes, ShaclFormat::Turtle)?;
    run_shacl(&mut r, ShaclValidationMode::Native)?;
    let t = shacl_report(&mut r, ResultShaclValidationFormat::NTriples)?;
    let n = read_report(&t)?.results.len();
    if n == 1 { Ok(()) } else { Err(format!("{n} results instead of 1")) }
}
fn core(s: &mut Src, c: &mut Case) -> Outcome {
    CANON.set(false);
    let sch = schema(s, &Knobs { shapes: 2, paths: 0, refs: false, comps: true });
    let g = data(s, &sch, 9);
    against_reference(s, c, &sch, &g, ShaclValidationMode::Native)
}
fn structure(s: &mut Src, c: &mut Case) -> Outcome {
    CANON.set(false);
    let sch = schema(s, &Knobs { shapes: 5, paths: 2, refs: true, comps: true });
    let g = data(s, &sch, 9);
    against_reference(s, c, &sch, &g, ShaclValidationMode::Native)
}
fn sparql(s: &mut Src, c: &mut Case) -> Outcome {
    CANON.set(true);
    let k = s.flip();
    let sch = schema(s, &Knobs { shapes: if k { 2 } else { 4 }, paths: if k { 0 } else { 2 }, refs: !k, comps: true });
    let g = data(s, &sch, 9);
    against_reference(s, c, &sch, &g, ShaclValidationMode::Sparql)
}
const FORMATS: [(ShaclFormat, ResultShaclValidationFormat, DataFormat, &str); 6] = [
    (ShaclFormat::Turtle, ResultShaclValidationFormat::Turtle, DataFormat::Turtle, "turtle"),
    (ShaclFormat::NTriples, ResultShaclValidationFormat::NTriples, DataFormat::NTriples, "ntriples"),
    (ShaclFormat::RdfXml, ResultShaclValidationFormat::RdfXml, DataFormat::RdfXml, "rdfxml"),
    (ShaclFormat::TriG, ResultShaclValidationFormat::TriG, DataFormat::TriG, "trig"),
    (ShaclFormat::N3, ResultShaclValidationFormat::N3, DataFormat::N3, "n3"),
    (ShaclFormat::NQuads, ResultShaclValidationFormat::NQuads, DataFormat::NQuads, "nquads"),
];
/// A shapes graph that rudof writes means the same as the one that it read.
fn rewrite(s: &mut Src, c: &mut Case) -> Outcome {
    CANON.set(false);
    let k = s.flip();
    let sch = schema(s, &Knobs { shapes: if k { 2 } else { 4 }, paths: if k { 0 } else { 2 }, refs: !k, comps: true });
    let g = data(s, &sch, 9);
    c.desc = describe(&sch, &g);
    OPEN.set(false);
    let exp = sch.report(&g);
    if OPEN.get() {
        return Outcome::Discard("comparison of literals with an unknown datatype");
    }
    c.nontrivial = !exp.is_empty();
    let (f, _, _, name) = *s.pick(&FORMATS);
    c.label(name);
    // descriptive properties do not matter for validation and must be kept
    let mut extra = G::default();
    for sh in sch.shapes.iter().filter(|s| s.id.is_iri() && s.path.is_some()) {
        for (p, vs) in [
            ("name", vec![T::str("a name"), T::lang("nom", "fr")]),
            ("description", vec![T::str("d\"\n"), T::lang("d", "en")]),
            ("order", vec![T::int(2), T::typed("1.5", &format!("{XSD}decimal"))]),
        ] {
            if s.chance(1, 4) {
                extra.add(sh.id.clone(), &format!("{SH}{p}"), s.pick(&vs).clone());
            }
        }
    }
    c.desc = format!("{}{}", extra.nt(), c.desc);
    let mut shapes = sch.to_rdf();
    shapes.ts.extend(extra.ts.iter().cloned());
    let mut r = rudof();
    if let Err(e) = load_nt(&mut r, &g) {
        return fail("load-data", e);
    }
    if let Err(e) = load_shacl(&mut r, &shapes.nt_order(s), ShaclFormat::NTriples) {
        return fail("load-shapes", e);
    }
    let text = match write_shacl(&mut r, f) {
        Ok(t) => t,
        Err(e) => return fail("write-error", e),
    };
    let mut r2 = rudof();
    if let Err(e) = load_nt(&mut r2, &g) {
        return fail("load-data", e);
    }
    if let Err(e) = load_shacl(&mut r2, &text, f) {
        return fail("reload-error", format!("{e}\n{text}"));
    }
    if f == ShaclFormat::NTriples {
        let back = match parse_nt(&text) {
            Ok(b) => b,
            Err(e) => return fail("ill-formed-shapes", format!("{e}\n{text}")),
        };
        let described = ["name", "description", "order", "message"].map(|p| format!("{SH}{p}"));
        let got: std::collections::BTreeSet<_> = back.ts.into_iter().filter(|t| t.0.is_iri() && described.contains(&t.1)).collect();
        let exp: std::collections::BTreeSet<_> = shapes.ts.iter().filter(|t| t.0.is_iri() && described.contains(&t.1)).cloned().collect();
        if got != exp {
            return fail("description", format!("expected:\n{exp:?}\ngot:\n{text}"));
        }
    }
    match results(&mut r2, ShaclValidationMode::Native) {
        Err(o) => o,
        Ok(rep) => match diff(&exp, &rep) {
            Some((sig, m)) => fail(&format!("rewritten-{sig}"), format!("{m}\n{text}")),
            None => Outcome::Pass,
        },
    }
}
/// The report means the same in every RDF format.
fn reports(s: &mut Src, c: &mut Case) -> Outcome {
    CANON.set(false);
    let sch = schema(s, &Knobs { shapes: 3, paths: 2, refs: true, comps: true });
    let mut g = data(s, &sch, 9);
    // blank node labels like those that rudof makes up
    if s.flip() {
        let text = g.nt().replace("_:x", if s.flip() { "_:b1" } else { "_:b0" }).replace("_:y", "_:b2");
        g = parse_nt(&text).unwrap();
    }
    c.desc = describe(&sch, &g);
    OPEN.set(false);
    let exp = sch.report(&g);
    if OPEN.get() {
        return Outcome::Discard("comparison of literals with an unknown datatype");
    }
    c.nontrivial = !exp.is_empty();
    let mut r = match setup(s, &sch, &g) {
        Ok(r) => r,
        Err(o) => return o,
    };
    match results(&mut r, ShaclValidationMode::Native) {
        Err(o) => return o,
        Ok(rep) => {
            if let Some((sig, m)) = diff(&exp, &rep) {
                return fail(&sig, m);
            }
        }
    }
    let nt = match shacl_report(&mut r, ResultShaclValidationFormat::NTriples) {
        Ok(t) => lower_tags(&parse_nt(&t).unwrap()),
        Err(e) => return fail("report-error", e),
    };
    let (_, f, df, name) = *s.pick(&FORMATS);
    c.label(name);
    let text = match shacl_report(&mut r, f) {
        Ok(t) => t,
        Err(e) => return fail("report-error", e),
    };
    let mut r2 = rudof();
    if let Err(e) = load_data(&mut r2, &text, df, false) {
        return fail("report-unreadable", format!("{e}\n{text}"));
    }
    let back = match write_data(&mut r2, ResultDataFormat::NTriples).and_then(|t| parse_nt(&t)) {
        Ok(g) => lower_tags(&g),
        Err(e) => return fail("report-unreadable", e),
    };
    if !back.iso(&nt) {
        return fail("report-format", format!("{name} report:\n{text}\nas N-Triples:\n{}", nt.nt()));
    }
    Outcome::Pass
}
fn main() {
    main_with(vec![
        Prop {
            id: "C09",
            rule: "a case is one shapes graph without references between shapes and one data graph; non-trivial when the reference expects results",
            checks: vec![Check { name: "core", quick: 70000, thorough: 800000, f: core }],
            directed: vec![],
            assumptions: &[],
        },
        Prop {
            id: "C12",
            rule: "a case is one shapes graph and one data graph validated by the SPARQL engine; non-trivial when the reference expects results",
            checks: vec![Check { name: "sparql", quick: 60000, thorough: 800000, f: sparql }],
            directed: vec![],
            assumptions: &[],
        },
        Prop {
            id: "C11",
            rule: "a case is one shapes graph and one data graph; the shapes graph is written by rudof in an RDF format and read again, or the report is written in two formats; non-trivial when the reference expects results",
            checks: vec![Check { name: "rewrite", quick: 40000, thorough: 600000, f: rewrite }, Check { name: "reports", quick: 40000, thorough: 300000, f: reports }],
            directed: vec![],
            assumptions: &[],
        },
        Prop {
            id: "C10",
            rule: "a case is one shapes graph of up to five shapes that refer to each other, with property paths, and one data graph; non-trivial when the reference expects results",
            checks: vec![Check { name: "structure", quick: 70000, thorough: 800000, f: structure }],
            directed: vec![],
            assumptions: &[],
        },
        Prop {
            id: "C19",
            rule: "a case is one shapes graph with SPARQL constraints or reifier shapes, and one data graph; non-trivial when the reference expects results",
            checks: vec![Check { name: "constraints", quick: 40000, thorough: 500000, f: constraints }],
            directed: vec![Directed { name: "blank-focus", f: blank_focus }],
            assumptions: &[],
        },
    ]);
}
