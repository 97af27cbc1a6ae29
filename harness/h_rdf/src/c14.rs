//! C14: the graph API against a set of triples.
use common::*;
use hlib::{RDF, XSD};
use oxrdf::{BlankNode, Literal, NamedNode, NamedOrBlankNode, Term, Triple};
use rudof_iri::IriS;
use rudof_rdf::rdf_core::query::QueryRDF;
use rudof_rdf::rdf_core::{Any, AsyncRDF, BuildRDF, FocusRDF, NeighsRDF, RDFFormat, Rdf, SHACLPath};
use rudof_rdf::rdf_impl::{OxigraphInMemory, ReaderMode};
use sparql_service::RdfData;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::Display;

const E: &str = "http://e.org/";
pub type M = HashSet<Triple>;
fn iri(s: &str) -> NamedNode {
    NamedNode::new_unchecked(format!("{E}{s}"))
}
fn preds() -> Vec<NamedNode> {
    vec![iri("p"), iri("q"), iri("r"), NamedNode::new_unchecked(format!("{RDF}type")), NamedNode::new_unchecked(format!("{RDF}reifies")), iri("a")]
}
pub fn pred(s: &mut Src) -> NamedNode {
    let p = preds();
    p[s.weighted(&[6, 5, 2, 2, 1, 1])].clone()
}
pub fn subj(s: &mut Src) -> NamedOrBlankNode {
    match s.weighted(&[5, 3]) {
        0 => iri(s.picks(&["a", "b", "c", "p", "d"])).into(),
        _ => BlankNode::new_unchecked(s.picks(&["x", "y", "b1"])).into(),
    }
}
pub fn lit(s: &mut Src) -> Literal {
    match s.below(4) {
        0 => Literal::new_simple_literal(s.picks(&["", "a", "1", "é\n\"\\"])),
        1 => Literal::new_typed_literal(s.picks(&["1", "01", "a"]), NamedNode::new_unchecked(format!("{XSD}integer"))),
        2 => Literal::new_language_tagged_literal_unchecked(s.picks(&["a", "1"]), s.picks(&["en", "en-gb"])),
        _ => Literal::new_typed_literal("1", NamedNode::new_unchecked(format!("{E}dt"))),
    }
}
pub fn obj(s: &mut Src, depth: usize) -> Term {
    match s.weighted(&[6, 3, if depth > 0 { 1 } else { 0 }]) {
        0 => subj(s).into(),
        1 => lit(s).into(),
        _ => Term::Triple(Box::new(triple(s, 0))),
    }
}
pub fn triple(s: &mut Src, depth: usize) -> Triple {
    Triple::new(subj(s), pred(s), obj(s, depth))
}
pub fn show<T: Display>(it: impl IntoIterator<Item = T>) -> BTreeSet<String> {
    it.into_iter().map(|x| x.to_string()).collect()
}
fn counted<T: Display>(it: impl IntoIterator<Item = T>) -> Vec<String> {
    let mut v: Vec<String> = it.into_iter().map(|x| x.to_string()).collect();
    v.sort();
    v
}
fn arcs<A: Display, B: Display>(m: &HashMap<A, HashSet<B>>) -> BTreeSet<String> {
    m.iter().flat_map(|(p, v)| v.iter().map(move |o| format!("{p} {o}"))).collect()
}
pub fn path(s: &mut Src, depth: usize) -> SHACLPath {
    let k = if depth == 0 { 0 } else { s.weighted(&[3, 2, 2, 2, 1, 1, 1]) };
    match k {
        0 => SHACLPath::iri(IriS::new_unchecked(pred(s).as_str())),
        1 => SHACLPath::sequence((0..s.size(2, 3).max(2)).map(|_| path(s, depth - 1)).collect()),
        2 => SHACLPath::alternative((0..s.size(2, 3).max(2)).map(|_| path(s, depth - 1)).collect()),
        3 => SHACLPath::inverse(path(s, depth - 1)),
        4 => SHACLPath::zero_or_more(path(s, depth - 1)),
        5 => SHACLPath::one_or_more(path(s, depth - 1)),
        _ => SHACLPath::zero_or_one(path(s, depth - 1)),
    }
}
/// Nodes reached from `from` (forward) or reaching it (backward).
pub fn reach(m: &M, p: &SHACLPath, from: &Term, back: bool) -> HashSet<Term> {
    let closure = |p: &SHACLPath, start: HashSet<Term>| {
        let (mut seen, mut todo) = (start.clone(), Vec::from_iter(start));
        while let Some(x) = todo.pop() {
            for y in reach(m, p, &x, back) {
                if seen.insert(y.clone()) {
                    todo.push(y);
                }
            }
        }
        seen
    };
    match p {
        SHACLPath::Predicate { pred } => m
            .iter()
            .filter(|t| t.predicate.as_str() == pred.as_str())
            .filter_map(|t| {
                let (a, b) = (Term::from(t.subject.clone()), t.object.clone());
                let (a, b) = if back { (b, a) } else { (a, b) };
                (a == *from).then_some(b)
            })
            .collect(),
        SHACLPath::Alternative { paths } => paths.iter().flat_map(|p| reach(m, p, from, back)).collect(),
        SHACLPath::Sequence { paths } => {
            let mut cur = HashSet::from([from.clone()]);
            let mut ps: Vec<&SHACLPath> = paths.iter().collect();
            if back {
                ps.reverse();
            }
            for p in ps {
                cur = cur.iter().flat_map(|x| reach(m, p, x, back)).collect();
            }
            cur
        }
        SHACLPath::Inverse { path } => reach(m, path, from, !back),
        SHACLPath::ZeroOrMore { path } => closure(path, HashSet::from([from.clone()])),
        SHACLPath::OneOrMore { path } => closure(path, reach(m, path, from, back)),
        SHACLPath::ZeroOrOne { path } => {
            let mut r = reach(m, path, from, back);
            r.insert(from.clone());
            r
        }
    }
}
fn now<F: Future>(f: F) -> F::Output {
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    match std::pin::pin!(f).poll(&mut cx) {
        std::task::Poll::Ready(x) => x,
        _ => panic!("pending"),
    }
}
fn t2s(t: &Triple) -> String {
    t.to_string()
}
thread_local! {
    /// For endpoints, which do not tell the other predicates of a subject.
    pub static NO_REST: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// One question to the graph.
pub fn ask<R>(s: &mut Src, r: &R, m: &M, c: &mut Case) -> Option<Outcome>
where
    R: NeighsRDF<IRI = NamedNode, Subject = NamedOrBlankNode, Term = Term, Triple = Triple, BNode = BlankNode, Literal = Literal>,
{
    let sel = |f: &dyn Fn(&Triple) -> bool| -> Vec<String> { counted(m.iter().filter(|t| f(t)).map(t2s)) };
    // terms of the graph most of the time
    let tr: Vec<&Triple> = {
        let mut v: Vec<&Triple> = m.iter().collect();
        v.sort_by_key(|t| t.to_string());
        v
    };
    let sure = |x: Term| if NO_REST.get() && x.to_string().contains("_:") { NamedNode::new_unchecked(format!("{E}a")).into() } else { x };
    let known = |s: &mut Src| (!tr.is_empty() && s.chance(4, 5)).then(|| (*s.pick(&tr)).clone());
    let sb = known(s).map(|t| t.subject).unwrap_or_else(|| subj(s));
    let pr = known(s).map(|t| t.predicate).unwrap_or_else(|| pred(s));
    let ob = match known(s) {
        Some(t) if s.flip() => t.object,
        Some(t) => t.subject.into(),
        None => obj(s, 1),
    };
    // a blank node in a query is a variable
    let ob = sure(ob);
    let sb = if sure(sb.clone().into()) == Term::from(sb.clone()) { sb } else { NamedNode::new_unchecked(format!("{E}a")).into() };
    let (q, got, exp): (String, Result<Vec<String>, String>, Vec<String>);
    macro_rules! put {
        ($n:expr, $g:expr, $e:expr) => {{
            q = $n;
            got = $g.map_err(|e| e.to_string());
            exp = $e;
        }};
    }
    match s.below(17) {
        0 => put!("triples".to_string(), r.triples().map(counted), sel(&|_| true)),
        1 => put!(format!("{sb} ? ?"), r.triples_matching(&sb, &Any, &Any).map(counted), sel(&|t| t.subject == sb)),
        2 => put!(format!("{sb} {pr} ?"), r.triples_matching(&sb, &pr, &Any).map(counted), sel(&|t| t.subject == sb && t.predicate == pr)),
        3 => put!(format!("{sb} ? {ob}"), r.triples_matching(&sb, &Any, &ob).map(counted), sel(&|t| t.subject == sb && t.object == ob)),
        4 => put!(format!("{sb} {pr} {ob}"), r.triples_matching(&sb, &pr, &ob).map(counted), sel(&|t| t.subject == sb && t.predicate == pr && t.object == ob)),
        5 => put!(format!("? {pr} {ob}"), r.triples_matching(&Any, &pr, &ob).map(counted), sel(&|t| t.predicate == pr && t.object == ob)),
        6 => put!(format!("? {pr} ?"), r.triples_matching(&Any, &pr, &Any).map(counted), sel(&|t| t.predicate == pr)),
        7 => put!(format!("? ? {ob}"), r.triples_matching(&Any, &Any, &ob).map(counted), sel(&|t| t.object == ob)),
        8 => {
            let (x, y, z) = (s.flip(), s.flip(), s.flip());
            let g = match (x, y, z) {
                (true, true, true) => r.contains(&sb, &pr, &ob),
                (true, true, false) => r.contains(&sb, &pr, &Any),
                (true, false, true) => r.contains(&sb, &Any, &ob),
                (true, false, false) => r.contains(&sb, &Any, &Any),
                (false, true, true) => r.contains(&Any, &pr, &ob),
                (false, true, false) => r.contains(&Any, &pr, &Any),
                (false, false, true) => r.contains(&Any, &Any, &ob),
                (false, false, false) => r.contains(&Any, &Any, &Any),
            };
            let e = m.iter().any(|t| (!x || t.subject == sb) && (!y || t.predicate == pr) && (!z || t.object == ob));
            put!(format!("contains {sb} {pr} {ob} {x} {y} {z}"), g.map(|b| vec![b.to_string()]), vec![e.to_string()])
        }
        9 => put!(
            format!("incoming {ob}"),
            r.incoming_arcs(&ob).map(|a| arcs(&a).into_iter().collect()),
            show(m.iter().filter(|t| t.object == ob).map(|t| format!("{} {}", t.predicate, t.subject))).into_iter().collect()
        ),
        10 => put!(
            format!("outgoing {sb}"),
            r.outgoing_arcs(&sb).map(|a| arcs(&a).into_iter().collect()),
            show(m.iter().filter(|t| t.subject == sb).map(|t| format!("{} {}", t.predicate, t.object))).into_iter().collect()
        ),
        11 => {
            let ps: Vec<NamedNode> = s.subset(&preds(), 1, 2);
            let e = show(m.iter().filter(|t| t.subject == sb && ps.contains(&t.predicate)).map(|t| format!("{} {}", t.predicate, t.object)));
            let no_rest = NO_REST.get();
            let rest = show(m.iter().filter(|t| !no_rest && t.subject == sb && !ps.contains(&t.predicate)).map(|t| format!("other {}", t.predicate)));
            put!(
                format!("outgoing {sb} {ps:?}"),
                r.outgoing_arcs_from_list(&sb, &ps).map(|(a, o)| arcs(&a).into_iter().chain(show(o.iter().filter(|_| !no_rest).map(|p| format!("other {p}")))).collect()),
                e.into_iter().chain(rest).collect()
            )
        }
        12 => {
            let ps: Vec<NamedNode> = s.subset(&preds(), 1, 2);
            put!(
                format!("incoming {ob} {ps:?}"),
                r.incoming_arcs_from_list(&ob, &ps).map(|a| arcs(&a).into_iter().collect()),
                show(m.iter().filter(|t| t.object == ob && ps.contains(&t.predicate)).map(|t| format!("{} {}", t.predicate, t.subject))).into_iter().collect()
            )
        }
        13 => {
            let ty = NamedNode::new_unchecked(format!("{RDF}type"));
            put!(
                format!("instances {ob}"),
                r.shacl_instances_of(&ob).map(counted),
                show(m.iter().filter(|t| t.predicate == ty && t.object == ob).map(|t| t.subject.clone())).into_iter().collect()
            )
        }
        14 => {
            let known: Vec<&Triple> = tr.iter().filter_map(|t| if let Term::Triple(t) = &t.object { Some(&**t) } else { None }).collect();
            let t = if !known.is_empty() && s.chance(3, 4) { (*s.pick(&known)).clone() } else { Triple::new(sb, pr, ob) };
            let re = NamedNode::new_unchecked(format!("{RDF}reifies"));
            let tt = Term::Triple(Box::new(t.clone()));
            put!(
                format!("reifiers {t}"),
                r.reifiers_of_triple(&t).map(counted),
                show(m.iter().filter(|t| t.predicate == re && t.object == tt).map(|t| t.subject.clone())).into_iter().collect()
            )
        }
        15 => {
            let subject: Term = if s.chance(3, 4) { sb.into() } else { ob };
            let p = path(s, 3);
            c.label("path");
            put!(
                format!("path {subject} {p}"),
                r.objects_for_shacl_path(&subject, &p).map(counted),
                show(reach(m, &p, &subject, false)).into_iter().collect()
            )
        }
        _ => {
            let e1 = show(m.iter().filter(|t| t.subject == sb && t.predicate == pr).map(|t| format!("o {}", t.object)));
            let e2 = show(m.iter().filter(|t| t.object == ob && t.predicate == pr).map(|t| format!("s {}", t.subject)));
            let g = r.objects_for(&sb.clone().into(), &pr).and_then(|a| {
                let b = r.subjects_for(&pr, &ob)?;
                Ok(show(a.iter().map(|x| format!("o {x}"))).into_iter().chain(show(b.iter().map(|x| format!("s {x}")))).collect::<Vec<_>>())
            });
            put!(format!("objects {sb} {pr}, subjects {pr} {ob}"), g, e1.into_iter().chain(e2).collect())
        }
    }
    let kind = q.split(' ').next().unwrap().trim_start_matches(['<', '_', ':']).to_string();
    let kind = if ["triples", "contains", "incoming", "outgoing", "instances", "reifiers", "path", "objects"].contains(&kind.as_str()) { kind } else { "matching".into() };
    match got {
        Err(e) => Some(fail(format!("error-{kind}"), format!("{q}: {e}"))),
        Ok(g) if g != exp => Some(fail(kind, format!("{q}:\n{g:?}\nshould be\n{exp:?}"))),
        _ => None,
    }
}
/// The query store keeps numbers by value: "01" and "1" are one integer there.
fn canon(m: &M) -> BTreeSet<String> {
    show(m.iter().map(|t| t.to_string().replace("\"01\"", "\"1\"")))
}
/// A history of changes to several copies of a graph.
pub fn history(s: &mut Src, c: &mut Case) -> Outcome {
    let mut gs: Vec<(RdfData, M)> = vec![(RdfData::new(), M::new())];
    let mut changes = 0;
    let mut sparql = false;
    for step in 0..s.size(6, 30) {
        let i = s.below(gs.len());
        let k = s.weighted(&[8, 4, 1, 2, 1, 1, 1, 6, 2, 1]);
        match k {
            0 => {
                let t = triple(s, 1);
                c.desc += &format!("{i}: add {t}\n");
                let (r, m) = &mut gs[i];
                if let Err(e) = r.add_triple(t.subject.clone(), t.predicate.clone(), t.object.clone()) {
                    return fail("add", e.to_string());
                }
                m.insert(t);
                changes += 1;
            }
            1 => {
                let (r, m) = &mut gs[i];
                let mut v: Vec<&Triple> = m.iter().collect();
                v.sort_by_key(|t| t.to_string());
                let t = if v.is_empty() || s.chance(1, 4) { triple(s, 1) } else { (*s.pick(&v)).clone() };
                c.desc += &format!("{i}: remove {t}\n");
                if let Err(e) = r.remove_triple(t.subject.clone(), t.predicate.clone(), t.object.clone()) {
                    return fail("remove", e.to_string());
                }
                m.remove(&t);
                changes += 1;
            }
            2 => {
                let (n, ty) = (subj(s), obj(s, 0));
                c.desc += &format!("{i}: {n} has type {ty}\n");
                let (r, m) = &mut gs[i];
                if let Err(e) = r.add_type(n.clone(), ty.clone()) {
                    return fail("add-type", e.to_string());
                }
                m.insert(Triple::new(n, NamedNode::new_unchecked(format!("{RDF}type")), ty));
                changes += 1;
            }
            3 => {
                // no blank nodes: reading renames them
                let ts: Vec<Triple> = (0..s.size(3, 5)).map(|_| triple(s, 1)).filter(|t| !t.to_string().contains("_:")).collect();
                let doc: String = ts.iter().map(|t| format!("{t} .\n")).collect();
                c.desc += &format!("{i}: merge\n{doc}");
                let (r, m) = &mut gs[i];
                if let Err(e) = r.merge_from_reader(&mut doc.as_bytes(), "doc", &s.picks(&[RDFFormat::NTriples, RDFFormat::Turtle]), None, &ReaderMode::Strict) {
                    return fail("merge", e.to_string());
                }
                m.extend(ts);
                changes += 1;
            }
            4 => {
                let (r, m) = &mut gs[i];
                let b = match r.add_bnode() {
                    Ok(b) => b,
                    Err(e) => return fail("bnode", e.to_string()),
                };
                if m.iter().any(|t| t.to_string().contains(&format!("{b} "))) {
                    return fail("bnode-in-use", b.to_string());
                }
            }
            5 if gs.len() < 4 => {
                c.desc += &format!("{} is a copy of {i}\n", gs.len());
                let x = (gs[i].0.clone(), gs[i].1.clone());
                gs.push(x);
                c.label("copies");
            }
            6 => {
                c.desc += &format!("{i}: store\n");
                if let Err(e) = gs[i].0.check_store() {
                    return fail("store", e.to_string());
                }
                sparql = true;
            }
            7 => {
                let (r, m) = &gs[i];
                c.desc += &format!("{i}: ask\n");
                if let Some(o) = ask(s, r, m, c) {
                    return o;
                }
            }
            8 => {
                // the query store follows the graph
                let (r, m) = &mut gs[i];
                if let Err(e) = r.check_store() {
                    return fail("store", e.to_string());
                }
                sparql = true;
                let t = triple(s, 0);
                let mut v: Vec<&Triple> = m.iter().filter(|t| !t.to_string().contains("_:") && !t.to_string().contains("<<")).collect();
                v.sort_by_key(|t| t.to_string());
                let t = if v.is_empty() || s.chance(1, 3) { t } else { (*s.pick(&v)).clone() };
                if t.to_string().contains("_:") {
                    continue;
                }
                c.desc += &format!("{i}: sparql {t}\n");
                match r.query_ask(&format!("ASK {{ {t} }}")) {
                    Ok(b) if b == canon(m).contains(&t.to_string().replace("\"01\"", "\"1\"")) => {}
                    x => return fail("sparql-ask", format!("{x:?} for {t}")),
                }
                match r.query_select("SELECT ?s ?p ?o WHERE { ?s ?p ?o }") {
                    Ok(q) if q.iter().count() == canon(m).len() => {}
                    Ok(q) => return fail("sparql-select", format!("{} solutions of {}", q.iter().count(), canon(m).len())),
                    Err(e) => return fail("sparql-select", e.to_string()),
                }
            }
            _ => {
                let t = obj(s, 0);
                gs[i].0.set_focus(&t);
                if gs[i].0.get_focus() != Some(&t) {
                    return fail("focus", t.to_string());
                }
            }
        }
        if s.chance(1, 3) {
            for (j, (r, m)) in gs.iter().enumerate() {
                let got = match r.triples() {
                    Ok(t) => counted(t),
                    Err(e) => return fail("triples", e.to_string()),
                };
                if got != counted(m.iter()) {
                    return fail("graph", format!("step {step}, graph {j}: {got:?}\nshould be {:?}", counted(m.iter())));
                }
            }
        }
    }
    c.nontrivial = changes > 2;
    c.label_if(sparql, "SPARQL");
    let (r, m) = &gs[gs.len() - 1];
    for _ in 0..6 {
        if let Some(o) = ask(s, r, m, c) {
            return o;
        }
    }
    Outcome::Pass
}
/// Adds reifiers of a triple, some also used otherwise.
fn reify(s: &mut Src, m: &mut M) {
    let mut v: Vec<Triple> = m.iter().cloned().collect();
    v.sort_by_key(|t| t.to_string());
    if !v.is_empty() && s.flip() {
        let t = if s.chance(3, 4) { s.pick(&v).clone() } else { triple(s, 1) };
        for _ in 0..s.size(1, 3) {
            let p = if s.chance(1, 4) { pred(s) } else { NamedNode::new_unchecked(format!("{RDF}reifies")) };
            m.insert(Triple::new(subj(s), p, Term::Triple(Box::new(t.clone()))));
        }
    }
}
/// Many questions to one graph.
pub fn queries(s: &mut Src, c: &mut Case) -> Outcome {
    let mut m: M = (0..s.size(6, 16)).map(|_| triple(s, 1)).collect();
    reify(s, &mut m);
    let doc: String = counted(m.iter().map(|t| format!("{t} .\n"))).concat();
    c.desc = doc;
    c.nontrivial = m.len() > 2;
    let mut g = OxigraphInMemory::empty();
    for t in &m {
        let r = if s.flip() { g.add_triple(t.subject.clone(), t.predicate.clone(), t.object.clone()) } else { g.add_triple_ref(t.subject.as_ref(), t.predicate.as_ref(), t.object.as_ref()) };
        if let Err(e) = r {
            return fail("add", e.to_string());
        }
    }
    if g.len() != m.len() || g.is_empty() != m.is_empty() || g.quads().count() != m.len() {
        return fail("len", format!("{} of {}", g.len(), m.len()));
    }
    for _ in 0..12 {
        if let Some(o) = ask(s, &g, &m, c) {
            return o;
        }
    }
    // the asynchronous interface
    let (sb, pr, ob) = (subj(s), pred(s), obj(s, 1));
    let a = [
        now(g.get_predicates_subject(&sb)).map(show),
        now(g.get_objects_for_subject_predicate(&sb, &pr)).map(show),
        now(g.get_subjects_for_object_predicate(&ob, &pr)).map(show),
    ];
    let e = [
        show(m.iter().filter(|t| t.subject == sb).map(|t| &t.predicate)),
        show(m.iter().filter(|t| t.subject == sb && t.predicate == pr).map(|t| &t.object)),
        show(m.iter().filter(|t| t.object == ob && t.predicate == pr).map(|t| &t.subject)),
    ];
    for (i, (x, y)) in a.into_iter().zip(e).enumerate() {
        match x {
            Ok(x) if x == y => {}
            x => return fail(format!("async-{i}"), format!("{sb} {pr} {ob}: {x:?} should be {y:?}")),
        }
    }
    let r = match RdfData::from_graph(g) {
        Ok(r) => r,
        Err(e) => return fail("from-graph", e.to_string()),
    };
    for _ in 0..8 {
        if let Some(o) = ask(s, &r, &m, c) {
            return o;
        }
    }
    let _ = <RdfData as Rdf>::triple_as_term;
    Outcome::Pass
}
