//! C21: data behind a SPARQL endpoint.
use crate::c14;
use crate::c17;
use crate::sparql;
use common::*;
use hlib::*;
use oxigraph::io::{RdfFormat, RdfSerializer};
use oxigraph::model::{Dataset, GraphName, Quad};
use oxigraph::sparql::{QueryResults, SparqlEvaluator};
use oxigraph::store::Store;
use oxigraph::sparql::results::{QueryResultsFormat, QueryResultsSerializer};
use oxrdf::{NamedOrBlankNode, Term, Triple};
use prefixmap::PrefixMap;
use rudof_iri::IriS;
use rudof_lib::Rudof;
use rudof_lib::formats::{DataFormat, ResultQueryFormat as F, ResultShaclValidationFormat, ShExFormat, ShaclFormat, ShaclValidationMode};
use rudof_rdf::rdf_impl::{OxigraphEndpoint, OxigraphInMemory};
use sparql_service::RdfData;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

/// What a server does instead of answering.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Status(u16),
    /// 429 with `Retry-After: 0`
    Busy,
    /// the connection ends after some bytes of the answer
    Cut,
    /// the answer ends early and says so
    Short,
    Empty,
    Html,
    /// a document of the right format that answers another kind of question
    Other,
}
pub struct Site {
    store: Store,
    /// (number of the request, how many requests, what)
    fault: Option<(usize, usize, Fault)>,
    pub hits: AtomicUsize,
    pub faults: AtomicUsize,
    log: Mutex<Vec<String>>,
}
static SITES: OnceLock<Mutex<HashMap<u64, Arc<Site>>>> = OnceLock::new();
static PORT: OnceLock<u16> = OnceLock::new();
static NEXT: AtomicU64 = AtomicU64::new(0);

fn port() -> u16 {
    *PORT.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
        let p = l.local_addr().unwrap().port();
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                std::thread::spawn(move || {
                    let _ = serve(c);
                });
            }
        });
        p
    })
}
fn decode(s: &str) -> String {
    let (b, mut o, mut i) = (s.as_bytes(), vec![], 0);
    while i < b.len() {
        match b[i] {
            b'+' => o.push(b' '),
            b'%' => {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?'));
                i += 2;
            }
            x => o.push(x),
        }
        i += 1;
    }
    String::from_utf8_lossy(&o).into()
}
/// Status, media type, body.
fn answer(store: &Store, query: &str, accept: &str) -> (u16, String, Vec<u8>) {
    let bad = |e: String| (400, "text/plain".to_string(), e.into_bytes());
    let q = match SparqlEvaluator::new().parse_query(query) {
        Ok(q) => q,
        Err(e) => return bad(e.to_string()),
    };
    let r = match q.on_store(store).execute() {
        Ok(r) => r,
        Err(e) => return bad(e.to_string()),
    };
    if let QueryResults::Graph(ts) = r {
        let f = RdfFormat::from_media_type(accept).unwrap_or(RdfFormat::Turtle);
        let mut w = RdfSerializer::from_format(f).for_writer(vec![]);
        for t in ts {
            match t {
                Ok(t) => w.serialize_triple(t.as_ref()).unwrap(),
                Err(e) => return bad(e.to_string()),
            }
        }
        (200, f.media_type().into(), w.finish().unwrap())
    } else if accept.contains("sparql-results+json") {
        let w = QueryResultsSerializer::from_format(QueryResultsFormat::Json);
        let body = match r {
            QueryResults::Solutions(rows) => {
                let vars = rows.variables().to_vec();
                let mut w = w.serialize_solutions_to_writer(vec![], vars).unwrap();
                for row in rows {
                    match row {
                        Ok(row) => w.serialize(row.iter()).unwrap(),
                        Err(e) => return bad(e.to_string()),
                    }
                }
                w.finish().unwrap()
            }
            QueryResults::Boolean(b) => w.serialize_boolean_to_writer(vec![], b).unwrap(),
            _ => vec![],
        };
        (200, "application/sparql-results+json".into(), body)
    } else {
        (406, "text/plain".into(), accept.as_bytes().to_vec())
    }
}
fn serve(mut c: TcpStream) -> std::io::Result<()> {
    c.set_read_timeout(Some(std::time::Duration::from_secs(10)))?;
    let (mut buf, mut one) = (vec![], [0u8; 4096]);
    while !buf.windows(4).any(|w| w == b"\r\n\r\n") {
        let n = c.read(&mut one)?;
        if n == 0 {
            return Ok(());
        }
        buf.extend(&one[..n]);
    }
    let text = String::from_utf8_lossy(&buf).to_string();
    let target = text.split(' ').nth(1).unwrap_or("").to_string();
    let accept = text.lines().find_map(|l| l.to_lowercase().strip_prefix("accept:").map(|a| a.trim().to_string())).unwrap_or_default();
    let (path, args) = target.split_once('?').unwrap_or((&target, ""));
    let site = path.trim_start_matches("/d").parse().ok().and_then(|i: u64| SITES.get()?.lock().unwrap().get(&i).cloned());
    let query = args.split('&').find_map(|a| a.strip_prefix("query=")).map(decode);
    let (Some(site), Some(query), true) = (site, query, text.starts_with("GET ")) else {
        return write!(c, "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n");
    };
    let n = site.hits.fetch_add(1, Ordering::SeqCst);
    site.log.lock().unwrap().push(query.clone());
    let fault = site.fault.filter(|(at, many, _)| n >= *at && n < at + many).map(|f| f.2);
    if fault.is_some() {
        site.faults.fetch_add(1, Ordering::SeqCst);
    }
    let (mut st, mut ty, mut body) = answer(&site.store, &query, &accept);
    let mut more = "";
    let mut len = body.len();
    match fault {
        None => {}
        Some(Fault::Status(s)) => (st, len) = (s, body.len()),
        Some(Fault::Busy) => (st, more) = (429, "Retry-After: 0\r\n"),
        Some(Fault::Cut) => body.truncate(body.len() / 2),
        Some(Fault::Short) => {
            body.truncate(body.len() / 2);
            len = body.len();
        }
        Some(Fault::Empty) => {
            body.clear();
            len = 0;
        }
        Some(Fault::Html) => {
            ty = "text/html".into();
            body = b"<html><body>Service unavailable</body></html>".to_vec();
            len = body.len();
        }
        Some(Fault::Other) => {
            body = if body.starts_with(b"{\"head\":{},\"boolean\"") { b"{\"head\":{\"vars\":[\"x\"]},\"results\":{\"bindings\":[]}}".to_vec() } else { b"{\"head\":{},\"boolean\":true}".to_vec() };
            len = body.len();
        }
    }
    write!(c, "HTTP/1.1 {st} X\r\nContent-Type: {ty}\r\nContent-Length: {len}\r\n{more}Connection: close\r\n\r\n")?;
    c.write_all(&body)
}
/// A dataset behind an endpoint, until it is dropped.
pub struct Remote {
    id: u64,
    pub url: String,
    pub site: Arc<Site>,
}
impl Drop for Remote {
    fn drop(&mut self) {
        SITES.get().unwrap().lock().unwrap().remove(&self.id);
    }
}
impl Remote {
    pub fn new(nt: &str, fault: Option<(usize, usize, Fault)>) -> Result<Remote, String> {
        let store = Store::new().map_err(|e| e.to_string())?;
        // the labels of blank nodes are kept
        let mut d = Dataset::new();
        for t in oxigraph::io::RdfParser::from_format(RdfFormat::NTriples).for_slice(nt.as_bytes()) {
            let q: Quad = t.map_err(|e| e.to_string())?;
            d.insert(&Quad::new(q.subject, q.predicate, q.object, GraphName::DefaultGraph));
        }
        for q in d.iter() {
            store.insert(q).map_err(|e| e.to_string())?;
        }
        let site = Arc::new(Site { store, fault, hits: AtomicUsize::new(0), faults: AtomicUsize::new(0), log: Mutex::new(vec![]) });
        let id = NEXT.fetch_add(1, Ordering::SeqCst);
        SITES.get_or_init(Default::default).lock().unwrap().insert(id, site.clone());
        Ok(Remote { id, url: format!("http://127.0.0.1:{}/d{id}", port()), site })
    }
    fn connect(&self) -> Result<Rudof, String> {
        let mut r = rudof();
        r.load_data().with_endpoint(&self.url).execute().map_err(|e| e.to_string())?;
        Ok(r)
    }
    fn log(&self) -> String {
        self.site.log.lock().unwrap().join("\n")
    }
}
/// Queries through the endpoint have the answer that the data give.
pub fn queries(s: &mut Src, c: &mut Case) -> Outcome {
    let g = sparql::data(s, 15);
    let mut q = c17::query(s, &g, &[4, 2, 2, 1]);
    let fmt = s.picks(&c17::FORMATS[..7]);
    c.desc = format!("{}\n{}\n{fmt}", g.nt(), q.text);
    if c17::too_big(&g, &q) {
        return Outcome::Discard("open comparison or many solutions");
    }
    let rem = match Remote::new(&g.nt(), None) {
        Ok(r) => r,
        Err(e) => return fail("serve", e),
    };
    let mut r = match rem.connect() {
        Ok(r) => r,
        Err(e) => return fail("connect", e),
    };
    if let Err(e) = c17::load(&mut r, &q.text) {
        return fail("parse", e);
    }
    if let Err(e) = r.run_query().with_result_query_format(&fmt).execute() {
        return fail("run", e.to_string());
    }
    c.nontrivial = g.ts.len() > 2 && !sparql::group(&g, &q.body).is_empty();
    if rem.site.hits.load(Ordering::SeqCst) != 1 {
        return fail("requests", rem.log());
    }
    q.text = format!("{} over an endpoint", q.text);
    match c17::check_answer(&mut r, &g, &q, fmt) {
        Ok(()) => Outcome::Pass,
        Err((k, m)) => fail(k, m),
    }
}
fn no_blank(t: &Term) -> bool {
    match t {
        Term::BlankNode(_) => false,
        Term::Triple(t) => matches!(t.subject, NamedOrBlankNode::NamedNode(_)) && no_blank(&t.object),
        _ => true,
    }
}
fn plain(t: &Triple) -> bool {
    matches!(t.subject, NamedOrBlankNode::NamedNode(_)) && no_blank(&t.object) && !t.to_string().contains("\"01\"")
}
/// Questions about the triples of an endpoint, alone or together with local data.
pub fn graph(s: &mut Src, c: &mut Case) -> Outcome {
    let m: HashSet<Triple> = (0..s.size(6, 16)).map(|_| c14::triple(s, 1)).filter(plain).collect();
    let mut all: Vec<&Triple> = m.iter().collect();
    all.sort_by_key(|t| t.to_string());
    let how = s.below(3);
    let local: Vec<bool> = all.iter().map(|_| how == 2 && s.flip()).collect();
    let doc = |here: bool| -> String { all.iter().zip(&local).filter(|x| *x.1 == here).map(|(t, _)| format!("{t} .\n")).collect() };
    c.desc = format!("{}local:\n{}", doc(false), doc(true));
    c.nontrivial = m.len() > 2;
    let rem = match Remote::new(&doc(false), None) {
        Ok(r) => r,
        Err(e) => return fail("serve", e),
    };
    c14::NO_REST.set(true);
    let e = OxigraphEndpoint::new(&IriS::new_unchecked(&rem.url), &PrefixMap::new()).map_err(|e| e.to_string());
    let o = (|| {
        let e = e?;
        if how == 0 {
            return Ok((0..2).find_map(|_| c14::ask(s, &e, &m, c)));
        }
        let mut d = RdfData::from_endpoint("e", e);
        if how == 2 {
            let mut mem = OxigraphInMemory::default();
            for (t, _) in all.iter().zip(&local).filter(|x| *x.1) {
                mem.add_triple_ref(t.subject.as_ref(), t.predicate.as_ref(), t.object.as_ref()).map_err(|e| e.to_string())?;
            }
            d.set_backend(rudof_rdf::rdf_impl::RdfBackend::InMemory(mem));
            c.label("with local data");
        }
        Ok::<_, String>((0..2).find_map(|_| c14::ask(s, &d, &m, c)))
    })();
    c14::NO_REST.set(false);
    match o {
        Ok(None) => Outcome::Pass,
        Ok(Some(o)) => o,
        Err(e) => fail("connect", e),
    }
}

// ---- validation ----
const PREDS: &[&str] = &["p", "q", "r"];
const NODES: &[&str] = &["a", "b", "c", "d"];
fn world(s: &mut Src) -> G {
    let mut g = G::default();
    for _ in 0..s.size(4, 12) {
        let a = T::ex(s.picks(NODES));
        if s.chance(1, 4) {
            g.add(a, &format!("{RDF}type"), T::ex(s.picks(&["C", "D"])));
        } else {
            let o = match s.below(5) {
                0 => T::int(s.range(0, 3)),
                1 => T::str(s.picks(&["a", "b", "say \"hi\"\n", "\u{e9}"])),
                2 => T::lang(s.picks(&["a", "b"]), s.picks(&["en", "fr"])),
                _ => T::ex(s.picks(NODES)),
            };
            g.add(a, &format!("{EX}{}", s.picks(PREDS)), o);
        }
    }
    if s.flip() {
        g.add(T::ex("C"), &format!("{RDFS}subClassOf"), T::ex("D"));
    }
    g
}
fn value(s: &mut Src, at: usize, n: usize) -> String {
    match s.below(9) {
        0 | 1 => ".".into(),
        2 => "IRI".into(),
        3 => "LITERAL MINLENGTH 1".into(),
        4 => "xsd:integer MAXINCLUSIVE 1".into(),
        5 => "xsd:string".into(),
        6 => "[ex:a ex:b 1 \"a\" @en~ ]".into(),
        7 => "[ex:c - ex:d ]".replace(" - ex:d", ""),
        _ if at + 1 < n => format!("@ex:S{}", at + 1 + s.below(n - at - 1)),
        _ => "[ex:~]".into(),
    }
}
fn shex(s: &mut Src, n: usize) -> String {
    let mut t = format!("PREFIX ex: <{EX}> PREFIX xsd: <{XSD}>\n");
    for i in 0..n {
        let k = s.size(1, 3).max(1);
        let tc: Vec<String> = (0..k)
            .map(|_| {
                let card = s.picks(&["", "?", "*", "+", "{2}", "{1,2}", "{0}", "*"]);
                format!("{}ex:{} {}{card}", s.picks(&["", "", "", "^"]), s.picks(PREDS), value(s, i, n))
            })
            .collect();
        let sep = if k > 1 && s.chance(1, 4) { " | " } else { " ; " };
        let extra = if s.chance(1, 3) { format!("EXTRA ex:{} ", s.picks(PREDS)) } else { String::new() };
        let not = if s.chance(1, 8) { "NOT " } else { "" };
        t += &format!("ex:S{i} {not}{extra}{{ {} }}\n", tc.join(sep));
    }
    t
}
fn shape_map(s: &mut Src, n: usize) -> String {
    let mut v: Vec<String> = vec![];
    for _ in 0..s.size(1, 2).max(1) {
        let sel = match s.below(5) {
            0 => format!("{{FOCUS <{EX}{}> _}}", s.picks(PREDS)),
            1 => format!("{{_ <{EX}{}> FOCUS}}", s.picks(PREDS)),
            2 => format!("SPARQL \"SELECT ?x WHERE {{ ?x <{EX}{}> ?y }}\"", s.picks(PREDS)),
            _ => format!("<{EX}{}>", s.picks(NODES)),
        };
        v.push(format!("{sel}@<{EX}S{}>", s.below(n)));
    }
    v.join(",\n")
}
fn spath(s: &mut Src, d: usize) -> String {
    let p = format!("ex:{}", s.picks(PREDS));
    if d == 0 {
        return p;
    }
    match s.below(8) {
        0 => format!("[ sh:inversePath {} ]", spath(s, d - 1)),
        1 => format!("( {} {} )", spath(s, d - 1), spath(s, d - 1)),
        2 => format!("[ sh:alternativePath ( {} {} ) ]", spath(s, d - 1), spath(s, d - 1)),
        3 => format!("[ sh:zeroOrOnePath {} ]", spath(s, d - 1)),
        4 => format!("[ sh:oneOrMorePath {} ]", spath(s, d - 1)),
        _ => p,
    }
}
fn shacl(s: &mut Src) -> String {
    let mut t = format!("@prefix ex: <{EX}> . @prefix sh: <{SH}> . @prefix xsd: <{XSD}> . @prefix rdf: <{RDF}> .\n");
    let n = s.size(1, 2).max(1);
    for i in 0..n {
        let target = match s.below(4) {
            0 => format!("sh:targetClass ex:{}", s.picks(&["C", "D"])),
            1 => format!("sh:targetNode ex:{}", s.picks(NODES)),
            2 => format!("sh:targetSubjectsOf ex:{}", s.picks(PREDS)),
            _ => format!("sh:targetObjectsOf ex:{}", s.picks(PREDS)),
        };
        let small = |s: &mut Src| s.picks(&["[ sh:nodeKind sh:IRI ]", "[ sh:class ex:C ]", "[ sh:property [ sh:path ex:p ; sh:minCount 1 ] ]", "[ sh:property [ sh:path ex:q ; sh:maxCount 0 ] ]", "[ sh:datatype xsd:integer ]"]);
        let comp = |s: &mut Src| match s.below(18) {
            12 => format!("sh:not {}", small(s)),
            13 => format!("sh:or ( {} {} )", small(s), small(s)),
            14 => format!("sh:xone ( {} {} )", small(s), small(s)),
            15 => format!("sh:and ( {} {} )", small(s), small(s)),
            16 => format!("sh:node {}", small(s)),
            17 => format!("sh:qualifiedValueShape {} ; sh:{} 1", small(s), s.picks(&["qualifiedMinCount", "qualifiedMaxCount"])),
            0 => "sh:minCount 1".to_string(),
            1 => "sh:maxCount 1".into(),
            2 => "sh:datatype xsd:integer".into(),
            3 => format!("sh:class ex:{}", s.picks(&["C", "D"])),
            4 => "sh:nodeKind sh:IRI".into(),
            5 => format!("sh:hasValue ex:{}", s.picks(NODES)),
            6 => "sh:in ( ex:a ex:b 1 \"a\" )".into(),
            7 => "sh:minInclusive 1".into(),
            8 => format!("sh:equals ex:{}", s.picks(PREDS)),
            9 => format!("sh:disjoint ex:{}", s.picks(PREDS)),
            10 => "sh:pattern \"^http\"".into(),
            _ => "sh:languageIn ( \"en\" )".into(),
        };
        let a = comp(s);
        if s.chance(1, 5) {
            t += &format!("ex:N{i} sh:closed true ; sh:ignoredProperties ( rdf:type ex:{} ) .\n", s.picks(PREDS));
        }
        t += &format!("ex:N{i} a sh:NodeShape ; {target} ; sh:property ex:P{i} .\nex:P{i} sh:path {} ; {a} .\n", spath(s, 1));
    }
    t
}
/// The results of a report, each with what is said about it.
fn report(text: &str) -> Result<BTreeSet<String>, String> {
    let g = parse_nt(text)?;
    fn say(g: &G, t: &T, d: usize) -> String {
        if !t.is_b() || d > 8 {
            return t.nt();
        }
        let v: BTreeSet<String> = g.out(t).into_iter().filter(|x| x.0 != &format!("{SH}resultMessage")).map(|(p, o)| format!("{p} {}", say(g, o, d + 1))).collect();
        format!("[{}]", v.into_iter().collect::<Vec<_>>().join("; "))
    }
    let mut out: BTreeSet<String> = BTreeSet::new();
    for (a, p, o) in &g.ts {
        let _ = a;
        if p == &format!("{SH}result") {
            out.insert(say(&g, o, 0));
        }
        if p == &format!("{SH}conforms") {
            out.insert(o.nt());
        }
    }
    Ok(out)
}
#[derive(Clone, Debug)]
enum Task {
    Shex(String, String),
    Shacl(String, ShaclValidationMode),
}
type Found = BTreeMap<String, String>;
fn run(r: &mut Rudof, t: &Task) -> Result<Found, String> {
    match t {
        Task::Shex(schema, map) => {
            load_shex(r, schema, ShExFormat::ShExC)?;
            Ok(shex_run(r, map)?.into_iter().map(|((a, b), v)| (format!("{a}@{b}"), v)).collect())
        }
        Task::Shacl(schema, mode) => {
            load_shacl(r, schema, ShaclFormat::Turtle)?;
            run_shacl(r, *mode)?;
            Ok(report(&shacl_report(r, ResultShaclValidationFormat::NTriples)?)?.into_iter().map(|x| (x, String::new())).collect())
        }
    }
}
fn task(s: &mut Src) -> Task {
    if s.chance(3, 5) {
        let n = s.size(1, 3).max(1);
        Task::Shex(shex(s, n), shape_map(s, n))
    } else {
        Task::Shacl(shacl(s), if s.flip() { ShaclValidationMode::Native } else { ShaclValidationMode::Sparql })
    }
}
fn name(t: &Task) -> &'static str {
    match t {
        Task::Shex(..) => "shex",
        Task::Shacl(_, ShaclValidationMode::Native) => "shacl",
        Task::Shacl(..) => "shacl-sparql",
    }
}
fn show(t: &Task) -> String {
    match t {
        Task::Shex(a, b) => format!("{a}\n{b}"),
        Task::Shacl(a, m) => format!("{a}\n{m}"),
    }
}
/// Validation of the data of an endpoint, alone or together with local data, finds what it finds in the data.
pub fn validation(s: &mut Src, c: &mut Case) -> Outcome {
    let g = world(s);
    let t = task(s);
    // the SPARQL mode asks every store on its own
    let split = s.chance(1, 4) && name(&t) != "shacl-sparql";
    let (mut here, mut there) = (G::default(), G::default());
    for (a, p, o) in &g.ts {
        if split && s.flip() { &mut here } else { &mut there }.add(a.clone(), p, o.clone());
    }
    c.desc = format!("endpoint:\n{}local:\n{}\n{}", there.nt(), here.nt(), show(&t));
    let mut m = rudof();
    if let Err(e) = load_nt(&mut m, &g) {
        return fail("load", e);
    }
    let exp = run(&mut m, &t);
    let rem = match Remote::new(&there.nt(), None) {
        Ok(r) => r,
        Err(e) => return fail("serve", e),
    };
    let got = rem.connect().and_then(|mut r| {
        if !here.ts.is_empty() {
            load_data(&mut r, &here.nt(), DataFormat::NTriples, true)?;
        }
        run(&mut r, &t)
    });
    c.label(name(&t));
    c.label_if(split, "with local data");
    c.nontrivial = exp.as_ref().is_ok_and(|e| !e.is_empty()) && rem.site.hits.load(Ordering::SeqCst) > 0;
    match (exp, got) {
        (Ok(a), Ok(b)) if a == b => Outcome::Pass,
        (Err(_), Err(_)) => Outcome::Discard("error"),
        (a, b) => fail(name(&t), format!("{b:?}\nshould be\n{a:?}\nrequests:\n{}", rem.log())),
    }
}
/// What was asked before does not change what is found.
pub fn history(s: &mut Src, c: &mut Case) -> Outcome {
    let mut g = world(s);
    for _ in 0..s.size(4, 10) {
        let o = if s.flip() { T::ex(s.picks(NODES)) } else { T::int(s.range(0, 3)) };
        g.add(T::ex(s.picks(&["a", "b"])), &format!("{EX}{}", s.picks(PREDS)), o);
    }
    let steps: Vec<Task> = (0..s.size(2, 5).max(2))
        .map(|_| {
            let n = s.size(1, 2).max(1);
            let pairs: Vec<String> = (0..s.size(1, 2).max(1)).map(|_| format!("<{EX}{}>@<{EX}S{}>", s.picks(&["a", "a", "b"]), s.below(n))).collect();
            Task::Shex(shex(s, n), pairs.join(","))
        })
        .collect();
    c.desc = format!("{}{}", g.nt(), steps.iter().map(|t| format!("----\n{}\n", show(t))).collect::<String>());
    let rem = match Remote::new(&g.nt(), None) {
        Ok(r) => r,
        Err(e) => return fail("serve", e),
    };
    let mut r = match rem.connect() {
        Ok(r) => r,
        Err(e) => return fail("connect", e),
    };
    let mut m = rudof();
    if let Err(e) = load_nt(&mut m, &g) {
        return fail("load", e);
    }
    let mut known = 0;
    for (i, t) in steps.iter().enumerate() {
        let before = rem.site.hits.load(Ordering::SeqCst);
        match (run(&mut m, t), run(&mut r, t)) {
            (Ok(a), Ok(b)) if a == b => known += a.len(),
            (Err(_), Err(_)) => {}
            (a, b) => return fail("history", format!("step {i}: {b:?}\nshould be\n{a:?}\nrequests:\n{}", rem.log())),
        }
        c.label_if(i > 0 && rem.site.hits.load(Ordering::SeqCst) == before, "without a request");
    }
    c.nontrivial = known > 1;
    Outcome::Pass
}
/// A request that fails is an error, and never missing data.
pub fn faults(s: &mut Src, c: &mut Case) -> Outcome {
    let g = world(s);
    let at = s.weighted(&[4, 3, 2, 1, 1]);
    let fault = s.picks(&[Fault::Status(500), Fault::Status(404), Fault::Status(503), Fault::Busy, Fault::Cut, Fault::Short, Fault::Empty, Fault::Html, Fault::Other]);
    let many = if fault == Fault::Busy { s.size(1, 3).max(1) } else { s.picks(&[1, 1000]) };
    let rem = match Remote::new(&g.nt(), Some((at, many, fault))) {
        Ok(r) => r,
        Err(e) => return fail("serve", e),
    };
    c.label(&format!("{fault:?}"));
    let (what, exp, got): (&str, Result<Found, String>, Result<Found, String>);
    if s.chance(1, 3) {
        let text = match s.below(3) {
            0 => "SELECT ?x ?y WHERE { ?x ?p ?y }",
            1 => "ASK { ?x <http://e.org/p> ?y }",
            _ => "CONSTRUCT { ?x <http://e.org/p> ?y } WHERE { ?x ?p ?y }",
        };
        what = "query";
        let run = |r: &mut Rudof| -> Result<Found, String> {
            c17::load(r, text)?;
            for _ in 0..3 {
                r.run_query().with_result_query_format(&F::NTriples).execute().map_err(|e| e.to_string())?;
            }
            let fmt = if text.starts_with('S') { F::Json } else { F::NTriples };
            let out = c17::results(r, fmt)?;
            if text.starts_with('C') {
                return Ok(parse_nt(&out)?.ts.iter().map(|t| (format!("{t:?}"), String::new())).collect());
            }
            if text.starts_with('S') {
                return Ok(c17::json_rows(&out)?.iter().map(|t| (format!("{t:?}"), String::new())).collect());
            }
            Ok([(out, String::new())].into())
        };
        c.desc = format!("{}\n{text}\n{fault:?} at {at}, {many} times", g.nt());
        let mut m = rudof();
        exp = load_nt(&mut m, &g).and_then(|_| run(&mut m));
        got = rem.connect().and_then(|mut r| run(&mut r));
        if fault == Fault::Short && text.starts_with('C') || matches!(fault, Fault::Empty | Fault::Other) && text.starts_with('C') {
            return Outcome::Discard("an empty or shorter N-Triples document");
        }
    } else {
        let t = task(s);
        what = name(&t);
        c.desc = format!("{}\n{}\n{fault:?} at {at}, {many} times", g.nt(), show(&t));
        let mut m = rudof();
        exp = load_nt(&mut m, &g).and_then(|_| run(&mut m, &t));
        got = rem.connect().and_then(|mut r| run(&mut r, &t));
    }
    c.label(what);
    let hit = rem.site.faults.load(Ordering::SeqCst) > 0;
    c.nontrivial = hit;
    match (&exp, &got) {
        (Err(_), _) => Outcome::Discard("error"),
        (Ok(a), Ok(b)) if a == b => Outcome::Pass,
        (Ok(_), Err(_)) if hit && fault != Fault::Busy => Outcome::Pass,
        (a, b) => fail(format!("{what}-{}", if hit { if fault == Fault::Busy { "busy" } else { "fault" } } else { "answer" }), format!("{b:?}\nshould be an error or\n{a:?}\nrequests:\n{}", rem.log())),
    }
}
/// A closed ShEx shape over an endpoint.
pub fn closed() -> Result<(), String> {
    let rem = Remote::new(&format!("<{EX}a> <{EX}p> \"x\" .\n<{EX}a> <{EX}q> \"x\" .\n"), None)?;
    let mut r = rem.connect()?;
    load_shex(&mut r, &format!("<{EX}S> CLOSED {{ <{EX}p> . }}"), ShExFormat::ShExC)?;
    let v = shex_run(&mut r, &format!("<{EX}a>@<{EX}S>"))?;
    if v.values().any(|x| x.as_str() == "conformant") { Err(format!("{v:?}")) } else { Ok(()) }
}
