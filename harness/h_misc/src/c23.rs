//! C23: what a session answers depends on what is loaded now, not on how it came to be loaded.
use common::*;
use hlib::*;
use rudof_lib::formats::*;
use rudof_lib::Rudof;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

type Prefixes = BTreeMap<String, String>;
type R<T> = Result<T, String>;
fn e<T>(r: Result<T, impl std::fmt::Display>) -> R<T> {
    r.map_err(|e| e.to_string())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Nt,
    Turtle,
    Pg,
    ShExC,
    ShExJ,
    Compiled,
    Map,
    Shacl,
    Query,
    PgSchema,
    TypeMap,
    Dctap,
    Service,
    RdfConfig,
}
use Kind::*;
/// Something to load, and the default prefixes that there are when it is loaded.
#[derive(Clone, Debug)]
struct L {
    kind: Kind,
    text: String,
    prefixes: Prefixes,
}
#[derive(Clone, Debug)]
enum M {
    Load(L),
    Add(String, String),
}
#[derive(Clone, Debug)]
enum Shapes {
    Load(L),
    Data(Vec<L>),
}
#[derive(Clone, Default)]
struct Model {
    data: Option<Vec<L>>,
    shex: Option<L>,
    map: Option<Vec<M>>,
    shacl: Option<Shapes>,
    query: Option<L>,
    pgs: Option<L>,
    tmap: Option<L>,
    dctap: Option<L>,
    service: Option<L>,
    rdfconfig: Option<L>,
    prefixes: Prefixes,
    results: [Option<String>; 4],
}
const SHEX: usize = 0;
const SHACL: usize = 1;
const QUERY: usize = 2;
const PG: usize = 3;

/// A file that goes when it is dropped.
pub struct File(pub PathBuf);
impl Drop for File {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
pub fn file(bytes: &[u8]) -> File {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let p = std::env::temp_dir().join(format!("verif_c23_{}_{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::write(&p, bytes).expect("write file");
    File(p)
}

fn set_prefixes(r: &mut Rudof, want: &Prefixes) {
    let have = prefixes(r);
    for a in have.keys().filter(|a| !want.contains_key(*a)) {
        r.remove_prefix(a).execute().expect("remove prefix");
    }
    for (a, i) in want {
        r.add_prefix(a, i).execute().expect("add prefix");
    }
}
fn prefixes(r: &Rudof) -> Prefixes {
    r.prefixes().execute().iter().map(|(a, i)| (a.to_string(), i.as_str().to_string())).collect()
}
fn load(r: &mut Rudof, l: &L, merge: bool) -> R<()> {
    let sp = spec(&l.text);
    let data = [spec(&l.text)];
    match l.kind {
        Nt | Turtle | Pg => {
            let f = match l.kind {
                Nt => DataFormat::NTriples,
                Turtle => DataFormat::Turtle,
                _ => DataFormat::Pg,
            };
            e(r.load_data().with_data(&data).with_data_format(&f).with_base(BASE).with_reader_mode(&DataReaderMode::Strict).with_merge(merge).execute())
        }
        ShExC | ShExJ => {
            let f = if l.kind == ShExC { ShExFormat::ShExC } else { ShExFormat::ShExJ };
            e(r.load_shex_schema(&sp).with_shex_schema_format(&f).with_base(BASE).with_reader_mode(&DataReaderMode::Strict).execute())
        }
        Compiled => {
            let mut bytes: Vec<u8> = vec![];
            let mut s = rudof();
            set_prefixes(&mut s, &l.prefixes);
            let ok = load(&mut s, &L { kind: ShExC, ..l.clone() }, false).is_ok();
            if ok {
                e(s.compile_shex_schema_to_file(&mut bytes).execute())?;
            }
            let f = file(&bytes);
            e(r.load_shex_schema_precompiled(&InputSpec::Path(f.0.clone())).execute())
        }
        Map => e(r.load_shapemap(&sp).with_base_nodes(BASE).with_base_shapes(BASE).execute()),
        Shacl => e(r.load_shacl_shapes().with_shacl_schema(&sp).with_shacl_schema_format(&ShaclFormat::Turtle).with_base(BASE).with_reader_mode(&DataReaderMode::Strict).execute()),
        Query => e(r.load_sparql_query(&sp).execute()),
        PgSchema => e(r.load_pg_schema(&sp).execute()),
        TypeMap => e(r.load_typemap(&sp).execute()),
        Dctap => e(r.load_dctap(&sp).with_dctap_format(&DCTapFormat::Csv).execute()),
        Service => e(r.load_service_description(&sp).with_data_format(&DataFormat::Turtle).with_base(BASE).with_reader_mode(&DataReaderMode::Strict).execute()),
        RdfConfig => e(r.load_rdf_config(&sp).execute()),
    }
}
/// Loads with the default prefixes of the time.
fn then(r: &mut Rudof, l: &L, merge: bool) -> R<()> {
    set_prefixes(r, &l.prefixes);
    load(r, l, merge)
}
fn add(r: &mut Rudof, n: &str, s: &str) -> R<()> {
    e(r.add_node_shape_to_shapemap(n).with_shape(s).with_base_nodes(BASE).with_base_shapes(BASE).execute())
}
/// A new session where the same is loaded.
fn fresh(m: &Model) -> R<Rudof> {
    let mut r = rudof();
    let datas = |r: &mut Rudof, ls: &[L]| -> R<()> { ls.iter().enumerate().try_for_each(|(i, l)| then(r, l, i > 0)) };
    match &m.shacl {
        Some(Shapes::Load(l)) => then(&mut r, l, false)?,
        Some(Shapes::Data(ls)) => {
            datas(&mut r, ls)?;
            e(r.load_shacl_shapes().execute())?;
            r.reset_data().execute();
        }
        None => {}
    }
    if let Some(ms) = &m.map {
        for x in ms {
            match x {
                M::Load(l) => {
                    load_data(&mut r, "", DataFormat::NTriples, false)?;
                    load_shex(&mut r, "<http://e.org/Dummy> {}", ShExFormat::ShExC)?;
                    then(&mut r, l, false)?;
                    r.reset_data().execute();
                    r.reset_shex_schema().execute();
                }
                M::Add(n, s) => add(&mut r, n, s)?,
            }
        }
    }
    if let Some(ls) = &m.data {
        datas(&mut r, ls)?;
    }
    for l in [&m.shex, &m.query, &m.pgs, &m.tmap, &m.dctap, &m.service, &m.rdfconfig].into_iter().flatten() {
        then(&mut r, l, false)?;
    }
    set_prefixes(&mut r, &m.prefixes);
    Ok(r)
}
fn sorted(t: &str) -> String {
    let mut ls: Vec<&str> = t.lines().map(|l| l.trim().trim_end_matches([',', ';', '.', ' '])).filter(|l| !l.is_empty()).collect();
    ls.sort();
    ls.join("\n")
}
/// Validates, or runs the query, and says what there is then.
fn act(r: &mut Rudof, what: usize) -> R<String> {
    match what {
        SHEX => e(r.validate_shex().execute())?,
        SHACL => e(r.validate_shacl().execute())?,
        QUERY => e(r.run_query().with_result_query_format(&ResultQueryFormat::NTriples).execute())?,
        _ => e(r.validate_pgschema().execute())?,
    }
    result(r, what)
}
/// The results that there are.
fn result(r: &mut Rudof, what: usize) -> R<String> {
    let mut out = vec![];
    match what {
        SHEX => {
            let res = r.shex_validation_results().ok_or("no results")?;
            let vs: Verdicts = res.iter().map(|(n, s, v)| ((n.to_string(), s.to_string()), v.code())).collect();
            return Ok(format!("{vs:?}"));
        }
        SHACL => {
            // The report, but for its blank nodes
            e(r.serialize_shacl_validation_results(&mut out).with_result_shacl_validation_format(&ResultShaclValidationFormat::NTriples).execute())?;
            let g = parse_nt(&String::from_utf8_lossy(&out))?;
            let mut set = BTreeSet::new();
            for x in g.nodes() {
                let of: BTreeSet<String> = g.out(&x).iter().filter(|(p, _)| p.starts_with(SH)).map(|(p, o)| if o.is_b() { format!("{p} _") } else { format!("{p} {o:?}") }).collect();
                set.insert(format!("{of:?}"));
            }
            return Ok(format!("{set:#?}"));
        }
        QUERY => {
            let mut done = Err("no format".to_string());
            for f in [ResultQueryFormat::Json, ResultQueryFormat::NTriples, ResultQueryFormat::Csv] {
                if done.is_err() {
                    out.clear();
                    done = e(r.serialize_query_results(&mut out).with_result_query_format(&f).execute());
                }
            }
            done?;
            let t = String::from_utf8_lossy(&out);
            let t = t.split("],\"prefixmap\":").next().unwrap_or("");
            return Ok(sorted(&t.replace('{', "\n{").replace('}', "\n}")));
        }
        _ => e(r.serialize_pgschema_validation_results(&mut out).with_result_pg_schema_validation_format(&ResultPgSchemaValidationFormat::Json).with_show_colors(false).execute())?,
    }
    Ok(sorted(&String::from_utf8_lossy(&out)))
}
/// What the session has, without changing anything.
fn look(r: &mut Rudof) -> Vec<(&'static str, R<String>)> {
    let mut o: Vec<(&'static str, R<String>)> = vec![];
    o.push(("data statistics", Ok(format!("{:?} {} {}", r.data_stats(), r.has_data(), r.has_sparql_query()))));
    let text = |x: Vec<u8>| sorted(&String::from_utf8_lossy(&x));
    macro_rules! written {
        ($n:expr, |$w:ident| $b:expr) => {{
            let mut $w = vec![];
            let x = e($b);
            o.push(($n, x.map(|_| text($w))));
        }};
    }
    if matches!(r.data_stats(), Some(rudof_lib::DataStats::Rdf { .. }) | None) {
        written!("data", |w| r.serialize_data(&mut w).with_result_data_format(&ResultDataFormat::NTriples).execute());
    }
    written!("ShEx schema", |w| r.serialize_shex_schema(&mut w).with_result_shex_format(&ShExFormat::ShExJ).execute());
    let has = {
        let mut w = vec![];
        r.serialize_shapemap(&mut w).with_result_shapemap_format(&ShapeMapFormat::Compact).execute().map(|_| String::new())
    };
    o.push(("shape map", e(has)));
    written!("SHACL shapes", |w| r.serialize_shacl_shapes(&mut w).with_shacl_result_format(&ShaclFormat::NTriples).execute());
    written!("PG schema", |w| r.serialize_pg_schema(&mut w).execute());
    written!("query", |w| r.serialize_sparql_query(&mut w).execute());
    written!("DCTAP", |w| r.serialize_dctap(&mut w).with_result_dctap_format(&ResultDCTapFormat::Json).execute());
    written!("service", |w| r.serialize_service_description(&mut w).with_result_service_format(&ResultServiceFormat::Mie).execute());
    written!("RDF config", |w| r.serialize_rdf_config(&mut w).with_result_rdf_config_format(&ResultRdfConfigFormat::Internal).execute());
    // the names of variables made up
    if let Some((_, Ok(q))) = o.iter_mut().find(|x| x.0 == "query") {
        *q = q.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| w.len() < 20).collect::<Vec<_>>().join(" ");
    }
    o.push(("prefixes", Ok(format!("{:?}", prefixes(r)))));
    o
}
/// The schemas given to it are its only ingredients.
fn aside(r: &mut Rudof, what: usize, a: &str, b: &str) -> R<String> {
    let mut w = vec![];
    let (x, y) = (spec(a), spec(b));
    let by = |r: &mut Rudof, w: &mut Vec<u8>, m, rm, f, rf| e(r.show_schema_conversion(&x, &m, &rm, &f, &rf, w).with_base(BASE).execute());
    match what {
        // as loading would answer
        0 => {
            let ok = e(r.check_shex_schema(&x, &mut w).with_shex_schema_format(&ShExFormat::ShExC).with_base(BASE).execute())?;
            let mut f = rudof();
            set_prefixes(&mut f, &prefixes(r));
            let loads = load_shex(&mut f, a, ShExFormat::ShExC).is_ok();
            if ok != loads {
                return Ok(format!("checked {ok}, loaded {loads} in {:?}", std::time::Instant::now()));
            }
            return Ok(ok.to_string());
        }
        1 => by(r, &mut w, ConversionMode::ShEx, ResultConversionMode::ShEx, ConversionFormat::ShExC, ResultConversionFormat::ShExJ)?,
        2 => by(r, &mut w, ConversionMode::ShEx, ResultConversionMode::Uml, ConversionFormat::ShExC, ResultConversionFormat::PlantUML)?,
        3 => by(r, &mut w, ConversionMode::ShEx, ResultConversionMode::Sparql, ConversionFormat::ShExC, ResultConversionFormat::Default)?,
        4 => {
            let f = ComparisonFormat::ShExC;
            e(r.show_schema_comparison(&x, &y, &f, &f, &ComparisonMode::ShEx, &ComparisonMode::ShEx, &mut w)
                .with_base1(BASE)
                .with_base2(BASE)
                .with_shape1("http://e.org/S")
                .with_shape2("http://e.org/S")
                .execute())?
        }
        5 => by(r, &mut w, ConversionMode::Shacl, ResultConversionMode::ShEx, ConversionFormat::Turtle, ResultConversionFormat::ShExJ)?,
        6 => by(r, &mut w, ConversionMode::Shacl, ResultConversionMode::Shacl, ConversionFormat::Turtle, ResultConversionFormat::Turtle)?,
        7 => by(r, &mut w, ConversionMode::Dctap, ResultConversionMode::ShEx, ConversionFormat::Csv, ResultConversionFormat::ShExJ)?,
        _ => by(r, &mut w, ConversionMode::Dctap, ResultConversionMode::Uml, ConversionFormat::Csv, ResultConversionFormat::PlantUML)?,
    }
    let t = String::from_utf8_lossy(&w).into_owned();
    // the alias of a namespace is open when it has several
    let ps = prefixes(r);
    if ps.values().collect::<BTreeSet<_>>().len() < ps.len() {
        return Ok(String::new());
    }
    if what == 6 {
        let mut f = rudof();
        load_data(&mut f, &t, DataFormat::Turtle, false)?;
        return Ok(sorted(&write_data(&mut f, ResultDataFormat::NTriples)?));
    }
    Ok(sorted(&t))
}

// Documents

const NODES: &[&str] = &["a", "b", "c", "d"];
const PREDS: &[&str] = &["p", "q", "r"];
const NAMES: &[(&str, &str)] = &[("ex", "http://e.org/"), ("z", "http://e.org/"), ("z", "http://z.org/"), ("y", "http://e.org/")];
/// A name under a prefix, which may be declared nowhere.
fn name(s: &mut Src, ls: &[&str], ps: &Prefixes) -> String {
    let l = s.picks(ls);
    match s.weighted(&[12, 1, if ps.is_empty() { 0 } else { 6 }]) {
        0 => format!("<http://e.org/{l}>"),
        1 => format!("{}:{l}", s.pick(NAMES).0),
        _ => format!("{}:{l}", s.pick(&ps.keys().collect::<Vec<_>>())),
    }
}
fn object(s: &mut Src) -> String {
    match s.weighted(&[3, 2, 1, 1]) {
        0 => format!("<http://e.org/{}>", s.pick(NODES)),
        1 => format!("\"{}\"^^<http://www.w3.org/2001/XMLSchema#integer>", s.size(1, 3)),
        2 => "\"x\"".into(),
        _ => "\"x\"@en".into(),
    }
}
fn triples(s: &mut Src) -> String {
    let mut t = String::new();
    for _ in 0..s.size(1, 6) {
        let (a, p, o) = (s.picks(NODES), s.picks(PREDS), object(s));
        t += &if s.chance(1, 6) {
            format!("<http://e.org/{a}> <{RDF}type> <http://e.org/{}> .\n", s.picks(&["C", "D"]))
        } else {
            format!("<http://e.org/{a}> <http://e.org/{p}> {o} .\n")
        };
    }
    t
}
fn shexc(s: &mut Src, ps: &Prefixes) -> String {
    let mut t = if s.chance(1, 3) { "PREFIX ex: <http://e.org/>\n".to_string() } else { String::new() };
    if s.chance(1, 3) {
        t += "start = @<http://e.org/S>\n";
    }
    let value = |s: &mut Src, d: bool| match s.weighted(&[2, 2, 2, 2, if d { 3 } else { 0 }]) {
        0 => ".".to_string(),
        1 => "IRI".into(),
        2 => "<http://www.w3.org/2001/XMLSchema#integer>".into(),
        3 => s.picks(&["[1 2]", "[\"x\"]", "[@en]", "[<http://e.org/a> <http://e.org/b>]"]).into(),
        _ => "@<http://e.org/T>".to_string(),
    };
    for l in ["S", "T"] {
        t += &format!("<http://e.org/{l}> {}{{", s.picks(&["", "", "CLOSED ", "EXTRA <http://e.org/p> "]));
        for i in 0..s.size(0, 2) {
            t += &format!("{}{} {} {}", if i > 0 { " ; " } else { " " }, name(s, PREDS, ps), value(s, l == "S"), s.picks(&["", "*", "+", "?"]));
        }
        t += " }\n";
    }
    t
}
fn shacl(s: &mut Src, ps: &Prefixes) -> String {
    let mut t = "@prefix sh: <http://www.w3.org/ns/shacl#> .\n".to_string();
    for i in 0..s.size(1, 2) {
        let target = match s.below(4) {
            0 => format!("sh:targetNode <http://e.org/{}>", s.picks(NODES)),
            1 => format!("sh:targetSubjectsOf {}", name(s, PREDS, ps)),
            2 => format!("sh:targetObjectsOf <http://e.org/{}>", s.picks(PREDS)),
            _ => "sh:targetClass <http://e.org/C>".into(),
        };
        let c = s.picks(&["sh:minCount 1", "sh:maxCount 1", "sh:nodeKind sh:IRI", "sh:datatype <http://www.w3.org/2001/XMLSchema#integer>", "sh:class <http://e.org/D>", "sh:hasValue 1"]);
        let p = s.picks(PREDS);
        // different shapes have different names
        let n = target.bytes().chain(c.bytes()).fold(i as u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64)) % 100000;
        t += &format!("<http://e.org/N{n}{p}> a sh:NodeShape ; {target} ; sh:property <http://e.org/N{n}{p}P> .\n<http://e.org/N{n}{p}P> a sh:PropertyShape ; sh:path <http://e.org/{p}> ; {c} .\n");
    }
    t
}
fn query(s: &mut Src, ps: &Prefixes) -> String {
    let p = name(s, PREDS, ps);
    match s.below(5) {
        0 => "SELECT ?s ?p ?o WHERE { ?s ?p ?o }".into(),
        1 => format!("SELECT ?s ?o WHERE {{ ?s {p} ?o }}"),
        2 => format!("ASK {{ ?s {p} ?o }}"),
        3 => format!("CONSTRUCT {{ ?o <http://e.org/inv> ?s }} WHERE {{ ?s {p} ?o FILTER isIRI(?o) }}"),
        _ => format!("SELECT (COUNT(*) AS ?n) WHERE {{ ?s {p} ?o }}"),
    }
}
fn pg(s: &mut Src) -> String {
    let mut t = String::new();
    for (i, n) in ["n", "m", "k"].iter().enumerate() {
        if i == 0 || s.flip() {
            t += &format!("({n} {{{}}}[x: {}])\n", s.picks(&["A", "B"]), s.size(1, 3));
        }
    }
    t
}
fn pgschema(s: &mut Src) -> String {
    format!("CREATE NODE TYPE ( T : {} {{ x: INTEGER {} }}) ; CREATE NODE TYPE ( U : {} {{ x: INTEGER }})", s.picks(&["A", "B", "A | B"]), s.picks(&["CHECK (> 1)", "", "CHECK (< 3)"]), s.picks(&["A", "B"]))
}
fn typemap(s: &mut Src) -> String {
    let xs: Vec<String> = (0..s.size(1, 3)).map(|_| format!("{}: {}{}", s.picks(&["n", "m", "k"]), s.picks(&["", "!"]), s.picks(&["T", "U"]))).collect();
    xs.join(", ")
}
fn shapemap(s: &mut Src) -> String {
    let mut xs: Vec<String> = vec![];
    for _ in 0..s.size(1, 3) {
        let sh = s.picks(&["<http://e.org/S>", "<http://e.org/T>", "<http://e.org/S>", "START"]);
        let x = match s.below(4) {
            0 => format!("{{FOCUS <http://e.org/{}> _}}@{sh}", s.picks(PREDS)),
            1 => format!("{{_ <http://e.org/{}> FOCUS}}@{sh}", s.picks(PREDS)),
            _ => format!("<http://e.org/{}>@{sh}", s.picks(NODES)),
        };
        if !xs.contains(&x) {
            xs.push(x);
        }
    }
    xs.join(", ")
}
fn dctap(s: &mut Src) -> String {
    format!("shapeID,propertyID,mandatory,repeatable,valueDataType\nBook,{},{},{},{}\n", s.picks(&["dct:title", "dct:x", "foaf:name"]), s.picks(&["true", "false"]), s.picks(&["true", "false"]), s.picks(&["xsd:string", "xsd:integer", ""]))
}
fn service(s: &mut Src) -> String {
    format!("@prefix sd: <http://www.w3.org/ns/sparql-service-description#> .\n<http://e.org/service> a sd:Service ; sd:endpoint <http://e.org/sparql{}> ; sd:supportedLanguage sd:SPARQL1{}Query .\n", s.size(0, 2), s.size(0, 1))
}
fn rdfconfig(s: &mut Src) -> String {
    format!("- Thing{}:\n  - a:\n    - :C\n  - :p{}:\n    - x: {}\n", s.size(0, 2), s.picks(&["", "?", "*"]), s.size(1, 3))
}
fn document(s: &mut Src, kind: Kind, ps: &Prefixes) -> L {
    let mut text = match kind {
        Nt => triples(s),
        Turtle => {
            let mut t = if s.chance(1, 3) { "@prefix ex: <http://e.org/> .\n".to_string() } else { String::new() };
            if s.chance(1, 5) {
                t += &shacl(s, ps);
            }
            for _ in 0..s.size(1, 3) {
                t += &format!("{} {} {} .\n", name(s, NODES, ps), name(s, PREDS, ps), object(s));
            }
            t
        }
        Pg => pg(s),
        ShExC | Compiled => shexc(s, ps),
        ShExJ => {
            let t = shexc(s, ps);
            let mut r = rudof();
            set_prefixes(&mut r, ps);
            let mut w = vec![];
            match load_shex(&mut r, &t, ShExFormat::ShExC).is_ok() && r.serialize_shex_schema(&mut w).with_result_shex_format(&ShExFormat::ShExJ).execute().is_ok() {
                true => String::from_utf8_lossy(&w).into_owned(),
                false => "{}".into(),
            }
        }
        Map => shapemap(s),
        Shacl => shacl(s, ps),
        Query => query(s, ps),
        PgSchema => pgschema(s),
        TypeMap => typemap(s),
        Dctap => dctap(s),
        Service => service(s),
        RdfConfig => rdfconfig(s),
    };
    if s.chance(1, 12) {
        text = format!("<< ( [ {text}");
    }
    L { kind, text, prefixes: ps.clone() }
}

fn compare(what: &str, a: &R<String>, b: &R<String>) -> Result<(), Outcome> {
    // errors need not be the same
    let same = match (a, b) {
        (Ok(x), Ok(y)) => x == y,
        (Err(_), Err(_)) => true,
        _ => false,
    };
    if same { Ok(()) } else { Err(fail(format!("differs-{}", what.replace(' ', "-")), format!("{what}: the session has\n{a:?}\nand a new one\n{b:?}"))) }
}
fn check(r: &mut Rudof, m: &Model) -> Result<(), Outcome> {
    let mut f = fresh(m).map_err(|e| fail("fresh", format!("the same cannot be loaded again: {e}")))?;
    for (a, b) in look(r).iter().zip(look(&mut f)) {
        compare(a.0, &a.1, &b.1)?;
    }
    for (i, n) in ["ShEx results", "SHACL results", "query results", "PG results"].iter().enumerate() {
        compare(n, &result(r, i), &m.results[i].clone().ok_or("none".into()))?;
    }
    Ok(())
}

pub fn session(s: &mut Src, c: &mut Case) -> Outcome {
    match history(s, c) {
        Ok(()) => Outcome::Pass,
        Err(o) => o,
    }
}
fn history(s: &mut Src, c: &mut Case) -> Result<(), Outcome> {
    let mut r = rudof();
    let mut m = Model::default();
    let (mut acted, mut replaced) = (0, 0);
    // what the history is about
    let focus = s.below(4);
    let start: &[Kind] = match focus {
        0 => &[Nt, ShExC, Map],
        1 => &[Nt, Shacl],
        2 => &[Nt, Query],
        _ => &[Pg, PgSchema, TypeMap],
    };
    let start = if s.chance(3, 4) { start } else { &[] };
    for step in 0..start.len() + s.size(3, 14) {
        let ps = m.prefixes.clone();
        let family: &[Kind] = match focus {
            0 => &[Nt, Nt, Turtle, ShExC, ShExC, ShExJ, Compiled, Map, Map],
            1 => &[Nt, Nt, Turtle, Turtle, Shacl, Shacl],
            2 => &[Nt, Nt, Turtle, Query, Query],
            _ => &[Pg, Pg, PgSchema, TypeMap],
        };
        let op = if step < start.len() { 0 } else { s.weighted(&[30, 12, 26, 12, 8, 8, 10]) };
        match op {
            // load
            k @ (0 | 1) => {
                let kind = if step < start.len() { start[step] } else if k == 0 { s.picks(family) } else { s.picks(&[Nt, Turtle, Pg, ShExC, ShExJ, Compiled, Map, Shacl, Query, PgSchema, TypeMap, Dctap, Service, RdfConfig]) };
                let l = document(s, kind, &ps);
                let merge = s.flip();
                let data = matches!(kind, Nt | Turtle | Pg);
                c.desc += &format!("load {kind:?}{}: {}\n", if data && merge { " too" } else { "" }, l.text);
                // as in a new session
                let can = match kind {
                    Map => {
                        let mut t = m.clone();
                        t.map = None;
                        load(&mut fresh(&t).map_err(|e| fail("fresh", e))?, &l, merge)
                    }
                    _ => then(&mut rudof(), &l, merge),
                };
                let did = load(&mut r, &l, merge);
                compare("outcome of loading", &did.clone().map(|_| String::new()), &can.map(|_| String::new()))?;
                c.label_if(did.is_err(), "refused");
                if did.is_err() {
                    c.desc += "  refused\n";
                    // statements before the error may have been added
                    if merge && kind == Turtle && m.data.as_ref().is_some_and(|d| d[0].kind != Pg) {
                        let now = write_data(&mut r, ResultDataFormat::NTriples).map_err(|e| fail("write", e))?;
                        let mut f = fresh(&m).map_err(|e| fail("fresh", e))?;
                        let was = write_data(&mut f, ResultDataFormat::NTriples).map_err(|e| fail("write", e))?;
                        let now_lines: BTreeSet<&str> = now.lines().collect();
                        if !was.lines().all(|l| now_lines.contains(l)) {
                            return Err(fail("lost", format!("{was}\nis\n{now}")));
                        }
                        if now_lines.len() > was.lines().count() {
                            c.label("partly added");
                            m.data = Some(vec![L { kind: Nt, text: now, prefixes: ps }]);
                        }
                    }
                } else {
                    c.label(&format!("{kind:?}"));
                    let slot = match kind {
                        Nt | Turtle | Pg => {
                            let same = m.data.as_ref().is_some_and(|d| (d[0].kind == Pg) == (kind == Pg));
                            replaced += m.data.is_some() as usize;
                            if merge && same { m.data.as_mut().unwrap().push(l) } else { m.data = Some(vec![l]) }
                            None
                        }
                        Map => {
                            replaced += m.map.is_some() as usize;
                            m.map = Some(vec![M::Load(l)]);
                            None
                        }
                        Shacl => {
                            replaced += m.shacl.is_some() as usize;
                            m.shacl = Some(Shapes::Load(l));
                            None
                        }
                        ShExC | ShExJ | Compiled => Some((&mut m.shex, l)),
                        Query => Some((&mut m.query, l)),
                        PgSchema => Some((&mut m.pgs, l)),
                        TypeMap => Some((&mut m.tmap, l)),
                        Dctap => Some((&mut m.dctap, l)),
                        Service => Some((&mut m.service, l)),
                        RdfConfig => Some((&mut m.rdfconfig, l)),
                    };
                    if let Some((x, l)) = slot {
                        replaced += x.is_some() as usize;
                        *x = Some(l);
                    }
                }
            }
            // validate, or run the query
            2 => {
                let i = if s.chance(5, 6) { focus } else { s.below(4) };
                let n = ["validate with ShEx", "validate with SHACL", "run the query", "validate the property graph"][i];
                c.desc += &format!("{n}\n");
                let (a, b) = (act(&mut r, i), act(&mut fresh(&m).map_err(|e| fail("fresh", e))?, i));
                compare(n, &a, &b)?;
                if let Ok(x) = a {
                    acted += 1;
                    c.label(n);
                    m.results[i] = Some(x);
                } else {
                    c.desc += "  fails\n";
                }
            }
            // look at the shapes in the data; add to the shape map
            3 => {
                if focus != 1 || s.flip() {
                    let (n, sh) = (format!("<http://e.org/{}>", s.picks(NODES)), s.picks(&["<http://e.org/S>", "<http://e.org/T>"]).to_string());
                    c.desc += &format!("ask for {n}@{sh}\n");
                    compare("outcome of adding", &add(&mut r, &n, &sh).map(|_| String::new()), &Ok(String::new()))?;
                    m.map.get_or_insert_default().push(M::Add(n, sh));
                } else {
                    c.desc += "load the shapes in the data\n";
                    let mut f = rudof();
                    let mut can = Err("no RDF".to_string());
                    if let Some(d) = m.data.as_ref().filter(|d| d[0].kind != Pg) {
                        for (i, l) in d.iter().enumerate() {
                            then(&mut f, l, i > 0).map_err(|e| fail("fresh", e))?;
                        }
                        can = e(f.load_shacl_shapes().execute());
                    }
                    let did = e(r.load_shacl_shapes().execute());
                    compare("outcome of loading the shapes in the data", &did.clone().map(|_| String::new()), &can.map(|_| String::new()))?;
                    if did.is_ok() {
                        m.shacl = m.data.clone().map(Shapes::Data);
                    }
                }
            }
            // prefixes
            4 => {
                let (a, i) = s.picks(NAMES);
                let b = s.pick(NAMES).0;
                let old = m.prefixes.get(a).cloned();
                let (n, did, can) = match s.below(4) {
                    0 | 1 => {
                        m.prefixes.insert(a.into(), i.into());
                        (format!("add prefix {a} {i}"), e(r.add_prefix(a, i).execute()), true)
                    }
                    2 => {
                        m.prefixes.remove(a);
                        (format!("remove prefix {a}"), e(r.remove_prefix(a).execute()), old.is_some())
                    }
                    _ => {
                        let copy = s.flip();
                        if let Some(i) = &old {
                            if !copy {
                                m.prefixes.remove(a);
                            }
                            m.prefixes.insert(b.into(), i.clone());
                        }
                        if copy { (format!("copy prefix {a} {b}"), e(r.copy_prefix(a, b).execute()), old.is_some()) } else { (format!("rename prefix {a} {b}"), e(r.rename_prefix(a, b).execute()), old.is_some()) }
                    }
                };
                c.desc += &format!("{n}\n");
                if did.is_ok() != can {
                    return Err(fail("prefix-outcome", format!("{n}: {did:?}")));
                }
            }
            // forget
            5 => {
                let i = s.weighted(&[2, 2, 1, 2, 1, 2, 2, 2, 1, 1, 1, 1, 2, 2, 2]);
                let n = ["reset data", "reset ShEx schema", "reset ShEx", "reset shape map", "reset SHACL", "reset SHACL shapes", "reset query", "reset query results", "reset DCTAP", "reset service", "reset RDF config", "reset all", "reset PG schema", "reset type map", "reset PG validation"][i];
                c.desc += &format!("{n}\n");
                c.label(n);
                match i {
                    0 => {
                        r.reset_data().execute();
                        m.data = None;
                    }
                    1 => {
                        r.reset_shex_schema().execute();
                        m.shex = None;
                    }
                    2 => {
                        r.reset_shex().execute();
                        (m.shex, m.map, m.results[SHEX]) = (None, None, None);
                    }
                    3 => {
                        r.reset_shapemap().execute();
                        m.map = None;
                    }
                    4 => {
                        r.reset_shacl().execute();
                        (m.shacl, m.results[SHACL]) = (None, None);
                    }
                    5 => {
                        r.reset_shacl_shapes().execute();
                        m.shacl = None;
                    }
                    6 => {
                        r.reset_sparql_query().execute();
                        m.query = None;
                    }
                    7 => {
                        r.reset_query_results().execute();
                        (m.query, m.results[QUERY]) = (None, None);
                    }
                    8 => {
                        r.reset_dctap().execute();
                        m.dctap = None;
                    }
                    9 => {
                        r.reset_service_description().execute();
                        m.service = None;
                    }
                    10 => {
                        r.reset_rdf_config().execute();
                        m.rdfconfig = None;
                    }
                    11 => {
                        r.reset_all().execute();
                        m = Model { prefixes: m.prefixes, ..Model::default() };
                    }
                    12 => {
                        r.reset_pg_schema().execute();
                        m.pgs = None;
                    }
                    13 => {
                        r.reset_typemap().execute();
                        m.tmap = None;
                    }
                    _ => {
                        r.reset_pg_schema_validation().execute();
                        (m.pgs, m.tmap, m.results[PG]) = (None, None, None);
                    }
                }
            }
            // something else meanwhile
            _ => {
                let i = s.below(10);
                let mut f = rudof();
                set_prefixes(&mut f, &ps);
                if i == 9 {
                    let n = format!("<http://e.org/{}>", s.picks(NODES));
                    c.desc += &format!("show {n}\n");
                    let show = |r: &mut Rudof| {
                        let mut w = vec![];
                        e(r.show_node_info(&n, &mut w).with_show_node_mode(&NodeInspectionMode::Both).with_show_colors(false).with_depth(1).execute())?;
                        // local names, as aliases are open
                        let t = String::from_utf8_lossy(&w).into_owned();
                        let mut ws: Vec<&str> = t.split(|c: char| !c.is_ascii_alphanumeric() && !"/:#.-_".contains(c)).filter_map(|w| w.rsplit(['/', ':', '#']).next()).filter(|w| w.starts_with(|c: char| c.is_ascii_alphanumeric())).collect();
                        ws.sort();
                        Ok(format!("{ws:?}"))
                    };
                    let mut f = fresh(&m).map_err(|e| fail("fresh", e))?;
                    compare("show node", &show(&mut r), &show(&mut f))?;
                } else {
                    let kind = if i < 5 { ShExC } else if i < 7 { Shacl } else { Dctap };
                    let (x, y) = (document(s, kind, &ps), document(s, ShExC, &ps));
                    let n = ["check a schema", "convert ShExC to ShExJ", "convert ShEx to UML", "convert ShEx to SPARQL", "compare schemas", "convert SHACL to ShEx", "convert SHACL to SHACL", "convert DCTAP to ShEx", "convert DCTAP to UML"][i];
                    c.desc += &format!("{n}: {}{}\n", x.text, if i == 4 { &y.text } else { "" });
                    let a = aside(&mut r, i, &x.text, &y.text);
                    c.label_if(a.is_ok(), n);
                    compare(n, &a, &aside(&mut f, i, &x.text, &y.text))?;
                }
            }
        }
        if s.chance(1, 3) {
            c.desc += "look\n";
            check(&mut r, &m)?;
        }
    }
    c.nontrivial = acted > 0 && replaced > 0;
    check(&mut r, &m)
}
