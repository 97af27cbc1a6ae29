//! C22: whatever is read, the answer is a result or an error.
use common::*;
use hlib::*;
use rudof_lib::formats::*;
use rudof_lib::{Rudof, RudofConfig, TomlConfig};
use std::sync::OnceLock;

struct Lang {
    name: &'static str,
    seeds: Vec<Vec<String>>,
    words: Vec<String>,
}
const FILES: &[(&str, &str)] = &[
    ("turtle", include_str!("seeds/turtle.txt")),
    ("ntriples", include_str!("seeds/ntriples.txt")),
    ("nquads", include_str!("seeds/nquads.txt")),
    ("trig", include_str!("seeds/trig.txt")),
    ("n3", include_str!("seeds/n3.txt")),
    ("rdfxml", include_str!("seeds/rdfxml.txt")),
    ("jsonld", include_str!("seeds/jsonld.txt")),
    ("pg", include_str!("seeds/pg.txt")),
    ("shexc", include_str!("seeds/shexc.txt")),
    ("shexj", include_str!("seeds/shexj.txt")),
    ("shapemap", include_str!("seeds/shapemap.txt")),
    ("sparql", include_str!("seeds/sparql.txt")),
    ("shacl", include_str!("seeds/shacl.txt")),
    ("pgschema", include_str!("seeds/pgschema.txt")),
    ("typemap", include_str!("seeds/typemap.txt")),
    ("dctap", include_str!("seeds/dctap.txt")),
    ("service", include_str!("seeds/service.txt")),
    ("rdfconfig", include_str!("seeds/rdfconfig.txt")),
    ("toml", include_str!("seeds/toml.txt")),
];
/// What documents are made of.
fn tokens(t: &str) -> Vec<String> {
    let cs: Vec<char> = t.chars().collect();
    let (mut out, mut i) = (vec![], 0);
    while i < cs.len() {
        let a = i;
        let c = cs[i];
        i += 1;
        if c.is_whitespace() {
            while i < cs.len() && cs[i].is_whitespace() {
                i += 1;
            }
        } else if c.is_alphanumeric() || c == '_' || c == '\\' {
            while i < cs.len() && (cs[i].is_alphanumeric() || "_-\\".contains(cs[i])) {
                i += 1;
            }
        } else if c == '<' || c == '"' {
            let end = if c == '<' { '>' } else { '"' };
            let mut j = i;
            while j < cs.len() && cs[j] != end && cs[j] != '\n' && (c == '"' || !cs[j].is_whitespace()) {
                j += if cs[j] == '\\' { 2 } else { 1 };
            }
            if j < cs.len() && cs[j] == end {
                i = j + 1;
            }
        }
        out.push(cs[a..i.min(cs.len())].iter().collect());
    }
    out
}
fn langs() -> &'static Vec<Lang> {
    static L: OnceLock<Vec<Lang>> = OnceLock::new();
    L.get_or_init(|| {
        FILES
            .iter()
            .map(|(name, text)| {
                let seeds: Vec<Vec<String>> = text.split("%%%%\n").map(tokens).collect();
                let mut words: Vec<String> = seeds.iter().flatten().filter(|w| !w.trim().is_empty()).cloned().collect();
                words.sort();
                words.dedup();
                Lang { name, seeds, words }
            })
            .collect()
    })
}
/// Strange words, for any language.
const ODD: &[&str] = &[
    "\\uD800", "\\u0000", "\\UFFFFFFFF", "\\U0010FFFF", "\\u00e", "\u{0}", "\u{feff}", "\u{301}", "\u{1F600}", "é", "\u{200b}", "\r\n", "\t", "99999999999999999999", "-1", "0", "1e400", "1e", "0.", ".5", "2147483648", "''", "\"\"", "\"", "'", "\\", "<", ">", "<>", "<a b>", "<http://>", "<http://[>", "<::>", "_:", "@", ":", "^^", "//", "/", "/x[/", "%", "{", "}", "(", ")", "[", "]", "()", "[]", "{}", "*", "+", "?", "~", "-", ".", ",", ";", "|", "&", "!", "=", "$", "#", "null", "true", "a", "\"x\"@", "\"1\"^^<http://www.w3.org/2001/XMLSchema#date>", "\"x\"^^<x>", "\"x\"@en-a-b-c-d-e-f-g-h-i", "{0,0}", "{3,1}", "{1,4294967296}",
];
/// A document of the language, more or less.
fn text(s: &mut Src, l: &Lang) -> String {
    let mut ts = s.pick(&l.seeds).clone();
    // a piece of it
    if s.chance(1, 3) {
        let lines: String = ts.concat();
        let keep: Vec<&str> = lines.lines().filter(|_| s.chance(2, 3)).collect();
        ts = tokens(&keep.join("\n"));
    }
    for _ in 0..s.weighted(&[2, 6, 4, 3, 2, 1]) {
        if ts.is_empty() {
            ts.push(" ".into());
        }
        let i = s.below(ts.len());
        let n = s.size(1, 4);
        let j = (i + n).min(ts.len());
        match s.weighted(&[3, 2, 2, 6, 4, 3, 2, 1, 2]) {
            0 => {
                ts.drain(i..j);
            }
            1 => {
                let d: Vec<String> = ts[i..j].to_vec();
                let k = s.below(ts.len() + 1);
                ts.splice(k..k, d);
            }
            2 => {
                let k = s.below(ts.len());
                ts.swap(i, k);
            }
            3 => ts[i] = s.pick(&l.words).clone(),
            4 => ts[i] = s.picks(ODD).to_string(),
            5 => ts.insert(i, s.pick(&l.words).clone()),
            6 => {
                // inside of a word
                let mut cs: Vec<char> = ts[i].chars().collect();
                let k = s.below(cs.len() + 1);
                let odd: Vec<char> = s.picks(ODD).chars().collect();
                if s.flip() || k == cs.len() {
                    cs.splice(k..k, odd);
                } else {
                    cs.splice(k..k + 1, odd);
                }
                ts[i] = cs.into_iter().collect();
            }
            7 => ts.truncate(i),
            _ => {
                // nested a few more times
                let (o, e) = s.picks(&[("(", ")"), ("[", "]"), ("{", "}"), ("NOT ", ""), ("!", ""), ("<<", ">>")]);
                let k = s.size(1, 8);
                ts.splice(j..j, (0..k).map(|_| e.to_string()));
                ts.splice(i..i, (0..k).map(|_| o.to_string()));
            }
        }
    }
    ts.concat()
}
const DATA: &str = "<http://e.org/a> <http://e.org/p> 1, \"x\"@en, <http://e.org/b>, _:b ; a <http://e.org/C> ; <http://e.org/q> ( 1 \"z\"^^<http://www.w3.org/2001/XMLSchema#date> ) .
<http://e.org/b> <http://e.org/p> <http://e.org/a> ; <http://e.org/q> true, 2.5 . _:b <http://e.org/r> <http://e.org/a> .\n";
const SHAPES: &str = "PREFIX ex: <http://e.org/>\nstart = { ex:p . * }\nex:S { ex:q @<T> * }\n<T> IRI OR LITERAL\n";
type E = Result<(), Box<dyn std::error::Error>>;
/// Goes on as far as the input is accepted; what happened is told in the steps.
fn run(s: &mut Src, name: &str, t: &str, steps: &mut Vec<&'static str>) -> E {
    let mut r = rudof();
    let mut out: Vec<u8> = vec![];
    let mode = if s.chance(1, 4) { DataReaderMode::Lax } else { DataReaderMode::Strict };
    let sp = [spec(t)];
    let data = [spec(DATA)];
    let rdf = |s: &mut Src| s.picks(&[ResultDataFormat::Turtle, ResultDataFormat::NTriples, ResultDataFormat::RdfXml, ResultDataFormat::TriG, ResultDataFormat::N3, ResultDataFormat::NQuads, ResultDataFormat::JsonLd]);
    match name {
        "turtle" | "ntriples" | "nquads" | "trig" | "n3" | "rdfxml" | "jsonld" | "pg" => {
            let f = match name {
                "turtle" => DataFormat::Turtle,
                "ntriples" => DataFormat::NTriples,
                "nquads" => DataFormat::NQuads,
                "trig" => DataFormat::TriG,
                "n3" => DataFormat::N3,
                "rdfxml" => DataFormat::RdfXml,
                "jsonld" => DataFormat::JsonLd,
                _ => DataFormat::Pg,
            };
            r.load_data().with_data(&sp).with_data_format(&f).with_base(BASE).with_reader_mode(&mode).execute()?;
            steps.push("loaded");
            let _ = r.data_stats();
            if name != "pg" {
                r.serialize_data(&mut out).with_result_data_format(&rdf(s)).execute()?;
                steps.push("written");
                let i = s.picks(&["<http://e.org/a>", ":s", "ex:a", "_:b", "\"x\""]);
                let m = s.picks(&[NodeInspectionMode::Outgoing, NodeInspectionMode::Incoming, NodeInspectionMode::Both]);
                let _ = r.show_node_info(i, &mut out).with_show_node_mode(&m).with_depth(s.below(4)).execute();
                let q = spec("SELECT * WHERE { ?s ?p ?o }");
                r.load_sparql_query(&q).execute()?;
                r.run_query().execute()?;
                r.serialize_query_results(&mut out).with_result_query_format(&ResultQueryFormat::Json).execute()?;
                r.load_shex_schema(&spec(SHAPES)).with_shex_schema_format(&ShExFormat::ShExC).with_base(BASE).execute()?;
                r.load_shapemap(&spec("{FOCUS <http://e.org/p> _}@START, {_ <http://e.org/p> FOCUS}@START")).with_base_nodes(BASE).with_base_shapes(BASE).execute()?;
                r.validate_shex().execute()?;
                steps.push("validated");
            } else {
                let _ = r.serialize_data(&mut out).with_result_data_format(&rdf(s)).execute();
            }
        }
        "shexc" | "shexj" => {
            let f = if name == "shexc" { ShExFormat::ShExC } else { ShExFormat::ShExJ };
            let cf = if name == "shexc" { ConversionFormat::ShExC } else { ConversionFormat::ShExJ };
            let _ = r.check_shex_schema(&sp[0], &mut out).with_shex_schema_format(&f).with_base(BASE).execute();
            r.load_shex_schema(&sp[0]).with_shex_schema_format(&f).with_base(BASE).with_reader_mode(&mode).execute()?;
            steps.push("loaded");
            for g in [ShExFormat::ShExC, ShExFormat::ShExJ, ShExFormat::Turtle] {
                let _ = r.serialize_shex_schema(&mut out).with_result_shex_format(&g).execute();
            }
            let _ = r.compile_shex_schema_to_file(&mut out).execute();
            for (m, g) in [(ResultConversionMode::Uml, ResultConversionFormat::PlantUML), (ResultConversionMode::Sparql, ResultConversionFormat::Default), (ResultConversionMode::ShEx, ResultConversionFormat::ShExJ)] {
                let mut r = rudof();
                let shape = s.picks(&["<http://e.org/S>", "ex:S", ":S", "<T>"]);
                let mut b = r.show_schema_conversion(&sp[0], &ConversionMode::ShEx, &m, &cf, &g, &mut out).with_base(BASE);
                if s.chance(1, 3) {
                    b = b.with_shape(shape);
                }
                let _ = b.execute();
            }
            let kf = if name == "shexc" { ComparisonFormat::ShExC } else { ComparisonFormat::ShExJ };
            let mut r2 = rudof();
            let _ = r2.show_schema_comparison(&sp[0], &sp[0], &kf, &kf, &ComparisonMode::ShEx, &ComparisonMode::ShEx, &mut out).with_base1(BASE).with_base2(BASE).with_shape1("http://e.org/S").with_shape2("http://e.org/S").execute();
            // conjunctions of extensions and large repetitions take their time
            if !t.contains("EXTENDS") && !t.contains("extends") {
                r.load_data().with_data(&data).with_data_format(&DataFormat::Turtle).with_base(BASE).execute()?;
                r.load_shapemap(&spec("<http://e.org/a>@<http://e.org/S>, <http://e.org/b>@START, {FOCUS <http://e.org/p> _}@<http://base.org/T>")).with_base_nodes(BASE).with_base_shapes(BASE).execute()?;
                r.validate_shex().execute()?;
                steps.push("validated");
                for f in [ResultShExValidationFormat::Json, ResultShExValidationFormat::Details] {
                    r.serialize_shex_validation_results(&mut out).with_result_shex_validation_format(&f).execute()?;
                }
            }
        }
        "shapemap" => {
            r.load_data().with_data(&data).with_data_format(&DataFormat::Turtle).with_base(BASE).execute()?;
            r.load_shex_schema(&spec(SHAPES)).with_shex_schema_format(&ShExFormat::ShExC).with_base(BASE).execute()?;
            if s.flip() {
                let n = t.split('@').next().unwrap_or("");
                let m = s.picks(&[IriNormalizationMode::Lax, IriNormalizationMode::Strict]);
                let _ = r.show_node_info(n, &mut out).with_iri_mode(m).execute();
                let (n, l) = t.split_once('@').unwrap_or((t, "START"));
                r.add_node_shape_to_shapemap(n).with_shape(l).with_base_nodes(BASE).with_base_shapes(BASE).with_iri_mode(m).execute()?;
            } else {
                r.load_shapemap(&sp[0]).with_base_nodes(BASE).with_base_shapes(BASE).execute()?;
            }
            steps.push("loaded");
            r.serialize_shapemap(&mut out).with_result_shapemap_format(&ShapeMapFormat::Compact).execute()?;
            r.validate_shex().execute()?;
            steps.push("validated");
            for f in [ResultShExValidationFormat::Json, ResultShExValidationFormat::Csv, ResultShExValidationFormat::Compact] {
                r.serialize_shex_validation_results(&mut out).with_result_shex_validation_format(&f).execute()?;
            }
        }
        "sparql" => {
            r.load_data().with_data(&data).with_data_format(&DataFormat::Turtle).with_base(BASE).execute()?;
            r.load_sparql_query(&sp[0]).execute()?;
            steps.push("loaded");
            let _ = r.serialize_sparql_query(&mut out).execute();
            let f = s.picks(&[ResultQueryFormat::Internal, ResultQueryFormat::Json, ResultQueryFormat::Csv, ResultQueryFormat::Markdown, ResultQueryFormat::Turtle, ResultQueryFormat::RdfXml, ResultQueryFormat::JsonLd]);
            r.run_query().with_result_query_format(&f).execute()?;
            steps.push("run");
            r.serialize_query_results(&mut out).with_result_query_format(&f).execute()?;
        }
        "shacl" => {
            let _ = rudof().show_schema_conversion(&sp[0], &ConversionMode::Shacl, &ResultConversionMode::ShEx, &ConversionFormat::Turtle, &ResultConversionFormat::ShExC, &mut out).with_base(BASE).execute();
            r.load_shacl_shapes().with_shacl_schema(&sp[0]).with_shacl_schema_format(&ShaclFormat::Turtle).with_base(BASE).with_reader_mode(&mode).execute()?;
            steps.push("loaded");
            for f in [ShaclFormat::Internal, ShaclFormat::Turtle, ShaclFormat::NTriples] {
                let _ = r.serialize_shacl_shapes(&mut out).with_shacl_result_format(&f).execute();
            }
            r.load_data().with_data(&data).with_data_format(&DataFormat::Turtle).with_base(BASE).execute()?;
            for m in [ShaclValidationMode::Native, ShaclValidationMode::Sparql] {
                if r.validate_shacl().with_shacl_validation_mode(&m).execute().is_ok() {
                    steps.push("validated");
                    for f in [ResultShaclValidationFormat::Details, ResultShaclValidationFormat::Turtle, ResultShaclValidationFormat::Minimal, ResultShaclValidationFormat::Compact, ResultShaclValidationFormat::Csv] {
                        let _ = r.serialize_shacl_validation_results(&mut out).with_result_shacl_validation_format(&f).execute();
                    }
                }
            }
        }
        "pgschema" | "typemap" => {
            let l = langs();
            let of = |n: &str| l.iter().find(|x| x.name == n).unwrap().seeds[0].concat();
            let (g, schema, map) = (of("pg"), if name == "pgschema" { t.to_string() } else { of("pgschema") }, if name == "typemap" { t.to_string() } else { of("typemap") });
            r.load_pg_schema(&spec(schema)).execute()?;
            r.load_typemap(&spec(map)).execute()?;
            steps.push("loaded");
            let _ = r.serialize_pg_schema(&mut out).execute();
            r.load_data().with_data(&[spec(g)]).with_data_format(&DataFormat::Pg).execute()?;
            r.validate_pgschema().execute()?;
            steps.push("validated");
            for f in [ResultPgSchemaValidationFormat::Compact, ResultPgSchemaValidationFormat::Json, ResultPgSchemaValidationFormat::Csv, ResultPgSchemaValidationFormat::Details] {
                let _ = r.serialize_pgschema_validation_results(&mut out).with_result_pg_schema_validation_format(&f).execute();
            }
        }
        "dctap" => {
            r.load_dctap(&sp[0]).with_dctap_format(&DCTapFormat::Csv).execute()?;
            steps.push("loaded");
            for f in [ResultDCTapFormat::Internal, ResultDCTapFormat::Json] {
                r.serialize_dctap(&mut out).with_result_dctap_format(&f).execute()?;
            }
            for (m, g) in [(ResultConversionMode::Uml, ResultConversionFormat::PlantUML), (ResultConversionMode::ShEx, ResultConversionFormat::ShExC), (ResultConversionMode::Sparql, ResultConversionFormat::Default)] {
                if rudof().show_schema_conversion(&sp[0], &ConversionMode::Dctap, &m, &ConversionFormat::Csv, &g, &mut out).execute().is_ok() {
                    steps.push("converted");
                }
            }
        }
        "service" => {
            r.load_service_description(&sp[0]).with_data_format(&DataFormat::Turtle).with_base(BASE).with_reader_mode(&mode).execute()?;
            steps.push("loaded");
            for f in [ResultServiceFormat::Internal, ResultServiceFormat::Mie, ResultServiceFormat::Json] {
                let _ = r.serialize_service_description(&mut out).with_result_service_format(&f).execute();
            }
        }
        "rdfconfig" => {
            r.load_rdf_config(&sp[0]).execute()?;
            steps.push("loaded");
            for f in [ResultRdfConfigFormat::Internal, ResultRdfConfigFormat::Yaml] {
                let _ = r.serialize_rdf_config(&mut out).with_result_rdf_config_format(&f).execute();
            }
        }
        "toml" => {
            let c = RudofConfig::from_toml_str(t)?;
            steps.push("loaded");
            let _ = c.to_toml_string()?;
            let mut r = Rudof::new(c);
            r.load_data().with_data(&data).with_data_format(&DataFormat::Turtle).execute()?;
            r.load_shex_schema(&spec(SHAPES)).with_shex_schema_format(&ShExFormat::ShExC).execute()?;
            r.load_shapemap(&spec("<http://e.org/a>@START")).execute()?;
            r.validate_shex().execute()?;
            steps.push("validated");
            r.serialize_shex_validation_results(&mut out).execute()?;
        }
        _ => unreachable!(),
    }
    Ok(())
}
/// Documents that are nearly right.
pub fn mutated(s: &mut Src, c: &mut Case) -> Outcome {
    let l = s.pick(langs());
    let t = text(s, l);
    c.desc = format!("{}\n{t}", l.name);
    c.label(l.name);
    let mut steps = vec![];
    let e = run(s, l.name, &t, &mut steps);
    for x in &steps {
        c.label(&format!("{} {x}", l.name));
    }
    if let Err(e) = e {
        // errors are to be shown
        let m = e.to_string();
        if m.is_empty() {
            return fail(format!("empty-error-{}", l.name), t);
        }
    }
    c.nontrivial = !steps.is_empty();
    Outcome::Pass
}
