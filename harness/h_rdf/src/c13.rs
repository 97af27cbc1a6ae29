//! C13: reading and writing RDF.
use crate::docs::*;
use common::*;
use hlib::*;
use rudof_lib::Rudof;
use rudof_lib::formats::{DataFormat, DataReaderMode, ResultDataFormat};
use std::collections::BTreeMap;

pub const FORMATS: &[(&str, DataFormat, ResultDataFormat)] = &[
    ("Turtle", DataFormat::Turtle, ResultDataFormat::Turtle),
    ("NTriples", DataFormat::NTriples, ResultDataFormat::NTriples),
    ("RdfXml", DataFormat::RdfXml, ResultDataFormat::RdfXml),
    ("TriG", DataFormat::TriG, ResultDataFormat::TriG),
    ("N3", DataFormat::N3, ResultDataFormat::N3),
    ("NQuads", DataFormat::NQuads, ResultDataFormat::NQuads),
    ("JsonLd", DataFormat::JsonLd, ResultDataFormat::JsonLd),
];
pub fn dom(name: &str) -> Dom {
    Dom { control: !matches!(name, "RdfXml"), odd_preds: name != "RdfXml", json: name != "JsonLd" }
}
/// The graph that rudof holds, through its N-Triples output.
pub fn held(r: &mut Rudof) -> Result<G, Outcome> {
    let t = write_data(r, ResultDataFormat::NTriples).map_err(|e| fail("write-nt", e))?;
    parse_nt(&t).map(|g| lower_tags(&g)).map_err(|e| fail("ill-formed-nt", format!("{e}\n{t}")))
}
pub fn same(sig: &str, exp: &G, got: &G, more: &str) -> Option<Outcome> {
    let e = lower_tags(exp);
    if e.iso(got) {
        return None;
    }
    let missing: String = G { ts: e.ts.difference(&got.ts).cloned().collect() }.nt();
    let extra: String = G { ts: got.ts.difference(&e.ts).cloned().collect() }.nt();
    Some(fail(sig, format!("missing:\n{missing}extra:\n{extra}{more}")))
}
/// A document for the graph in the format, using what the format offers.
pub fn document(s: &mut Src, name: &str, g: &G, defaults: &BTreeMap<String, String>) -> String {
    match name {
        "Turtle" => Writer::write(s, g, BASE, Syn::Turtle, defaults),
        "TriG" => Writer::write(s, g, BASE, Syn::TriG, &BTreeMap::new()),
        "N3" => Writer::write(s, g, BASE, Syn::N3, &BTreeMap::new()),
        "NTriples" => lines(s, g, false),
        "NQuads" => lines(s, g, true),
        "RdfXml" => rdf_xml(s, g, BASE).expect("predicates have qualified names"),
        _ => json_ld(s, g, BASE),
    }
}
fn features(c: &mut Case, g: &G) {
    c.label_if(!g.bnodes().is_empty(), "bnodes");
    c.label_if(g.ts.iter().any(|t| t.1.ends_with("#rest")), "lists");
    c.label_if(g.ts.iter().any(|t| t.2.is_lit()), "literals");
}
/// Reading a document gives the graph it was written for.
pub fn read(s: &mut Src, c: &mut Case) -> Outcome {
    let (name, df, _) = s.picks(FORMATS);
    let g = graph(s, 9, dom(name), "b");
    let doc = document(s, name, &g, &BTreeMap::new());
    c.desc = format!("{name}:\n{doc}\n");
    c.label(name);
    features(c, &g);
    c.nontrivial = g.ts.len() > 1;
    let mut r = rudof();
    if let Err(e) = load_data(&mut r, &doc, df, false) {
        return fail(format!("read-{name}"), e);
    }
    match held(&mut r) {
        Err(o) => o,
        Ok(got) => same(&format!("wrong-{name}"), &g, &got, "").unwrap_or(Outcome::Pass),
    }
}
/// What is written in one format is the same graph when it is read again.
pub fn write(s: &mut Src, c: &mut Case) -> Outcome {
    let (name, df, rf) = s.picks(FORMATS);
    let (sname, sdf, _) = s.picks(FORMATS);
    let d = Dom { control: dom(name).control && dom(sname).control, odd_preds: dom(name).odd_preds && dom(sname).odd_preds, json: dom(name).json && dom(sname).json };
    let g = graph(s, 9, d, "b");
    let doc = document(s, sname, &g, &BTreeMap::new());
    c.desc = format!("{sname} to {name}:\n{doc}\n");
    c.label(name);
    features(c, &g);
    c.nontrivial = g.ts.len() > 1;
    let mut r = rudof();
    if let Err(e) = load_data(&mut r, &doc, sdf, false) {
        return fail(format!("read-{sname}"), e);
    }
    let text = match write_data(&mut r, rf) {
        Ok(t) => t,
        Err(e) => return fail(format!("write-{name}"), e),
    };
    // the written document does not depend on a base
    let mut r2 = rudof();
    let sp = [spec(&text)];
    if let Err(e) = r2.load_data().with_data(&sp).with_data_format(&df).with_base("http://other.org/").with_reader_mode(&DataReaderMode::Strict).execute() {
        return fail(format!("reread-{name}"), format!("{e}\n{text}"));
    }
    match held(&mut r2) {
        Err(o) => o,
        Ok(got) => same(&format!("rewritten-{name}"), &g, &got, &format!("written:\n{text}")).unwrap_or(Outcome::Pass),
    }
}
/// Several documents loaded one after the other: union when merging, replacement otherwise.
pub fn merge(s: &mut Src, c: &mut Case) -> Outcome {
    let mut r = rudof();
    let mut model = G::default();
    let mut defaults: BTreeMap<String, String> = BTreeMap::new();
    let mut nbn = 0;
    let (mut loads, mut replaced) = (0, false);
    for step in 0..s.size(2, 6) {
        match s.weighted(&[6, 1, 1, 1]) {
            0 => {
                let (name, df, _) = s.picks(FORMATS);
                let merge = s.chance(2, 3);
                let k = 1 + s.weighted(&[4, 1, 1]);
                let mut docs = vec![];
                if !merge {
                    replaced |= !model.ts.is_empty();
                    model = G::default();
                }
                for _ in 0..k {
                    nbn += 1;
                    let g = graph(s, 4, dom(name), &format!("d{nbn}x"));
                    let doc = document(s, name, &g, &defaults);
                    c.desc += &format!("load {name} merge={merge}:\n{doc}\n");
                    model.ts.extend(g.ts);
                    docs.push(spec(doc));
                }
                loads += 1;
                let res = r
                    .load_data()
                    .with_data(&docs)
                    .with_data_format(&df)
                    .with_base(BASE)
                    .with_reader_mode(&DataReaderMode::Strict)
                    .with_merge(merge)
                    .execute();
                if let Err(e) = res {
                    return fail("load", format!("step {step}: {e}"));
                }
            }
            1 => {
                let (a, n) = (s.picks(&["ex", "d1", "b"]), s.picks(&["http://e.org/", "http://base.org/d/"]));
                c.desc += &format!("default prefix {a}: <{n}>\n");
                if let Err(e) = r.add_prefix(a, n).execute() {
                    return fail("add-prefix", e.to_string());
                }
                defaults.insert(a.into(), n.into());
            }
            2 => {
                c.desc += "reset\n";
                r.reset_data().execute();
                model = G::default();
            }
            _ => {
                // a document that cannot be read is reported, and what follows works
                let (name, df, _) = s.picks(FORMATS);
                c.desc += &format!("broken {name}\n");
                let sp = [spec("{ < broken")];
                if r.load_data().with_data(&sp).with_data_format(&df).with_base(BASE).with_reader_mode(&DataReaderMode::Strict).execute().is_ok() {
                    return fail("accepted-broken", name);
                }
            }
        }
        if loads == 0 && model.ts.is_empty() {
            continue;
        }
        match write_data(&mut r, ResultDataFormat::NTriples) {
            Ok(t) => match parse_nt(&t) {
                Err(e) => return fail("ill-formed-nt", format!("{e}\n{t}")),
                Ok(got) => {
                    if let Some(o) = same("history", &model, &lower_tags(&got), &format!("step {step}")) {
                        return o;
                    }
                }
            },
            // no data at all
            Err(_) if model.ts.is_empty() => {}
            Err(e) => return fail("write-nt", e),
        }
    }
    c.nontrivial = loads >= 2 && !model.ts.is_empty();
    c.label_if(replaced, "replaced");
    c.label_if(!defaults.is_empty(), "default prefixes");
    Outcome::Pass
}
/// (statement, malformed in Turtle-like syntaxes too)
const BROKEN: &[(&str, bool)] = &[
    ("<http://e.org/a> <http://e.org/p> \"x\"", false),
    ("<http://e.org/a> <http://e.org/p> .", true),
    ("<http://e.org/a> .", true),
    ("\"x\" <http://e.org/p> <http://e.org/a> .", true),
    ("<http://e.org/a> _:b <http://e.org/a> .", true),
    ("<http://e.org/a> \"p\" <http://e.org/a> .", true),
    ("<http://e.org/a> <http://e.org/p> <rel> .", false),
    ("<http://e.org/a> <http://e.org/p> <http://e.org/a b> .", true),
    ("<http://e.org/a> <http://e.org/p> <http://e.org/{a}> .", true),
    ("<http://e.org/a> <http://e.org/p> \"x\\q\" .", true),
    ("<http://e.org/a> <http://e.org/p> \"x\\u12G4\" .", true),
    ("<http://e.org/a> <http://e.org/p> \"x\\uD800\" .", true),
    ("<http://e.org/a> <http://e.org/p> \"x .", true),
    ("<http://e.org/a> <http://e.org/p> \"x\"^^ .", true),
    ("<http://e.org/a> <http://e.org/p> \"x\"@ .", true),
    ("<http://e.org/a> <http://e.org/p> \"x\"@1 .", true),
    ("<http://e.org/a> <http://e.org/p> \"x\"^^\"y\" .", true),
    ("<http://e.org/a> <http://e.org/p> <http://e.org/a .", true),
    ("<http://e.org/a> <http://e.org/p> _: .", true),
    ("<http://e.org/a> <http://e.org/p> nope:x .", true),
    ("<http://e.org/a> <http://e.org/p> 'x' .", false),
    ("<http://e.org/a> <http://e.org/p> <http://e.org/b> <http://e.org/c> <http://e.org/d> .", true),
    ("<http://e.org/a> a <http://e.org/b> .", false),
    ("<http://e.org/a> <http://e.org/p> 1 .", false),
];
/// Malformed documents are rejected; reading in lax mode keeps the well-formed statements of line-based formats.
pub fn malformed(s: &mut Src, c: &mut Case) -> Outcome {
    let (name, df, _) = s.picks(&[FORMATS[0], FORMATS[1], FORMATS[3], FORMATS[4], FORMATS[5]]);
    let line = matches!(name, "NTriples" | "NQuads");
    let g = graph(s, 6, dom(name), "b");
    let (bad, always) = s.picks(BROKEN);
    // a subject alone is a statement of N3
    if !line && !always || name == "N3" && bad.ends_with("a> .") && bad.len() < 25 {
        return Outcome::Discard("well formed in this syntax");
    }
    // N3 allows literals as subjects and blank nodes as predicates: not RDF, still an error
    let mut v: Vec<String> = g.ts.iter().map(|(a, p, o)| format!("{} <{p}> {} .", a.nt(), o.nt())).collect();
    s.shuffle(&mut v);
    let at = if bad.ends_with('.') { s.below(v.len() + 1) } else { s.below(v.len().max(1)) };
    if v.is_empty() && !bad.ends_with('.') {
        return Outcome::Discard("unfinished statement at the end");
    }
    v.insert(at, bad.to_string());
    let doc = v.join("\n") + "\n";
    c.desc = format!("{name}:\n{doc}\n");
    c.label(name);
    c.nontrivial = v.len() > 2;
    let mut r = rudof();
    if load_data(&mut r, &doc, df, false).is_ok() {
        return fail(format!("accepted-{name}"), format!("accepted with: {bad}"));
    }
    if !bad.ends_with('.') || bad.ends_with("\"x .") || bad.ends_with("a .") || bad.ends_with("d> .") {
        return Outcome::Pass; // where the broken statement ends is a matter of taste
    }
    let mut r = rudof();
    let sp = [spec(&doc)];
    let res = r.load_data().with_data(&sp).with_data_format(&df).with_base(BASE).with_reader_mode(&DataReaderMode::Lax).execute();
    if line {
        if let Err(e) = res {
            return fail(format!("lax-{name}"), e.to_string());
        }
        return match held(&mut r) {
            Err(o) => o,
            Ok(got) => same(&format!("lax-wrong-{name}"), &g, &got, "").unwrap_or(Outcome::Pass),
        };
    }
    Outcome::Pass
}
