//! C16: prefixed names and relative IRIs.
use common::*;
use hlib::*;
use prefixmap::{IriRef, PrefixMap};
use rudof_iri::IriS;
use rudof_lib::Rudof;
use rudof_lib::formats::{DataFormat, ResultDataFormat, ResultQueryFormat, ShExFormat, ShaclFormat};
use std::collections::{BTreeMap, BTreeSet};

/// RFC 3986, section 5.2.
pub fn rfc3986(base: &str, r: &str) -> String {
    #[derive(Clone, Default)]
    struct P<'a> {
        scheme: Option<&'a str>,
        auth: Option<&'a str>,
        path: &'a str,
        query: Option<&'a str>,
        frag: Option<&'a str>,
    }
    fn split(mut s: &str) -> P<'_> {
        let mut p = P::default();
        if let Some((a, f)) = s.split_once('#') {
            p.frag = Some(f);
            s = a;
        }
        if let Some((a, q)) = s.split_once('?') {
            p.query = Some(q);
            s = a;
        }
        if let Some(i) = s.find(':') {
            let sch = &s[..i];
            if sch.starts_with(|c: char| c.is_ascii_alphabetic()) && sch.chars().all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c)) {
                p.scheme = Some(sch);
                s = &s[i + 1..];
            }
        }
        if let Some(t) = s.strip_prefix("//") {
            let e = t.find('/').unwrap_or(t.len());
            p.auth = Some(&t[..e]);
            s = &t[e..];
        }
        p.path = s;
        p
    }
    fn dots(path: &str) -> String {
        let (mut i, mut out) = (path.to_string(), String::new());
        while !i.is_empty() {
            if let Some(r) = i.strip_prefix("../").or_else(|| i.strip_prefix("./")) {
                i = r.to_string();
            } else if i.starts_with("/./") {
                i = i[2..].to_string();
            } else if i == "/." {
                i = "/".to_string();
            } else if i.starts_with("/../") || i == "/.." {
                i = if i.len() > 3 { i[3..].to_string() } else { "/".to_string() };
                out.truncate(out.rfind('/').unwrap_or(0));
            } else if i == "." || i == ".." {
                i.clear();
            } else {
                let st = usize::from(i.starts_with('/'));
                let e = i[st..].find('/').map(|e| e + st).unwrap_or(i.len());
                out += &i[..e];
                i = i[e..].to_string();
            }
        }
        out
    }
    let (b, r) = (split(base), split(r));
    let (scheme, auth, path, query);
    if r.scheme.is_some() {
        (scheme, auth, path, query) = (r.scheme, r.auth, dots(r.path), r.query);
    } else if r.auth.is_some() {
        (scheme, auth, path, query) = (b.scheme, r.auth, dots(r.path), r.query);
    } else if r.path.is_empty() {
        (scheme, auth, path, query) = (b.scheme, b.auth, b.path.to_string(), r.query.or(b.query));
    } else {
        let merged = if r.path.starts_with('/') {
            r.path.to_string()
        } else if b.auth.is_some() && b.path.is_empty() {
            format!("/{}", r.path)
        } else {
            format!("{}{}", &b.path[..b.path.rfind('/').map_or(0, |i| i + 1)], r.path)
        };
        (scheme, auth, path, query) = (b.scheme, b.auth, dots(&merged), r.query);
    }
    let mut o = format!("{}:", scheme.unwrap());
    if let Some(a) = auth {
        o += &format!("//{a}");
    }
    o += &path;
    if let Some(q) = query {
        o += &format!("?{q}");
    }
    if let Some(f) = r.frag {
        o += &format!("#{f}");
    }
    o
}

const BASES: &[&str] = &[
    "http://a.org/b/c/d;p?q",
    "http://e.org/",
    "http://e.org",
    "http://e.org/x#frag",
    "http://e.org/d/e/",
    "https://e.org:8080/a/b/c",
    "file:///tmp/d/x.ttl",
];
const REFS: &[&str] = &[
    "x", "", "#f", "?q", "./x", "../x", "../../../x", "/x/y", "/", "//h.org/z", "x/../y", "x/./y", ".", "..", "x?a=b#c", "g;h=1/../y", "http://z.org/w", "é", "x%20y", "a/b/",
    "./a:b", "urn:u:v", "x..y", "...", "#", "?",
];
const ALIASES: &[&str] = &["", "ex", "e", "ex-2", "a.b", "é", "x_y", "rdf"];
const SPACES: &[&str] = &[
    "http://e.org/",
    "http://e.org/ns#",
    "http://e.org/a",
    "http://e.org/GO_",
    "urn:x:",
    "http://e.org/q?id=",
    "http://e.org/ns/b/",
    "http://e.org/ns",
    "http://é.org/ö",
    "http://base.org/a/b#",
];
/// (as written, denoted)
const LOCALS: &[(&str, &str)] = &[
    ("a", "a"),
    ("", ""),
    ("a1", "a1"),
    ("1", "1"),
    ("00012", "00012"),
    ("a:b", "a:b"),
    ("a.b", "a.b"),
    ("a-b_c", "a-b_c"),
    ("%41b", "%41b"),
    ("a\\/b", "a/b"),
    ("a\\#b", "a#b"),
    ("a\\(\\)", "a()"),
    ("\\~x\\!", "~x!"),
    ("é", "é"),
    (":", ":"),
    ("_x", "_x"),
    ("true", "true"),
    ("a\\.", "a."),
    ("x\\'y\\,\\;", "x'y,;"),
    ("ns#", "ns"), // ends in a comment
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Syn {
    Turtle,
    TriG,
    N3,
    Sparql,
    ShExC,
    Shacl,
}
struct Doc {
    header: String,
    /// written and denoted; none when it has to be refused
    toks: Vec<(String, Option<String>)>,
}
fn fin(base: &str, iri: &str) -> String {
    rfc3986(base, iri)
}
fn doc(s: &mut Src, syn: Syn, defaults: &BTreeMap<String, String>, errors: bool) -> Doc {
    let mut pm = if matches!(syn, Syn::TriG | Syn::N3) { BTreeMap::new() } else { defaults.clone() };
    let mut base: Option<String> = (syn != Syn::Sparql).then(|| BASE.to_string());
    let mut h = String::new();
    for _ in 0..s.size(3, 6) {
        let sep = s.picks(&["\n", "\n", "\n\n", " # c\n", "\t\n"]);
        let sparql = matches!(syn, Syn::Sparql | Syn::ShExC) || syn != Syn::N3 && s.chance(1, 3);
        let kw = |s: &mut Src, k: &str| if sparql { s.picks(&[k.to_uppercase(), k.to_uppercase(), k.to_lowercase()]) } else { format!("@{k}") };
        let dot = if sparql { "" } else { s.picks(&[" .", "."]) };
        if s.chance(1, 3) {
            let (w, v) = match &base {
                Some(b) if s.chance(1, 2) => {
                    let r = s.picks(REFS);
                    (r.to_string(), fin(b, r))
                }
                _ => {
                    let r = s.picks(BASES);
                    (r.to_string(), fin(r, r))
                }
            };
            if v.starts_with("urn:") {
                continue; // relative IRIs against such a base have no agreed meaning
            }
            h += &format!("{} <{w}>{dot}{sep}", kw(s, "base"));
            base = Some(v);
        } else {
            let a = s.picks(ALIASES);
            let (w, v) = match &base {
                Some(b) if s.chance(1, 4) => {
                    let r = s.picks(REFS);
                    (r.to_string(), fin(b, r))
                }
                _ => {
                    let r = s.picks(SPACES);
                    (r.to_string(), r.to_string())
                }
            };
            // a local name cannot go into the authority
            if !v.trim_start_matches("http://").trim_start_matches("https://").contains('/') && !v.starts_with("urn:") {
                continue;
            }
            let sp = s.picks(&[" ", " ", "  "]);
            h += &format!("{}{sp}{a}:{} <{w}>{dot}{sep}", kw(s, "prefix"), if s.flip() { " " } else { "" });
            pm.insert(a.to_string(), v);
        }
    }
    let mut toks = vec![];
    let n = s.size(1, 4);
    for _ in 0..8 {
        if toks.len() == n {
            break;
        }
        let als: Vec<&String> = pm.keys().collect();
        if !als.is_empty() && s.chance(2, 3) {
            let a = s.pick(&als).to_string();
            let (w, l) = s.picks(LOCALS);
            let iri = format!("{}{l}", pm[&a]);
            // the result has to be an IRI
            if iri.matches('#').count() > 1 {
                continue;
            }
            let sfx = if w == "ns#" { " " } else { "" };
            toks.push((format!("{a}:{}{sfx}", w.trim_end_matches(|c| c == '#' && w == "ns#")), Some(iri)));
        } else if errors && s.chance(1, 3) {
            let a = s.picks(ALIASES);
            if pm.contains_key(a) {
                continue;
            }
            toks.push((format!("{a}:{}", s.picks(&["a", "", "b1"])), None));
        } else {
            let r = s.picks(REFS);
            match &base {
                Some(b) => toks.push((format!("<{r}>"), Some(fin(b, r)))),
                None if r.contains(':') && !r.starts_with('.') => toks.push((format!("<{r}>"), Some(fin("x:", r)))),
                None if errors => toks.push((format!("<{r}>"), None)),
                None => continue,
            }
        }
    }
    if toks.is_empty() {
        toks.push(("<urn:u:v>".to_string(), Some("urn:u:v".to_string())));
    }
    Doc { header: h, toks }
}
const X: &str = "http://x.org/";
fn v_is_name(j: &serde_json::Value) -> bool {
    j.as_str().is_some_and(|s| s.starts_with(|c: char| c.is_ascii_uppercase()))
}
fn strings(j: &serde_json::Value, out: &mut Vec<String>) {
    match j {
        serde_json::Value::String(s) => out.push(s.clone()),
        serde_json::Value::Array(a) => a.iter().for_each(|x| strings(x, out)),
        serde_json::Value::Object(o) => o.iter().filter(|(k, x)| !matches!(k.as_str(), "@context" | "base" | "prefixmap" | "prefixMap" | "source_iri") && !(*k == "type" && v_is_name(x))).for_each(|(_, x)| strings(x, out)),
        _ => {}
    }
}
/// The IRIs that rudof takes the tokens for.
fn observe(r: &mut Rudof, syn: Syn, header: &str, toks: &[String], desc: &mut String) -> Result<Vec<BTreeSet<String>>, String> {
    let mut res = vec![];
    let triples = |g: &G, i: usize, res: &mut Vec<BTreeSet<String>>| {
        let mut o = BTreeSet::new();
        for t in &g.ts {
            if t.0 == T::iri(&format!("{X}{i}")) {
                o.insert(t.2.nt());
                if !t.1.starts_with(X) && !t.1.starts_with(SH) && !t.1.starts_with(RDF) {
                    o.insert(T::iri(&t.1).nt());
                }
            } else if t.2 == T::iri(&format!("{X}{i}")) {
                o.insert(t.0.nt());
            }
        }
        res.push(o.into_iter().map(|x| x.trim_matches(['<', '>']).to_string()).collect());
    };
    match syn {
        Syn::Turtle | Syn::TriG | Syn::N3 => {
            let mut d = header.to_string();
            for (i, t) in toks.iter().enumerate() {
                d += &format!("<{X}{i}> {t} {t} . {t} <{X}p> <{X}{i}> .\n");
            }
            desc.push_str(&d);
            let f = match syn {
                Syn::Turtle => DataFormat::Turtle,
                Syn::TriG => DataFormat::TriG,
                _ => DataFormat::N3,
            };
            load_data(r, &d, f, false)?;
            let g = parse_nt(&write_data(r, ResultDataFormat::NTriples)?)?;
            (0..toks.len()).for_each(|i| triples(&g, i, &mut res));
        }
        Syn::Shacl => {
            let mut d = header.to_string();
            for (i, t) in toks.iter().enumerate() {
                d += &format!("<{X}{i}> a <{SH}NodeShape> ; <{SH}targetNode> {t} ; <{SH}targetClass> {t} ; <{SH}hasValue> {t} ; <{SH}class> {t} ; <{SH}node> {t} .\n");
            }
            desc.push_str(&d);
            load_shacl(r, &d, ShaclFormat::Turtle)?;
            let g = parse_nt(&write_shacl(r, ShaclFormat::NTriples)?)?;
            for i in 0..toks.len() {
                let me = T::iri(&format!("{X}{i}"));
                let o = g.ts.iter().filter(|t| t.0 == me && !t.1.ends_with("type")).map(|t| t.2.nt().trim_matches(['<', '>']).to_string());
                res.push(o.collect());
            }
        }
        Syn::ShExC => {
            for (i, t) in toks.iter().enumerate() {
                let d = format!("{header}start=@{t}\n{t} EXTRA {t} {{ {t} [{t} {t}~ - {t} \"1\"^^{t} ] // {t} {t} ; <{X}q> @{t} ; <{X}r> {t} }}\n");
                if i == 0 {
                    desc.push_str(&d);
                }
                load_shex(r, &d, ShExFormat::ShExC)?;
                let mut out = vec![];
                r.serialize_shex_schema(&mut out).with_result_shex_format(&ShExFormat::ShExJ).execute().map_err(|e| format!("shexj: {e}"))?;
                let j: serde_json::Value = serde_json::from_slice(&out).map_err(|e| e.to_string())?;
                let mut v = vec![];
                strings(&j, &mut v);
                res.push(v.into_iter().filter(|x| !x.starts_with(X) && x != "1").collect());
            }
        }
        Syn::Sparql => {
            load_data(r, &format!("<{X}a> <{X}b> <{X}c> ."), DataFormat::NTriples, false)?;
            for (i, t) in toks.iter().enumerate() {
                let d = format!("{header}SELECT ?x ?y ?z WHERE {{ BIND({t} AS ?x) VALUES ?y {{ {t} }} BIND(DATATYPE(\"1\"^^{t}) AS ?z) FILTER(?x = {t}) }}\n");
                if i == 0 {
                    desc.push_str(&d);
                }
                let sp = spec(d);
                r.load_sparql_query(&sp).execute().map_err(|e| e.to_string())?;
                r.run_query().execute().map_err(|e| e.to_string())?;
                let mut out = vec![];
                r.serialize_query_results(&mut out).with_result_query_format(&ResultQueryFormat::Json).execute().map_err(|e| e.to_string())?;
                let j: serde_json::Value = serde_json::from_slice(&out).map_err(|e| e.to_string())?;
                let mut v = vec![];
                strings(&j["solutions"], &mut v);
                res.push(v.into_iter().filter(|x| x != "x" && x != "y" && x != "z").map(|x| x.trim_matches(['<', '>']).to_string()).collect());
            }
        }
    }
    Ok(res)
}
/// Every input language takes a name for the same IRI.
pub fn names(s: &mut Src, c: &mut Case) -> Outcome {
    let syn = s.picks(&[Syn::Turtle, Syn::TriG, Syn::N3, Syn::Sparql, Syn::ShExC, Syn::Shacl]);
    let mut r = rudof();
    let mut defaults = BTreeMap::new();
    for _ in 0..s.size(0, 4) {
        let (a, n) = (s.picks(ALIASES), s.picks(SPACES));
        if let Err(e) = r.add_prefix(a, n).execute() {
            return fail("add-prefix", e.to_string());
        }
        c.desc += &format!("default {a}: <{n}>\n");
        defaults.insert(a.to_string(), n.to_string());
    }
    let errors = s.chance(1, 4);
    let d = doc(s, syn, &defaults, errors);
    let toks: Vec<String> = d.toks.iter().map(|t| t.0.clone()).collect();
    c.label(match syn {
        Syn::Turtle => "Turtle",
        Syn::TriG => "TriG",
        Syn::N3 => "N3",
        Syn::Sparql => "SPARQL",
        Syn::ShExC => "ShExC",
        Syn::Shacl => "SHACL",
    });
    let bad = d.toks.iter().any(|t| t.1.is_none());
    c.nontrivial = !d.header.is_empty() || !defaults.is_empty();
    c.label_if(bad, "undeclared");
    let mut desc = String::new();
    let got = observe(&mut r, syn, &d.header, &toks, &mut desc);
    c.desc += &format!("{syn:?}:\n{desc}\n");
    match got {
        Err(_) if bad => Outcome::Pass,
        Err(e) => fail(format!("refused-{syn:?}"), e),
        Ok(v) if bad => fail(format!("undeclared-{syn:?}"), format!("{v:?}")),
        Ok(v) => {
            for ((t, e), g) in d.toks.iter().zip(&v) {
                if g.iter().ne([e.as_ref().unwrap()]) {
                    return fail(format!("iri-{syn:?}"), format!("{t}: {g:?}, should be {e:?}"));
                }
            }
            Outcome::Pass
        }
    }
}
/// Node and shape labels of shape maps.
pub fn shape_map(s: &mut Src, c: &mut Case) -> Outcome {
    let mut r = rudof();
    let data = doc(s, Syn::Turtle, &BTreeMap::new(), false);
    let schema = doc(s, Syn::ShExC, &BTreeMap::new(), false);
    let (n, sh) = (&data.toks[0], &schema.toks[0]);
    let (ni, si) = (n.1.clone().unwrap(), sh.1.clone().unwrap());
    // relative IRIs of a shape map have the bases of the request, not those of the documents
    let bases = [s.picks(BASES), s.picks(BASES)];
    let mut unknown = false;
    let mut name = |s: &mut Src, t: &(String, Option<String>), b: &str, pm: &str, iri: &mut String| {
        if s.chance(1, 20) && !pm.contains("none:") {
            unknown = true;
            "none:a".to_string()
        } else if !t.0.starts_with('<') {
            t.0.clone()
        } else if s.flip() {
            format!("<{}>", t.1.as_ref().unwrap())
        } else {
            let x = s.picks(REFS);
            *iri = rfc3986(b, x);
            format!("<{x}>")
        }
    };
    let (mut ni, mut si) = (ni, si);
    let a = name(s, n, bases[0], &data.header, &mut ni);
    let b = name(s, sh, bases[1], &schema.header, &mut si);
    let map = format!("{a}@{b}");
    let d = format!("{}<{ni}> <{X}p> <{X}o> .\n", data.header);
    let sc = format!("{}<{si}> {{ <{X}p> IRI }}\n", schema.header);
    c.desc = format!("data:\n{d}schema:\n{sc}map: {map}\nbase of nodes {}\nbase of shapes {}\n", bases[0], bases[1]);
    c.label_if(unknown, "undeclared");
    c.nontrivial = !n.0.starts_with('<') || !sh.0.starts_with('<');
    if let Err(e) = load_data(&mut r, &d, DataFormat::Turtle, false).and_then(|_| load_shex(&mut r, &sc, ShExFormat::ShExC)) {
        return fail("load", e);
    }
    let sp = spec(map);
    if let Err(e) = r.load_shapemap(&sp).with_base_nodes(bases[0]).with_base_shapes(bases[1]).execute() {
        return if unknown { Outcome::Pass } else { fail("map", e.to_string()) };
    }
    if unknown {
        return fail("undeclared", "accepted");
    }
    if let Err(e) = r.validate_shex().execute() {
        return fail("validate", e.to_string());
    }
    let v: Vec<(String, String, String)> = r.shex_validation_results().unwrap().iter().map(|(n, s, v)| (n.to_string(), s.to_string(), v.code())).collect();
    let exp = (ni, si, "conformant".to_string());
    let strip = |x: &str| x.trim_matches(['<', '>']).to_string();
    if v.iter().map(|(a, b, c)| (strip(a), strip(b), c.clone())).ne([exp.clone()]) {
        return fail("association", format!("{v:?}, should be {exp:?}"));
    }
    Outcome::Pass
}
fn alias(s: &mut Src) -> String {
    s.picks(ALIASES).to_string()
}
/// The session's default prefixes are an ordered map, and the documents read it.
pub fn session(s: &mut Src, c: &mut Case) -> Outcome {
    let mut r = rudof();
    let mut m: Vec<(String, String)> = vec![];
    let put = |m: &mut Vec<(String, String)>, a: String, n: String| match m.iter_mut().find(|x| x.0 == a) {
        Some(x) => x.1 = n,
        None => m.push((a, n)),
    };
    let mut ops = 0;
    for step in 0..s.size(3, 12) {
        let (a, b) = (alias(s), alias(s));
        let old = m.iter().find(|x| x.0 == a).map(|x| x.1.clone());
        let (what, got, exp);
        match s.below(4) {
            0 => {
                let n = s.picks(SPACES);
                what = format!("add {a}: <{n}>");
                got = r.add_prefix(&a, n).execute().is_ok();
                exp = true;
                put(&mut m, a.clone(), n.to_string());
            }
            1 => {
                what = format!("remove {a}:");
                got = r.remove_prefix(&a).execute().is_ok();
                exp = old.is_some();
                m.retain(|x| x.0 != a);
            }
            2 => {
                what = format!("rename {a}: {b}:");
                got = r.rename_prefix(&a, &b).execute().is_ok();
                exp = old.is_some();
                if let Some(n) = old {
                    m.retain(|x| x.0 != a);
                    put(&mut m, b.clone(), n);
                }
            }
            _ => {
                what = format!("copy {a}: {b}:");
                got = r.copy_prefix(&a, &b).execute().is_ok();
                exp = old.is_some();
                if let Some(n) = old {
                    put(&mut m, b.clone(), n);
                }
            }
        }
        c.desc += &format!("{what}\n");
        ops += usize::from(exp);
        if got != exp {
            return fail("result", format!("step {step}: {what} gave {got}"));
        }
        let pm: Vec<(String, String)> = r.prefixes().execute().iter().map(|(a, i)| (a.clone(), i.as_str().to_string())).collect();
        if pm.iter().collect::<BTreeSet<_>>() != m.iter().collect::<BTreeSet<_>>() {
            return fail("prefixes", format!("step {step}: {pm:?}, should be {m:?}"));
        }
    }
    c.nontrivial = ops > 2;
    let defaults: BTreeMap<String, String> = m.into_iter().collect();
    let syn = s.picks(&[Syn::Turtle, Syn::Sparql, Syn::ShExC, Syn::Shacl]);
    for a in ALIASES {
        let mut desc = String::new();
        let got = observe(&mut r, syn, "", &[format!("{a}:z")], &mut desc);
        match (got, defaults.get(*a)) {
            (Err(_), None) => {}
            (Ok(v), Some(n)) if v[0].iter().eq([&format!("{n}z")]) => {}
            (g, e) => return fail(format!("use-{syn:?}"), format!("{a}:z is {g:?}, should be {e:?}")),
        }
    }
    Outcome::Pass
}
/// Whether it is a local name without escapes.
fn plain(l: &str) -> bool {
    let first = |c: char| {
        c.is_ascii_alphanumeric()
            || matches!(c, '_' | ':' | '\u{c0}'..='\u{d6}' | '\u{d8}'..='\u{f6}' | '\u{f8}'..='\u{2ff}' | '\u{370}'..='\u{37d}' | '\u{37f}'..='\u{1fff}' | '\u{200c}' | '\u{200d}')
            || matches!(c, '\u{2070}'..='\u{218f}' | '\u{2c00}'..='\u{2fef}' | '\u{3001}'..='\u{d7ff}' | '\u{f900}'..='\u{fdcf}' | '\u{fdf0}'..='\u{fffd}' | '\u{10000}'..='\u{effff}')
    };
    let more = |c: char| first(c) || matches!(c, '-' | '.' | '\u{b7}' | '\u{300}'..='\u{36f}' | '\u{203f}' | '\u{2040}');
    l.chars().all(more) && l.chars().next().is_none_or(first) && !l.ends_with('.')
}
/// The prefix map itself: resolving, qualifying, merging.
pub fn map(s: &mut Src, c: &mut Case) -> Outcome {
    let mut pm = PrefixMap::new();
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    for _ in 0..s.size(2, 7) {
        let (a, n) = (alias(s), s.picks(SPACES));
        c.desc += &format!("{a}: <{n}>\n");
        if s.chance(1, 4) {
            let mut o = PrefixMap::new();
            o.add_prefix(a.as_str(), IriS::new_unchecked(n));
            pm.merge(o);
        } else {
            pm.add_prefix(a.as_str(), IriS::new_unchecked(n));
        }
        m.insert(a, n.to_string());
    }
    if s.chance(1, 4) {
        let a = alias(s);
        c.desc += &format!("remove {a}:\n");
        if pm.remove_prefix(&a).map(|i| i.as_str().to_string()) != m.remove(&a) {
            return fail("remove", a);
        }
    }
    let pm = pm.without_colors();
    c.nontrivial = m.len() > 1;
    if pm.len() != m.len() || pm.is_empty() != m.is_empty() {
        return fail("len", format!("{}", pm.len()));
    }
    for _ in 0..s.size(1, 4) {
        let (a, (_, l)) = (alias(s), s.picks(LOCALS));
        let exp = m.get(&a).map(|n| format!("{n}{l}")).filter(|i| i.matches('#').count() < 2);
        let got = [
            ("resolve", pm.resolve(&format!("{a}:{l}")).ok()),
            ("resolve_prefix_local", pm.resolve_prefix_local(a.as_str(), l).ok()),
            ("resolve_iriref", pm.resolve_iriref(IriRef::prefixed(a.as_str(), l)).ok()),
            ("get_iri_prefixmap", IriRef::prefixed(a.as_str(), l).get_iri_prefixmap(&pm).ok().map(|x| x.into_owned())),
        ];
        for (f, g) in got {
            if g.as_ref().map(|i| i.as_str()) != exp.as_deref() {
                return fail(f, format!("{a}:{l} is {g:?}, should be {exp:?}"));
            }
        }
    }
    for _ in 0..s.size(1, 4) {
        let local = if s.chance(1, 4) { s.picks(&["\u{301}x", "a\u{300}", "-x", ".x", "\u{b7}x", "a\u{b7}", "x.", "x..y", "a'b", "a,b", "\u{200d}x", "\u{1f600}"]) } else { s.picks(LOCALS).1 };
        let iri = format!("{}{local}", s.picks(SPACES));
        let i = IriS::new_unchecked(&iri);
        let q = pm.qualify(&i);
        // namespaces which leave a rest that is a local name as it stands
        let longest = m.values().filter(|n| iri.strip_prefix(n.as_str()).is_some_and(plain)).map(|n| n.len()).max();
        match longest {
            None => {
                if q != format!("<{iri}>") || pm.qualify_optional(&i).is_some() || pm.qualify_local(&i).is_some() {
                    return fail("unqualified", q);
                }
            }
            Some(len) => {
                let (a, l) = q.split_once(':').unwrap_or(("<>", ""));
                if m.get(a).is_none_or(|n| n.len() != len || format!("{n}{l}") != iri) {
                    return fail("qualify", format!("{iri} qualified as {q}"));
                }
                if pm.qualify_optional(&i) != Some(q.clone()) || pm.qualify_local(&i).as_deref() != Some(l) || pm.qualify_and_length(&i).0 != q {
                    return fail("qualify-variants", format!("{iri} qualified as {q}"));
                }
            }
        }
    }
    Outcome::Pass
}
/// Resolution of relative IRIs.
pub fn relative(s: &mut Src, c: &mut Case) -> Outcome {
    const SEG: &[&str] = &["a", ".", "..", "", "b;c=1", "%2e", "...", "a:b", "é", "~", "x.y", "'()"];
    fn path(s: &mut Src) -> String {
        (0..s.size(2, 6)).map(|_| s.picks(SEG)).collect::<Vec<_>>().join("/")
    }
    fn tail(s: &mut Src) -> String {
        format!("{}{}", s.picks(&["", "", "?", "?q", "?a/../b", "?x?y"]), s.picks(&["", "", "#", "#f", "#a/../b", "#?"]))
    }
    let base = if s.flip() {
        s.picks(BASES).to_string()
    } else {
        let p = path(s);
        format!("{}{}{}", s.picks(&["http://a.org", "https://u@h:80", "file://"]), if p.is_empty() && s.flip() { "".to_string() } else { format!("/{p}") }, tail(s))
    };
    let r = if s.chance(1, 3) {
        s.picks(REFS).to_string()
    } else {
        let p = path(s);
        let first = p.split('/').next().unwrap_or("").to_string();
        let p = if first.contains(':') || p.starts_with("//") { format!("./{p}") } else { p };
        format!("{}{}{}", s.picks(&["", "", "/", "//h.org/", "http://z.org/"]), p, tail(s))
    };
    if r.starts_with("///") || r.starts_with("//") && !r.starts_with("//h") {
        return Outcome::Discard("empty authority");
    }
    // absolute IRIs are taken as they are
    let base = rfc3986(&base, &base);
    let r = if r.starts_with("http:") {
        rfc3986(&r, &r)
    } else if r.starts_with("//") {
        rfc3986(&format!("http:{r}"), &format!("http:{r}"))[5..].to_string()
    } else {
        r
    };
    c.desc = format!("base {base}\nreference {r}\n");
    let exp = rfc3986(&base, &r);
    c.nontrivial = r.contains('.') || r.contains('/') || r.contains('?');
    // a path that starts with // needs an authority
    let got = match IriS::new(&base) {
        Ok(b) => b.resolve_str(&r),
        Err(e) => return fail("base", e.to_string()),
    };
    match got {
        Ok(g) if g.as_str() == exp => Outcome::Pass,
        Ok(g) => fail("resolve", format!("{g}, should be {exp}")),
        Err(e) => fail("refused", format!("{e}, should be {exp}")),
    }
}
