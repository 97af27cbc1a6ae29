//! Reading and writing schemas: compact syntax, JSON syntax, precompiled form.
use crate::genr::*;
use crate::model::*;
use crate::nc;
use crate::ncgen;
use crate::refv::{sccs, walk_se};
use common::*;
use hlib::*;
use rudof_lib::Rudof;
use rudof_lib::formats::{DataReaderMode, ShExFormat};
use serde_json::{Map, Value, json};

/// A JSON schema with every choice of spelling removed.
pub fn norm(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut o: Map<String, Value> = m.iter().filter(|(k, _)| !["@context", "base", "prefixmap"].contains(&k.as_str())).map(|(k, v)| (k.clone(), norm(v))).collect();
            let ty = o.get("type").and_then(|t| t.as_str()).unwrap_or("").to_string();
            match ty.as_str() {
                "EachOf" | "OneOf" | "TripleConstraint" => {
                    o.entry("min").or_insert(json!(1));
                    o.entry("max").or_insert(json!(1));
                    // the empty shape is the constraint that everything satisfies
                    if o.get("valueExpr") == Some(&json!({"type": "Shape"})) {
                        o.remove("valueExpr");
                    }
                }
                "ShapeDecl" => {
                    o.entry("abstract").or_insert(json!(false));
                }
                "ShapeAnd" | "ShapeOr" => {
                    let mut flat = vec![];
                    for x in o["shapeExprs"].as_array().cloned().unwrap_or_default() {
                        if x["type"] == json!(ty) { flat.extend(x["shapeExprs"].as_array().unwrap().clone()) } else { flat.push(x) }
                    }
                    o["shapeExprs"] = json!(flat);
                }
                _ if o.contains_key("value") => {
                    if ty == xsd("string") {
                        o.remove("type");
                    }
                    if let Some(l) = o.get("language") {
                        o["language"] = json!(l.as_str().unwrap_or("").to_lowercase());
                    }
                }
                "LanguageStemRange" => {
                    for k in ["stem", "exclusions"] {
                        o[k] = lower(&o[k]);
                    }
                    // the wildcard is the stem of every language
                    if o["stem"].is_object() {
                        o["stem"] = json!("");
                    }
                }
                "LanguageStem" => o["stem"] = lower(&o["stem"]),
                "Language" => o["languageTag"] = lower(&o["languageTag"]),
                // only present in some spellings
                "Annotation" | "SemAct" => {
                    o.remove("type");
                }
                _ => {}
            }
            for k in ["mininclusive", "maxinclusive", "minexclusive", "maxexclusive"] {
                if let Some(x) = o.get(k) {
                    o[k] = json!(x.as_f64());
                }
            }
            for k in ["closed", "inverse", "negated"] {
                if o.get(k) == Some(&json!(false)) {
                    o.remove(k);
                }
            }
            Value::Object(o)
        }
        Value::Array(a) => json!(a.iter().map(norm).collect::<Vec<_>>()),
        Value::Number(n) => json!(n.as_f64().map(|f| if f.fract() == 0.0 { json!(f as i64) } else { json!(f) })),
        x => x.clone(),
    }
}
fn lower(v: &Value) -> Value {
    match v {
        Value::String(s) => json!(s.to_lowercase()),
        Value::Array(a) => json!(a.iter().map(lower).collect::<Vec<_>>()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), if k == "stem" { lower(v) } else { v.clone() })).collect()),
        x => x.clone(),
    }
}
/// The first difference between two values.
pub fn diff(a: &Value, b: &Value, path: String) -> Option<(String, String)> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            let mut ks: Vec<&String> = x.keys().chain(y.keys()).collect();
            ks.sort();
            ks.dedup();
            for k in ks {
                match (x.get(k), y.get(k)) {
                    (Some(p), Some(q)) => {
                        if let Some(d) = diff(p, q, format!("{path}/{k}")) {
                            return Some(d);
                        }
                    }
                    (p, q) => return Some((format!("{path}/{k}"), format!("{p:?} against {q:?}"))),
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).find_map(|(p, q)| diff(p, q, format!("{path}/#"))),
        _ if a == b => None,
        _ => Some((path, format!("{a} against {b}"))),
    }
}
pub fn write_shex(r: &mut Rudof, f: ShExFormat) -> Result<String, String> {
    let mut out = vec![];
    r.serialize_shex_schema(&mut out).with_result_shex_format(&f).execute().map_err(|e| format!("serialize_shex_schema: {e}"))?;
    String::from_utf8(out).map_err(|e| e.to_string())
}
fn key(path: &str) -> String {
    let v: Vec<&str> = path.rsplit('/').filter(|p| *p != "#").take(2).collect();
    v.into_iter().rev().collect::<Vec<_>>().join("-")
}
fn json_of(text: &str, what: &str) -> Result<Value, (String, String)> {
    serde_json::from_str(text).map(|v: Value| norm(&v)).map_err(|e| (format!("{what}-not-json"), format!("{e}\n{text}")))
}

/// A schema that uses every construct the syntaxes share.
pub fn rich(s: &mut Src) -> Schema {
    let n = s.size(1, 3);
    let k = Knobs { labels: n, refs: true, nested: true, inverse: true, logic: true, depth: 2, incl: false };
    let mut sch = Schema { decls: (0..n).map(|_| Decl { se: se(s, &k, 2), abs: s.chance(1, 6) }).collect(), start: None };
    if s.chance(1, 4) {
        sch.start = Some(se(s, &k, 1));
    }
    // a labelled triple expression, included elsewhere
    if s.chance(1, 3) {
        let mut spots = 0;
        for d in &mut sch.decls {
            if let SE::Shape(Shape { te: Some(t), .. }) = &mut d.se {
                if spots == 0 {
                    let old = t.clone();
                    *t = TE::Labelled(0, Box::new(old));
                } else if let TE::Each(v, _) | TE::One(v, _) = t {
                    let i = s.below(v.len());
                    v[i] = TE::Incl(0);
                }
                spots += 1;
            }
        }
    }
    // richer node constraints here and there
    for (i, d) in sch.decls.iter_mut().enumerate() {
        enrich(s, &mut d.se, i);
    }
    sch
}
fn enrich(s: &mut Src, e: &mut SE, n: usize) {
    match e {
        SE::And(v) | SE::Or(v) => v.iter_mut().for_each(|x| enrich(s, x, n)),
        SE::Not(x) => enrich(s, x, n),
        SE::Ref(_) => {}
        SE::Nc(c) => {
            if s.chance(1, 2) {
                *c = ncgen::nc(s)
            }
        }
        SE::Shape(sh) => {
            if s.chance(1, 8) {
                sh.extends = s.subset(&(0..n).collect::<Vec<_>>(), 1, 2);
            }
            if let Some(t) = &mut sh.te {
                enrich_te(s, t, n)
            }
        }
    }
}
fn enrich_te(s: &mut Src, t: &mut TE, n: usize) {
    match t {
        TE::Each(v, _) | TE::One(v, _) => v.iter_mut().for_each(|x| enrich_te(s, x, n)),
        TE::Tc(tc) => {
            if let Some(v) = &mut tc.val {
                enrich(s, v, n)
            }
            if s.chance(1, 8) {
                for _ in 0..s.size(1, 2) {
                    let v = if s.flip() { T::ex("a") } else { ncgen::literal(s) };
                    let v = if let T::L { lex, dt, lang: None } = &v && nc::valid_lexical(lex, dt) == Some(false) { T::str(lex) } else { v };
                    tc.notes.push(Note::Ann(pred(s), v));
                }
            }
            if s.chance(1, 12) {
                let code = if s.flip() { Some(s.pick(&[" a ", "x%y", "c\\d", "{ }", "\n"]).to_string()) } else { None };
                tc.notes.push(Note::Act("http://shex.io/extensions/Test/".into(), code));
            }
        }
        TE::Labelled(_, x) => enrich_te(s, x, n),
        TE::Incl(_) => {}
    }
}

/// Both syntaxes are read to the schema that was meant, and the JSON syntax is written back as it was read.
pub fn check_read(s: &mut Src, c: &mut Case) -> Outcome {
    go(s, c, false)
}
/// What is written in the compact syntax is read back as the same schema.
pub fn check_print(s: &mut Src, c: &mut Case) -> Outcome {
    go(s, c, true)
}
fn go(s: &mut Src, c: &mut Case, print: bool) -> Outcome {
    let mut sch = rich(s);
    for _ in 0..4 {
        if sccs(&sch).1 || not_in_shexc(&sch) {
            sch = rich(s);
        }
    }
    if sccs(&sch).1 {
        return Outcome::Discard("negated recursion");
    }
    if not_in_shexc(&sch) {
        return Outcome::Discard("text and numeric facets without a datatype");
    }
    let want = norm(&serde_json::from_str(&sch.shexj()).unwrap());
    c.desc = sch.shexc();
    c.nontrivial = sch.decls.iter().any(|d| !shapes_of(&d.se).is_empty());
    // prefixes that abbreviate some of the names, not always well
    let mut pre = String::new();
    if print && s.flip() {
        for _ in 0..s.size(1, 4) {
            let a = s.picks(&["", "ex", "a", "true", "start", "and", "NOT", "base", "prefix", "iri", "literal", "closed", "Extra", "abstract", "external", "minlength", "p-1", "x.y", "\u{e9}"]);
            let n = s.picks(&[EX, "http:", "http://", "http://e.", "http://e.org/S", "http://e.org/p", XSD, "http://www.w3.org/2001/XMLSchema", "http://shex.io/", "http://www.w3.org/"]);
            pre.push_str(&format!("PREFIX {a}: <{n}>\n"));
        }
        c.label("prefixes");
        c.desc.insert_str(0, &pre);
    }
    match rt(&sch, &want, print, &pre) {
        Ok(()) => Outcome::Pass,
        Err((k, m)) => fail(k, m),
    }
}
fn rt(sch: &Schema, want: &Value, print: bool, pre: &str) -> Result<(), (String, String)> {
    let mut r = rudof();
    for (f, text, name) in [(ShExFormat::ShExJ, sch.shexj(), "shexj"), (ShExFormat::ShExC, sch.shexc(), "shexc")] {
        if print && (name == "shexc") == pre.is_empty() {
            continue;
        }
        let text = format!("{}{text}", if name == "shexc" { pre } else { "" });
        if let Err(e) = load_shex_lax(&mut r, &text, f) {
            return Err((format!("load-{name}"), format!("{e}\n{text}")));
        }
        let out = write_shex(&mut r, ShExFormat::ShExJ).map_err(|e| ("write-shexj".to_string(), e))?;
        let got = json_of(&out, "shexj")?;
        if let Some((p, d)) = diff(want, &got, String::new()) {
            return Err((format!("{name}-{}", key(&p)), format!("read as {name}, written as ShExJ: {p}: {d}\n{text}\n--\n{out}")));
        }
        load_shex_lax(&mut r, &out, ShExFormat::ShExJ).map_err(|e| ("reload-shexj".to_string(), format!("{e}\n{out}")))?;
        let again = write_shex(&mut r, ShExFormat::ShExJ).map_err(|e| ("write-shexj".to_string(), e))?;
        if let Some((p, d)) = diff(want, &json_of(&again, "shexj")?, String::new()) {
            return Err((format!("again-{}", key(&p)), format!("read as {name}, written as ShExJ, read and written again: {p}: {d}\n{out}\n--\n{again}")));
        }
    }
    if print {
        let text = write_shex(&mut r, ShExFormat::ShExC).map_err(|e| ("write-shexc".to_string(), e))?;
        load_shex_lax(&mut r, &text, ShExFormat::ShExC).map_err(|e| ("reload-shexc".to_string(), format!("{e}\n{text}")))?;
        let out = write_shex(&mut r, ShExFormat::ShExJ).map_err(|e| ("write-shexj".to_string(), e))?;
        let got = json_of(&out, "shexj")?;
        if let Some((p, d)) = diff(want, &got, String::new()) {
            return Err((format!("printed-{}", key(&p)), format!("written as ShExC and read back: {p}: {d}\n{text}\n--\n{out}")));
        }
    }
    Ok(())
}
fn load_shex_lax(r: &mut Rudof, text: &str, f: ShExFormat) -> Result<(), String> {
    let s = spec(text);
    r.load_shex_schema(&s)
        .with_shex_schema_format(&f)
        .with_base(BASE)
        .with_reader_mode(&DataReaderMode::Lax)
        .execute()
        .map_err(|e| format!("load_shex: {e}"))
}

/// Text and numeric facets together have no compact syntax without a datatype.
pub fn not_in_shexc(sch: &Schema) -> bool {
    let mut mixed = false;
    for d in sch.decls.iter().map(|d| &d.se).chain(&sch.start) {
        walk_se(d, &mut |x| {
            if let SE::Nc(n) = x {
                let is_text = |f: &Facet| matches!(f, Facet::Length(_) | Facet::MinLength(_) | Facet::MaxLength(_) | Facet::Pattern(_));
                mixed |= n.facets.iter().any(is_text) && !n.facets.iter().all(is_text) && n.dt.is_none();
            }
        });
    }
    mixed
}

const KEYWORDS: [&str; 28] = [
    "PREFIX", "BASE", "IMPORT", "START", "EXTERNAL", "ABSTRACT", "EXTENDS", "CLOSED", "EXTRA", "AND", "OR", "NOT", "LITERAL", "IRI", "BNODE", "NONLITERAL", "LENGTH", "MINLENGTH", "MAXLENGTH", "MININCLUSIVE",
    "MINEXCLUSIVE", "MAXINCLUSIVE", "MAXEXCLUSIVE", "TOTALDIGITS", "FRACTIONDIGITS", "start", "true", "false",
];
/// The tokens of a document of the generator, each with whether white space stands before it.
fn tokens(text: &str) -> Vec<(bool, String)> {
    let cs: Vec<char> = text.chars().collect();
    let mut out: Vec<(bool, String)> = vec![];
    let (mut i, mut gap) = (0, false);
    let word = |c: char| !c.is_whitespace() && !"{}()[];|,=*+?~<>\"'/^$&!@#".contains(c);
    while i < cs.len() {
        if cs[i].is_whitespace() {
            gap = true;
            i += 1;
            continue;
        }
        let a = i;
        let quoted = |mut j: usize, q: char| {
            j += 1;
            while cs[j] != q {
                j += if cs[j] == '\\' { 2 } else { 1 };
            }
            j + 1
        };
        // an IRI or the rest of a word
        let name = |mut j: usize| {
            if cs.get(j) == Some(&'<') {
                return quoted(j, '>');
            }
            while cs.get(j).is_some_and(|c| word(*c)) {
                j += 1;
            }
            j
        };
        i = match cs[i] {
            '"' | '\'' => {
                let j = quoted(i, cs[i]);
                match cs.get(j) {
                    Some('@') => name(j + 1),
                    _ => j,
                }
            }
            '<' => name(i),
            '/' if cs[i + 1] == '/' => i + 2,
            '/' => name(quoted(i, '/')),
            '^' if cs[i + 1] == '^' => i + 2,
            '@' if matches!(cs[i + 1], '<' | ':' | '_') => i + 1,
            '@' => name(i + 1),
            // an action with its code
            '%' => {
                let mut j = name(i + 1);
                if cs[j] == '{' {
                    while cs[j] != '%' {
                        j += if cs[j] == '\\' { 2 } else { 1 };
                    }
                    j += 2;
                } else if cs[j] == '%' {
                    j += 1;
                }
                j
            }
            '+' | '-' if cs.get(i + 1).is_some_and(|c| c.is_ascii_digit() || *c == '.') && (gap || cs[i - 1] == '[') => name(i + 1),
            '-' => i + 1,
            c if word(c) => name(i),
            _ => i + 1,
        };
        // the sign of an exponent
        if i < cs.len() && cs[i] == '+' && matches!(cs[i - 1], 'e' | 'E') && (cs[a].is_ascii_digit() || "+-.".contains(cs[a])) {
            i = name(i + 1);
        }
        out.push((gap, cs[a..i].iter().collect()));
        gap = false;
    }
    out
}
/// Other spellings of the same cardinalities and strings.
fn respell(s: &mut Src, toks: Vec<(bool, String)>) -> Vec<(bool, String)> {
    let mut out: Vec<(bool, String)> = Vec::new();
    let prefixes: Vec<(&str, &str)> = toks.windows(3).filter(|w| w[0].1 == "PREFIX").map(|w| (w[1].1.as_str(), w[2].1.trim_matches(['<', '>']))).collect();
    let mut i = 0;
    while i < toks.len() {
        let (gap, t) = &toks[i];
        if t == "PREFIX" {
            out.extend(toks[i..i + 2].iter().cloned());
            out.push((toks[i + 2].0, iri(s, &toks[i + 2].1)));
            i += 3;
            continue;
        }
        let end = if t == "{" { toks[i..].iter().position(|x| x.1 == "}").map(|e| i + e) } else { None };
        let inner = end.map(|e| toks[i + 1..e].iter().map(|x| x.1.as_str()).collect::<String>()).unwrap_or_default();
        let (a, b) = inner.split_once(',').unwrap_or((&inner, &inner));
        if !a.is_empty() && inner.chars().all(|c| c.is_ascii_digit() || c == ',') {
            let forms = match b {
                "" => vec![format!("{{{a},}}"), format!("{{{a},*}}"), format!("{{0{a},*}}")],
                _ if a == b => vec![format!("{{{a}}}"), format!("{{{a},{b}}}"), format!("{{{a},0{b}}}")],
                _ => vec![format!("{{{a},{b}}}")],
            };
            out.extend(tokens(s.pick(&forms)));
            i = end.unwrap() + 1;
            continue;
        }
        let card = |s: &mut Src, forms: &[&str]| tokens(s.picks(forms));
        match t.as_str() {
            "*" => out.extend(card(s, &["*", "*", "{0,}", "{0,*}"])),
            "+" => out.extend(card(s, &["+", "+", "{1,}", "{1,*}"])),
            "?" => out.extend(card(s, &["?", "?", "{0,1}"])),
            t if t.starts_with('"') && s.flip() => {
                let e = t.rfind('"').unwrap();
                out.push((*gap, format!("{}{}", string(s, &t[1..e]), &t[e + 1..])));
            }
            t if t.starts_with('<') && t.ends_with('>') => {
                let full = &t[1..t.len() - 1];
                let short = prefixes.iter().find_map(|(p, ns)| full.strip_prefix(ns).and_then(|l| Some(format!("{p}{}", local(s, l)?))));
                let form = match short {
                    Some(n) if s.flip() => n,
                    _ => iri(s, t),
                };
                out.push((*gap, form));
            }
            t if !t.starts_with(['"', '\'', '/', '%', '@']) && s.chance(1, 3) => {
                let full = prefixes.iter().find_map(|(p, ns)| t.strip_prefix(p).map(|l| format!("<{ns}{l}>")));
                let plain = full.is_some() && t.chars().all(|c| c.is_ascii_alphanumeric() || c == ':');
                out.push((*gap, if plain { full.map(|f| iri(s, &f)).unwrap() } else { t.to_string() }));
            }
            _ => out.push((*gap, t.clone())),
        }
        i += 1;
    }
    out
}
/// The local part of a prefixed name.
fn local(s: &mut Src, l: &str) -> Option<String> {
    let n = l.chars().count();
    let mut o = String::new();
    for (k, c) in l.chars().enumerate() {
        match c {
            c if c.is_alphanumeric() => o.push(c),
            '_' | '-' | '.' if k > 0 && k + 1 < n && s.flip() => o.push(c),
            c if "_~.-!$&'()*+,;=/?#@%".contains(c) => o.extend(['\\', c]),
            _ => return None,
        }
    }
    Some(o)
}
/// An IRI with some characters escaped.
fn iri(s: &mut Src, t: &str) -> String {
    let escape = s.chance(1, 6);
    t.chars()
        .map(|c| match c {
            c if escape && c.is_alphanumeric() && s.chance(1, 8) => match s.flip() {
                true if (c as u32) < 0x10000 => format!("\\u{:04x}", c as u32),
                _ => format!("\\U{:08X}", c as u32),
            },
            c => c.to_string(),
        })
        .collect()
}
/// Another spelling of a string.
fn string(s: &mut Src, body: &str) -> String {
    let mut chars = Vec::new();
    let mut it = body.chars();
    while let Some(c) = it.next() {
        chars.push(match c {
            '\\' => match it.next() {
                Some('n') => '\n',
                Some('r') => '\r',
                Some('t') => '\t',
                Some('b') => '\u{8}',
                Some('f') => '\u{c}',
                Some(c @ ('"' | '\'' | '\\')) => c,
                _ => return format!("\"{body}\""),
            },
            c => c,
        });
    }
    let q = s.picks(&["\"", "'", "\"\"\"", "'''"]);
    let mut o = String::new();
    for (k, c) in chars.iter().enumerate() {
        let last = k + 1 == chars.len();
        match c {
            _ if s.chance(1, 12) => o.push_str(&format!("\\u{:04X}", *c as u32)),
            _ if s.chance(1, 12) => o.push_str(&format!("\\U{:08X}", *c as u32)),
            '\\' => o.push_str("\\\\"),
            '\n' if q.len() == 1 => o.push_str("\\n"),
            // in a document, not a line break
            '\r' => o.push_str("\\r"),
            '\t' if s.flip() => o.push_str("\\t"),
            '\u{8}' if s.flip() => o.push_str("\\b"),
            '\u{c}' if s.flip() => o.push_str("\\f"),
            c if q.starts_with(*c) && (q.len() == 1 || last || s.flip() || chars[..k].ends_with(&[*c, *c]) || o.ends_with(&format!("{c}{c}"))) => {
                o.push('\\');
                o.push(*c);
            }
            c => o.push(*c),
        }
    }
    format!("{q}{o}{q}")
}
/// The layout of a document, the case of its keywords and the spelling of its
/// cardinalities, strings and names do not matter.
pub fn check_layout(s: &mut Src, c: &mut Case) -> Outcome {
    let mut sch = rich(s);
    for _ in 0..4 {
        if sccs(&sch).1 || not_in_shexc(&sch) {
            sch = rich(s);
        }
    }
    if sccs(&sch).1 || not_in_shexc(&sch) {
        return Outcome::Discard("not in the compact syntax");
    }
    let plain = sch.shexc();
    let toks = respell(s, tokens(&plain));
    let mut text = String::new();
    let (mut prev, dense) = (String::new(), s.flip());
    for (gap, t) in toks {
        let mut t = t;
        let tight = prev.is_empty() || ["{", "}", "(", ")", "[", "]", ";", "|"].contains(&prev.as_str()) || t.starts_with(|c| "{}()[];|".contains(c));
        let glue = (!gap || tight) && (dense || s.chance(3, 4));
        if !glue {
            text.push_str(s.picks(&[" ", " ", "\n", "\t", "  ", "\r\n", " # a comment } \"\n", "\n#\n\n", " /* a { comment */ "]));
        }
        prev = t.clone();
        if KEYWORDS[..26].contains(&t.as_str()) && s.chance(1, 3) {
            t = t.chars().map(|c| if s.flip() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect();
        }
        text.push_str(&t);
    }
    text.push_str(s.picks(&["", "\n", " # end"]));
    c.desc = text.clone();
    c.nontrivial = sch.decls.iter().any(|d| !shapes_of(&d.se).is_empty());
    let mut r = rudof();
    if let Err(e) = load_shex_lax(&mut r, &plain, ShExFormat::ShExC) {
        return fail("load-plain", format!("{e}\n{plain}"));
    }
    let want = match write_shex(&mut r, ShExFormat::ShExJ).map_err(|e| ("write".to_string(), e)).and_then(|o| json_of(&o, "shexj")) {
        Ok(v) => v,
        Err((k, m)) => return fail(k, m),
    };
    if let Err(e) = load_shex_lax(&mut r, &text, ShExFormat::ShExC) {
        return fail("layout-refused", format!("{e}\n{text}\n-- from\n{plain}"));
    }
    match write_shex(&mut r, ShExFormat::ShExJ).map_err(|e| ("write".to_string(), e)).and_then(|o| json_of(&o, "shexj")) {
        Ok(v) => match diff(&want, &v, String::new()) {
            Some((p, d)) => fail("layout-differs", format!("{p}: {d}\n{text}\n-- from\n{plain}")),
            None => Outcome::Pass,
        },
        Err((k, m)) => fail(k, m),
    }
}

/// Numbers that do not fit are refused, or kept.
pub fn big_numbers() -> Result<(), String> {
    for (what, member) in [(". {N}", "min"), (". {1,N}", "max"), ("LITERAL LENGTH N", "length"), ("LITERAL MINLENGTH N", "minlength"), ("LITERAL MAXLENGTH N", "maxlength"), ("TOTALDIGITS N", "totaldigits"), ("FRACTIONDIGITS N", "fractiondigits")] {
        for n in ["2147483648", "4294967296", "4294967297", "18446744073709551616", "18446744073709551617", "99999999999999999999999999", "340282366920938463463374607431768211457", "-1"] {
            let text = format!("PREFIX : <http://e.org/>\n:S0 {{ :p {} }}", what.replace('N', n));
            let mut r = rudof();
            if load_shex_lax(&mut r, &text, ShExFormat::ShExC).is_err() {
                continue;
            }
            let out = write_shex(&mut r, ShExFormat::ShExJ)?.replace(char::is_whitespace, "");
            if !out.contains(&format!("\"{member}\":{n},")) && !out.contains(&format!("\"{member}\":{n}}}")) {
                return Err(format!("{text}\nwas read as\n{out}"));
            }
        }
    }
    Ok(())
}
