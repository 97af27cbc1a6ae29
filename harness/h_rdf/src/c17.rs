//! C17: SPARQL queries and their results.
use crate::sparql::*;
use common::*;
use hlib::*;
use rudof_lib::Rudof;
use rudof_lib::formats::{DataFormat, ResultDataFormat, ResultQueryFormat as F};
use std::collections::{BTreeMap, BTreeSet};

pub const PM: &[(&str, &str)] = &[("ex", "http://e.org/"), ("ns", "http://e.org/ns#"), ("", "http://e.org/a")];

/// A query with its expected answer.
#[derive(Clone, Debug)]
pub enum Kind {
    /// Columns (in order, unless `*`), whether `*`, grouped count, distinct, order key, offset, limit.
    Select { cols: Vec<String>, star: bool, count: Option<(Vec<String>, Count)>, distinct: bool, order: Vec<(String, bool)>, offset: usize, limit: Option<usize> },
    Ask,
    Construct(Vec<(N, N, N)>),
    Describe(Vec<N>),
}
#[derive(Clone, Debug)]
pub enum Count {
    All,
    Var(String),
    Distinct(String),
}
#[derive(Clone, Debug)]
pub struct Query {
    pub kind: Kind,
    pub body: Group,
    pub text: String,
}
impl Query {
    /// Whether the number of equal solutions does not matter.
    fn loose_ok(&self) -> bool {
        match &self.kind {
            Kind::Select { distinct, count, offset, limit, .. } => match count {
                Some((_, Count::Distinct(_))) => *offset == 0 && limit.is_none(),
                Some(_) => false,
                None => *distinct || *offset == 0 && limit.is_none(),
            },
            Kind::Ask | Kind::Describe(_) => true,
            Kind::Construct(t) => !t.iter().any(|t| matches!((&t.0, &t.2), (N::C(T::B(_)), _) | (_, N::C(T::B(_))))),
        }
    }
}
pub fn prologue(s: &mut Src) -> String {
    match s.below(3) {
        0 => "PREFIX ex: <http://e.org/>\n".into(),
        1 => "PREFIX ex: <http://wrong.org/> prefix ex: <http://e.org/> # comment\n".into(),
        _ => "BASE <http://e.org/x> PREFIX ex: <.>\n".into(),
    }
}
pub fn query(s: &mut Src, g: &G, which: &[u64]) -> Query {
    let mut n = 0;
    let body = gen_group(s, g, 2, &mut n);
    let vars = scope(&body);
    let mut text = prologue(s);
    let mut vs = |s: &mut Src| if vars.is_empty() || s.chance(1, 8) { "nothing".to_string() } else { s.pick(&vars).clone() };
    let where_ = |s: &mut Src| if s.chance(1, 4) { " " } else { "\nWHERE " };
    let kind = match s.weighted(which) {
        0 => {
            let distinct = s.chance(1, 4);
            let (star, count) = match s.below(5) {
                0 | 1 if !vars.is_empty() => (true, None),
                2 => {
                    let by: Vec<String> = s.subset(&vars, 1, 3);
                    let c = match s.below(3) {
                        0 => Count::All,
                        1 => Count::Var(vs(s)),
                        _ => Count::Distinct(vs(s)),
                    };
                    (false, Some((by, c)))
                }
                _ => (false, None),
            };
            let mut cols = match &count {
                Some((by, _)) => by.clone(),
                None if star => vars.clone(),
                None => {
                    let mut v = s.subset(&vars, 2, 3);
                    if v.is_empty() || s.chance(1, 8) {
                        v.push("nothing".into());
                    }
                    s.shuffle(&mut v);
                    v
                }
            };
            let mut list: Vec<String> = cols.iter().map(|c| format!("?{c}")).collect();
            if let Some((_, c)) = &count {
                let at = s.below(list.len() + 1);
                cols.insert(at, "count".into());
                let e = match c {
                    Count::All => "*".into(),
                    Count::Var(v) => format!("?{v}"),
                    Count::Distinct(v) => format!("DISTINCT ?{v}"),
                };
                list.insert(at, format!("(COUNT({e}) AS ?count)"));
            }
            text += &format!("SELECT {}{}", if distinct { "DISTINCT " } else { "" }, if star { "*".into() } else { list.join(" ") });
            text += where_(s);
            text += &write(s, &body);
            if let Some((by, _)) = &count {
                if !by.is_empty() {
                    text += &format!("\nGROUP BY {}", by.iter().map(|v| format!("?{v}")).collect::<Vec<_>>().join(" "));
                }
            }
            let mut order = vec![];
            if s.chance(1, 3) {
                let mut c: Vec<String> = cols.clone();
                s.shuffle(&mut c);
                c.truncate(2);
                order = c.into_iter().map(|c| (c, s.flip())).collect();
                text += &format!("\nORDER BY {}", order.iter().map(|(v, d)| if *d { format!("DESC(?{v})") } else { format!("?{v}") }).collect::<Vec<_>>().join(" "));
            }
            let mut limit = None;
            let mut offset = 0;
            if s.chance(1, 4) {
                offset = if s.flip() { s.below(4) } else { 0 };
                limit = if s.chance(2, 3) { Some(s.below(5)) } else { None };
                if let Some(l) = limit {
                    text += &format!("\nLIMIT {l}");
                }
                if offset > 0 {
                    text += &format!("\nOFFSET {offset}");
                }
            }
            Kind::Select { cols, star, count, distinct, order, offset, limit }
        }
        1 => {
            text += "ASK ";
            text += &write(s, &body);
            Kind::Ask
        }
        2 => {
            let n = |s: &mut Src, pos: usize, v: String| match s.below(4) {
                0 if pos == 1 => N::C(T::ex(s.picks(&["k", "p"]))),
                0 if pos == 0 => N::C(T::ex(s.picks(&["a", "new"]))),
                0 => N::C(literal(s)),
                1 if pos != 1 => N::C(T::b("t")),
                2 if pos == 1 => N::C(T::ex("k")),
                _ => N::V(v),
            };
            let t: Vec<(N, N, N)> = (0..s.size(1, 3).max(1))
                .map(|_| {
                    let (x, y, z) = (vs(s), vs(s), vs(s));
                    (n(s, 0, x), n(s, 1, y), n(s, 2, z))
                })
                .collect();
            let w = |n: &N| match n {
                N::V(v) => format!("?{v}"),
                N::C(t) => t.nt(),
            };
            text += "CONSTRUCT {";
            for (a, b, c) in &t {
                text += &format!(" {} {} {} .", w(a), w(b), w(c));
            }
            text += " }";
            text += where_(s);
            text += &write(s, &body);
            Kind::Construct(t)
        }
        _ => {
            let mut ns = vec![];
            for _ in 0..s.size(1, 2).max(1) {
                let n = if s.flip() { N::C(T::ex(s.picks(&["a", "b", "zz"]))) } else { N::V(vs(s)) };
                if !ns.contains(&n) {
                    ns.push(n);
                }
            }
            let has_var = ns.iter().any(|n| matches!(n, N::V(_)));
            text += "DESCRIBE";
            for n in &ns {
                text += &match n {
                    N::V(v) => format!(" ?{v}"),
                    N::C(t) => format!(" {}", term(s, t)),
                };
            }
            if has_var || s.flip() {
                text += " WHERE ";
                text += &write(s, &body);
                Kind::Describe(ns)
            } else {
                return Query { kind: Kind::Describe(ns), body: vec![], text };
            }
        }
    };
    Query { kind, body, text }
}
/// Rows without order and slice.
fn rows(g: &G, q: &Query) -> Vec<Sol> {
    let Kind::Select { cols, count, distinct, .. } = &q.kind else { unreachable!() };
    let sols = group(g, &q.body);
    let mut rows: Vec<Sol> = match count {
        None => sols.into_iter().map(|s| s.into_iter().filter(|(k, _)| cols.contains(k)).collect()).collect(),
        Some((by, c)) => {
            let mut m: BTreeMap<Sol, Vec<Sol>> = BTreeMap::new();
            if by.is_empty() {
                m.insert(Sol::new(), vec![]);
            }
            for s in sols {
                let k: Sol = s.clone().into_iter().filter(|(k, _)| by.contains(k)).collect();
                m.entry(k).or_default().push(s);
            }
            m.into_iter()
                .map(|(mut k, v)| {
                    let n = match c {
                        Count::All => v.len(),
                        Count::Var(x) => v.iter().filter(|s| s.contains_key(x)).count(),
                        Count::Distinct(x) => v.iter().filter_map(|s| s.get(x)).collect::<BTreeSet<_>>().len(),
                    };
                    k.insert("count".into(), T::int(n as i64));
                    k
                })
                .collect()
        }
    };
    if *distinct {
        rows = rows.into_iter().collect::<BTreeSet<_>>().into_iter().collect();
    }
    rows
}
fn rank(t: Option<&T>) -> (u8, Option<&str>) {
    match t {
        None => (0, None),
        Some(T::B(_)) => (1, None),
        Some(T::Iri(i)) => (2, Some(i)),
        Some(_) => (3, None),
    }
}
/// The SPARQL library drops the only group of an empty pattern in some cases.
fn zero_group(all: &[Sol], got: usize) -> bool {
    all.len() == 1 && got == 0 && all[0].len() == 1 && all[0].get("count") == Some(&T::int(0))
}
fn count_error(all: &[Sol], got: usize, offset: usize, limit: Option<usize>) -> Option<String> {
    let n = all.len().saturating_sub(offset).min(limit.unwrap_or(usize::MAX));
    (got != n && !zero_group(all, got)).then(|| format!("{got} rows of {n}"))
}
/// Whether the rows may be the answer.
pub fn check_rows(g: &G, q: &Query, got: &[Sol]) -> Result<(), (String, String)> {
    let Kind::Select { order, offset, limit, .. } = &q.kind else { unreachable!() };
    let all = rows(g, q);
    let mut left: BTreeMap<&Sol, usize> = BTreeMap::new();
    for r in &all {
        *left.entry(r).or_default() += 1;
    }
    let say = || format!("{}\nrows {got:?}\nall  {all:?}", q.text);
    for r in got {
        match left.get_mut(r) {
            Some(n) if *n > 0 => *n -= 1,
            _ => return Err(("extra-row".into(), format!("{r:?} in {}", say()))),
        }
    }
    if loose(&q.body) {
        let (a, b): (BTreeSet<&Sol>, BTreeSet<&Sol>) = (all.iter().collect(), got.iter().collect());
        if *offset == 0 && limit.is_none() && a != b && !zero_group(&all, got.len()) {
            return Err(("rows".into(), say()));
        }
    } else if let Some(e) = count_error(&all, got.len(), *offset, *limit) {
        return Err(("rows".into(), format!("{e}: {}", say())));
    }
    if !order.is_empty() {
        for w in got.windows(2) {
            for (v, desc) in order {
                let (mut a, mut b) = (rank(w[0].get(v)), rank(w[1].get(v)));
                let tie = a == b && a.0 != 1 && a.0 != 3;
                if *desc {
                    std::mem::swap(&mut a, &mut b);
                }
                if a > b {
                    return Err(("order".into(), say()));
                }
                if !tie {
                    break;
                }
            }
        }
    }
    Ok(())
}
pub fn constructed(g: &G, q: &Query) -> G {
    let mut out = G::default();
    match &q.kind {
        Kind::Construct(t) => {
            for (i, sol) in group(g, &q.body).iter().enumerate() {
                let val = |n: &N| match n {
                    N::C(T::B(b)) => Some(T::b(&format!("fresh{b}{i}"))),
                    N::C(t) => Some(t.clone()),
                    N::V(v) => sol.get(v).cloned(),
                };
                for (a, b, c) in t {
                    if let (Some(a), Some(T::Iri(b)), Some(c)) = (val(a), val(b), val(c)) {
                        if !a.is_lit() {
                            out.add(a, &b, c);
                        }
                    }
                }
            }
        }
        Kind::Describe(ns) => {
            let sols = if q.body.is_empty() { vec![Sol::new()] } else { group(g, &q.body) };
            let mut todo: Vec<T> = vec![];
            for s in &sols {
                for n in ns {
                    match n {
                        N::C(t) => todo.push(t.clone()),
                        N::V(v) => todo.extend(s.get(v).cloned()),
                    }
                }
            }
            let mut seen = BTreeSet::new();
            while let Some(t) = todo.pop() {
                if seen.insert(t.clone()) {
                    for (p, o) in g.out(&t) {
                        out.add(t.clone(), p, o.clone());
                        if o.is_b() {
                            todo.push(o.clone());
                        }
                    }
                }
            }
        }
        _ => unreachable!(),
    }
    out
}
pub fn results(r: &mut Rudof, f: F) -> Result<String, String> {
    let mut out = vec![];
    r.serialize_query_results(&mut out).with_result_query_format(&f).execute().map_err(|e| e.to_string())?;
    String::from_utf8(out).map_err(|e| e.to_string())
}
pub fn load(r: &mut Rudof, text: &str) -> Result<(), String> {
    let q = spec(text);
    r.load_sparql_query(&q).execute().map_err(|e| e.to_string())
}
/// The default graph as rudof has it, with its labels.
pub fn current(r: &mut Rudof) -> Result<G, String> {
    parse_nt(&write_data(r, ResultDataFormat::NTriples)?)
}
pub fn json_rows(text: &str) -> Result<Vec<Sol>, String> {
    let v: serde_json::Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
    v["solutions"]
        .as_array()
        .ok_or("no solutions")?
        .iter()
        .map(|o| {
            o.as_object()
                .ok_or("no object")?
                .iter()
                .map(|(k, v)| Ok((k.clone(), parse_nt_term(v.as_str().ok_or("no string")?)?)))
                .collect()
        })
        .collect()
}
fn csv(text: &str) -> Vec<Vec<String>> {
    let (mut out, mut row, mut cell) = (vec![], vec![], String::new());
    let mut it = text.chars().peekable();
    let mut quoted = false;
    while let Some(c) = it.next() {
        match c {
            '"' if quoted => {
                if it.peek() == Some(&'"') {
                    it.next();
                    cell.push('"');
                } else {
                    quoted = false;
                }
            }
            '"' if cell.is_empty() => quoted = true,
            ',' if !quoted => row.push(std::mem::take(&mut cell)),
            '\n' if !quoted => {
                row.push(std::mem::take(&mut cell));
                out.push(std::mem::take(&mut row));
            }
            c => cell.push(c),
        }
    }
    if !row.is_empty() || !cell.is_empty() {
        row.push(cell);
        out.push(row);
    }
    out
}
/// The cells of a table drawn with lines.
fn table(text: &str) -> Vec<Vec<String>> {
    text.lines()
        .filter(|l| l.contains(['│', '|']) && !l.contains("---") && !l.contains("├─"))
        .map(|l| {
            let v: Vec<&str> = l.split(['│', '|']).collect();
            v[1..v.len() - 1].iter().skip(1).map(|c| c.strip_prefix(' ').unwrap_or(c).trim_end().to_string()).collect()
        })
        .collect()
}
/// Whether a cell of a table shows the term.
fn shows(cell: &str, t: Option<&T>, trim: bool) -> bool {
    let Some(t) = t else { return cell.is_empty() };
    let iri = |c: &str, i: &str| {
        c == format!("<{i}>") || PM.iter().chain(&[("xsd", XSD), ("rdf", RDF)]).any(|(p, n)| c.strip_prefix(p).and_then(|c| c.strip_prefix(':')).is_some_and(|l| format!("{n}{l}") == i))
    };
    match t {
        T::Iri(i) => iri(cell, i),
        T::B(b) => cell == format!("_:{b}"),
        T::L { lex, dt, lang } => {
            match lang {
                // display may write the tag in its canonical case
                Some(l) => cell.strip_prefix(&format!("\"{lex}\"@")).is_some_and(|x| x.eq_ignore_ascii_case(l)),
                None if *dt == xsd("string") => cell == format!("\"{lex}\""),
                None => cell == lex || trim && cell == lex.trim_end() || cell.strip_prefix(&format!("\"{lex}\"^^")).is_some_and(|d| iri(d, dt)),
            }
        }
    }
}
fn check_table(cells: Vec<Vec<String>>, cols: &[String], got: &[Sol], trim: bool) -> Result<(), String> {
    let head: Vec<String> = cells[0].iter().map(|c| c.trim_start_matches('?').to_string()).collect();
    let (mut a, mut b) = (head.clone(), cols.to_vec());
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("header {head:?} should be {cols:?}"));
    }
    if cells.len() != got.len() + 1 {
        return Err(format!("{} lines for {} solutions: {cells:?}", cells.len(), got.len()));
    }
    for (c, s) in cells[1..].iter().zip(got) {
        if c.len() != head.len() {
            return Err(format!("{c:?} for {head:?}"));
        }
        for (h, x) in head.iter().zip(c) {
            if !shows(x, s.get(h), trim) {
                return Err(format!("?{h} is {x:?}, should be {:?}", s.get(h)));
            }
        }
    }
    Ok(())
}
/// Checks the results of the query that ran over `g`.
pub fn check_answer(r: &mut Rudof, g: &G, q: &Query, fmt: F) -> Result<(), (String, String)> {
    let err = |k: &str, e: String| (k.to_string(), format!("{e}\n{}", q.text));
    match &q.kind {
        Kind::Select { cols, star, .. } => {
            let got = json_rows(&results(r, F::Json).map_err(|e| err("json", e))?).map_err(|e| err("json", e))?;
            check_rows(g, q, &got)?;
            let text = results(r, F::Csv).map_err(|e| err("csv", e))?;
            if got.is_empty() {
                if text != "No results" {
                    return Err(err("csv", text));
                }
                return Ok(());
            }
            let cells = csv(&text);
            if !*star && cells[0] != cols.iter().map(|c| format!("?{c}")).collect::<Vec<_>>() {
                return Err(err("columns", format!("{:?}", cells[0])));
            }
            check_table(cells, cols, &got, false).map_err(|e| err("csv", format!("{e}\n{text}")))?;
            // tables are drawn: no cell with several lines or with the lines of the table
            if !got.iter().flat_map(|s| s.values()).any(|t| matches!(t, T::L { lex, .. } if lex.contains(['\n', '|', '\t']))) {
                for f in [F::Markdown, F::Internal] {
                    let text = results(r, f).map_err(|e| err("table", e))?;
                    check_table(table(&text), cols, &got, true).map_err(|e| err("table", format!("{e}\n{text}")))?;
                }
            }
            for f in [F::Turtle, F::RdfXml] {
                if results(r, f).is_ok() {
                    return Err(err("select-as-rdf", f.to_string()));
                }
            }
        }
        Kind::Ask => {
            let e = !group(g, &q.body).is_empty();
            let text = results(r, fmt).map_err(|e| err("ask", e))?;
            if text.trim() != e.to_string() {
                return Err(err("ask", format!("{text}, should be {e}")));
            }
        }
        Kind::Construct(_) | Kind::Describe(_) => {
            let text = results(r, fmt).map_err(|e| err("construct", e))?;
            let df = match fmt {
                F::NTriples => DataFormat::NTriples,
                F::RdfXml => DataFormat::RdfXml,
                F::TriG => DataFormat::TriG,
                F::N3 => DataFormat::N3,
                F::NQuads => DataFormat::NQuads,
                F::JsonLd => DataFormat::JsonLd,
                _ => DataFormat::Turtle,
            };
            let got = if df == DataFormat::NTriples {
                parse_nt(&text)
            } else {
                let mut r2 = rudof();
                load_data(&mut r2, &text, df, false).and_then(|_| current(&mut r2))
            };
            let got = got.map_err(|e| err("construct-unreadable", format!("{fmt} {e}\n{text}")))?;
            let e = constructed(g, q);
            if !got.iso(&e) {
                let k = if matches!(q.kind, Kind::Construct(_)) { "construct" } else { "describe" };
                return Err(err(k, format!("{fmt}\n{}should be\n{}", got.nt(), e.nt())));
            }
        }
    }
    Ok(())
}
pub const FORMATS: &[F] = &[F::NTriples, F::Turtle, F::RdfXml, F::TriG, F::N3, F::NQuads, F::JsonLd, F::Json, F::Csv, F::Markdown, F::Internal];
fn turtle(s: &mut Src, g: &G) -> String {
    let mut o = String::new();
    for (p, n) in PM {
        if s.chance(2, 3) {
            o += &format!("@prefix {p}: <{n}> .\n");
        }
    }
    o + &g.nt()
}
pub fn too_big(g: &G, q: &Query) -> bool {
    OPEN.set(false);
    let n = group(g, &q.body).len();
    n > 300 || OPEN.get() || ill(&q.body, &[], false) || stray(g, &q.body) || loose(&q.body) && !q.loose_ok()
}
fn one(s: &mut Src, c: &mut Case, which: &[u64]) -> Outcome {
    let g = data(s, 15);
    let mut r = rudof();
    let text = turtle(s, &g);
    if let Err(e) = load_data(&mut r, &text, DataFormat::Turtle, false) {
        return fail("load", e);
    }
    let cur = match current(&mut r) {
        Ok(g) => g,
        Err(e) => return fail("write", e),
    };
    let q = query(s, &cur, which);
    let fmt = s.picks(FORMATS);
    c.desc = format!("{text}\n{}\n{fmt}", q.text);
    if too_big(&cur, &q) {
        return Outcome::Discard("open comparison or many solutions");
    }
    if let Err(e) = load(&mut r, &q.text) {
        return fail("parse", e);
    }
    if let Err(e) = r.run_query().with_result_query_format(&fmt).execute() {
        return fail("run", e.to_string());
    }
    c.nontrivial = g.ts.len() > 2 && !group(&cur, &q.body).is_empty();
    match check_answer(&mut r, &cur, &q, fmt) {
        Ok(()) => Outcome::Pass,
        Err((k, m)) => fail(k, m),
    }
}
pub fn select(s: &mut Src, c: &mut Case) -> Outcome {
    one(s, c, &[1])
}
pub fn other(s: &mut Src, c: &mut Case) -> Outcome {
    one(s, c, &[0, 1, 3, 2])
}
/// Loads, queries, resets and results in one session.
pub fn session(s: &mut Src, c: &mut Case) -> Outcome {
    let mut r = rudof();
    let mut g: Option<G> = None;
    // a query with the graph that it ran over, and the format
    let mut q: Option<Query> = None;
    let mut res: Option<(Query, G, F)> = None;
    let mut runs = 0;
    macro_rules! ok {
        ($e:expr, $k:expr) => {
            match $e {
                Ok(x) => x,
                Err(e) => return fail($k, e.to_string()),
            }
        };
    }
    for _ in 0..s.size(4, 14) {
        match s.weighted(&[4, 5, 5, 4, 1, 1, 1, 1]) {
            0 => {
                let d = data(s, 9);
                let (merge, text) = (s.chance(2, 3), turtle(s, &d));
                c.desc += &format!("load merge={merge}\n{text}");
                ok!(load_data(&mut r, &text, DataFormat::Turtle, merge), "load");
                let cur = ok!(current(&mut r), "write");
                // blank nodes of the documents are apart
                let n = d.ts.iter().filter(|t| !t.0.is_b() && !t.2.is_b()).filter(|t| !cur.has(&t.0, &t.1, &t.2)).count();
                if n > 0 {
                    return fail("lost", format!("{n} statements"));
                }
                g = Some(cur);
            }
            1 => {
                let x = query(s, g.as_ref().unwrap_or(&G::default()), &[6, 1, 2, 1]);
                c.desc += &format!("query {}\n", x.text);
                ok!(load(&mut r, &x.text), "parse");
                q = Some(x);
            }
            2 => {
                let fmt = s.picks(FORMATS);
                c.desc += &format!("run {fmt}\n");
                let got = r.run_query().with_result_query_format(&fmt).execute();
                match (&g, &q) {
                    (Some(g), Some(x)) => {
                        if too_big(g, x) {
                            return Outcome::Discard("open comparison or many solutions");
                        }
                        ok!(got, "run");
                        runs += 1;
                        res = Some((x.clone(), g.clone(), fmt));
                    }
                    _ => {
                        if g.is_some() && got.is_ok() {
                            return fail("run-without-query", "");
                        }
                        if got.is_ok() {
                            return fail("run-without-data", "");
                        }
                    }
                }
            }
            3 => {
                c.desc += "results\n";
                match &res {
                    Some((x, g, f)) => {
                        if let Err((k, m)) = check_answer(&mut r, g, x, *f) {
                            return fail(k, m);
                        }
                    }
                    None => {
                        if let Ok(t) = results(&mut r, F::Internal) {
                            return fail("results-of-nothing", t);
                        }
                    }
                }
            }
            4 => {
                c.desc += "malformed query\n";
                let t = s.picks(&["SELECT WHERE {", "SELECT ?x { ?x }", "ASK { ?x <p }", "CONSTRUCT { ?x ex:p ?y } WHERE { ?x zzz:p ?y }", ""]);
                if load(&mut r, t).is_ok() {
                    return fail("malformed-accepted", t);
                }
            }
            5 => {
                c.desc += "reset results\n";
                r.reset_query_results().execute();
                res = None;
                q = None;
            }
            6 => {
                c.desc += "reset query\n";
                r.reset_sparql_query().execute();
                q = None;
            }
            _ => {
                // the graph follows changes of other kinds
                c.desc += "reset data\n";
                r.reset_data().execute();
                g = None;
            }
        }
    }
    c.nontrivial = runs > 1;
    c.label_if(res.is_some(), "results at the end");
    if let Some((x, g, f)) = &res {
        if let Err((k, m)) = check_answer(&mut r, g, x, *f) {
            return fail(k, m);
        }
    }
    Outcome::Pass
}
