//! Generated SPARQL queries with a reference evaluator that follows the algebra of the specification.
use common::*;
use hlib::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};

thread_local! {
    /// Set when an evaluation meets a comparison that the specification leaves open.
    pub static OPEN: Cell<bool> = const { Cell::new(false) };
}
fn open() {
    OPEN.set(true);
}
pub type Sol = BTreeMap<String, T>;
#[derive(Clone, Debug)]
pub enum Path {
    Pred(String),
    Inv(Box<Path>),
    Seq(Box<Path>, Box<Path>),
    Alt(Box<Path>, Box<Path>),
    Star(Box<Path>),
    Plus(Box<Path>),
    Opt(Box<Path>),
    Neg(Vec<String>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum N {
    V(String),
    C(T),
}
#[derive(Clone, Debug)]
pub enum Ex {
    Var(String),
    C(T),
    Eq(Box<Ex>, Box<Ex>),
    Lt(Box<Ex>, Box<Ex>),
    Same(Box<Ex>, Box<Ex>),
    Bound(String),
    Is(&'static str, Box<Ex>),
    Str(Box<Ex>),
    Lang(Box<Ex>),
    Dt(Box<Ex>),
    Not(Box<Ex>),
    And(Box<Ex>, Box<Ex>),
    Or(Box<Ex>, Box<Ex>),
    Exists(bool, Group),
}
#[derive(Clone, Debug)]
pub enum El {
    Triple(N, Path, N),
    Var(N, String, N),
    Opt(Group),
    Union(Vec<Group>),
    Minus(Group),
    Filter(Ex),
    Bind(Ex, String),
    Values(Vec<String>, Vec<Vec<Option<T>>>),
    Sub(Group),
    Select(bool, Vec<String>, Group),
}
pub type Group = Vec<El>;

fn compatible(a: &Sol, b: &Sol) -> bool {
    a.iter().all(|(k, v)| b.get(k).is_none_or(|w| v == w))
}
fn merge(a: &Sol, b: &Sol) -> Sol {
    let mut r = a.clone();
    r.extend(b.iter().map(|(k, v)| (k.clone(), v.clone())));
    r
}
fn join(a: &[Sol], b: &[Sol]) -> Vec<Sol> {
    a.iter().flat_map(|x| b.iter().filter(|y| compatible(x, y)).map(|y| merge(x, y))).collect()
}
/// The pairs that a path connects, with duplicates.
fn pairs(g: &G, whole: &Path, dom: &BTreeSet<T>) -> Vec<(T, T)> {
    let set = |v: Vec<(T, T)>| -> Vec<(T, T)> { v.into_iter().collect::<BTreeSet<_>>().into_iter().collect() };
    match whole {
        Path::Pred(p) => g.ts.iter().filter(|t| t.1 == *p).map(|t| (t.0.clone(), t.2.clone())).collect(),
        Path::Neg(ps) => g.ts.iter().filter(|t| !ps.contains(&t.1)).map(|t| (t.0.clone(), t.2.clone())).collect(),
        Path::Inv(p) => pairs(g, p, dom).into_iter().map(|(a, b)| (b, a)).collect(),
        Path::Seq(p, q) => {
            let (x, y) = (pairs(g, p, dom), pairs(g, q, dom));
            x.iter().flat_map(|(a, b)| y.iter().filter(move |(c, _)| c == b).map(|(_, d)| (a.clone(), d.clone()))).collect()
        }
        Path::Alt(p, q) => pairs(g, p, dom).into_iter().chain(pairs(g, q, dom)).collect(),
        Path::Opt(p) => set(pairs(g, p, dom).into_iter().chain(dom.iter().map(|d| (d.clone(), d.clone()))).collect()),
        Path::Star(p) | Path::Plus(p) => {
            let base = set(pairs(g, p, dom));
            let mut cur: BTreeSet<(T, T)> = base.iter().cloned().collect();
            loop {
                let more: Vec<(T, T)> = cur
                    .iter()
                    .flat_map(|(a, b)| base.iter().filter(move |(c, _)| c == b).map(|(_, d)| (a.clone(), d.clone())))
                    .filter(|x| !cur.contains(x))
                    .collect();
                if more.is_empty() {
                    break;
                }
                cur.extend(more);
            }
            if let Path::Star(_) = whole {
                cur.extend(dom.iter().map(|d| (d.clone(), d.clone())));
            }
            cur.into_iter().collect()
        }
    }
}

fn boolean(b: bool) -> T {
    T::typed(if b { "true" } else { "false" }, "boolean")
}
fn plain(t: &T) -> Option<&str> {
    match t {
        T::L { lex, dt, lang: None } if *dt == xsd("string") => Some(lex),
        _ => None,
    }
}
fn number(t: &T) -> Option<i128> {
    match t {
        T::L { lex, dt, .. } if lit::is_numeric_dt(dt) => lit::numeric(lex, dt),
        _ => None,
    }
}
fn ebv(t: &T) -> Result<bool, ()> {
    match t {
        T::L { lex, dt, .. } if *dt == xsd("boolean") && (lex == "true" || lex == "false") => Ok(lex == "true"),
        T::L { .. } => {
            open();
            Err(())
        }
        _ => Err(()),
    }
}
pub fn expr(g: &G, e: &Ex, s: &Sol) -> Result<T, ()> {
    let b = |x: &Ex| expr(g, x, s).and_then(|t| ebv(&t));
    match e {
        Ex::Var(v) => s.get(v).cloned().ok_or(()),
        Ex::C(t) => Ok(t.clone()),
        Ex::Eq(x, y) => {
            let (x, y) = (expr(g, x, s)?, expr(g, y, s)?);
            if let (Some(a), Some(b)) = (number(&x), number(&y)) {
                return Ok(boolean(a == b));
            }
            if x.is_lit() && y.is_lit() && x != y && !(plain(&x).is_some() && plain(&y).is_some()) {
                open();
            }
            Ok(boolean(x == y))
        }
        Ex::Lt(x, y) => {
            let (x, y) = (expr(g, x, s)?, expr(g, y, s)?);
            if let (Some(a), Some(b)) = (number(&x), number(&y)) {
                return Ok(boolean(a < b));
            }
            if let (Some(a), Some(b)) = (plain(&x), plain(&y)) {
                return Ok(boolean(a < b));
            }
            if x.is_lit() && y.is_lit() {
                open();
            }
            Err(())
        }
        Ex::Same(x, y) => Ok(boolean(expr(g, x, s)? == expr(g, y, s)?)),
        Ex::Bound(v) => Ok(boolean(s.contains_key(v))),
        Ex::Is(k, x) => {
            let t = expr(g, x, s)?;
            Ok(boolean(match *k {
                "isIRI" => t.is_iri(),
                "isBlank" => t.is_b(),
                _ => t.is_lit(),
            }))
        }
        Ex::Str(x) => match expr(g, x, s)? {
            T::Iri(i) => Ok(T::str(i)),
            T::L { lex, .. } => Ok(T::str(lex)),
            T::B(_) => Err(()),
        },
        Ex::Lang(x) => match expr(g, x, s)? {
            T::L { lang, .. } => Ok(T::str(lang.unwrap_or_default())),
            _ => Err(()),
        },
        Ex::Dt(x) => match expr(g, x, s)? {
            T::L { dt, .. } => Ok(T::Iri(dt)),
            _ => Err(()),
        },
        Ex::Not(x) => b(x).map(|v| boolean(!v)),
        Ex::And(x, y) => match (b(x), b(y)) {
            (Ok(false), _) | (_, Ok(false)) => Ok(boolean(false)),
            (Ok(true), Ok(true)) => Ok(boolean(true)),
            _ => Err(()),
        },
        Ex::Or(x, y) => match (b(x), b(y)) {
            (Ok(true), _) | (_, Ok(true)) => Ok(boolean(true)),
            (Ok(false), Ok(false)) => Ok(boolean(false)),
            _ => Err(()),
        },
        Ex::Exists(pos, gr) => Ok(boolean(group(g, gr).iter().any(|m| compatible(m, s)) == *pos)),
    }
}
fn truth(g: &G, e: &Ex, s: &Sol) -> bool {
    expr(g, e, s).and_then(|t| ebv(&t)) == Ok(true)
}
fn bind(n: &N, t: &T, s: &mut Sol) -> bool {
    match n {
        N::C(c) => c == t,
        N::V(v) => match s.get(v) {
            Some(x) => x == t,
            None => {
                s.insert(v.clone(), t.clone());
                true
            }
        },
    }
}
/// Solutions of a group without its filters.
fn unfiltered(g: &G, gr: &Group) -> Vec<Sol> {
    let mut cur = vec![Sol::new()];
    for e in gr {
        cur = match e {
            El::Triple(a, p, b) => {
                let mut dom = g.nodes();
                for n in [a, b] {
                    if let N::C(t) = n {
                        dom.insert(t.clone());
                    }
                }
                let m: Vec<Sol> = pairs(g, p, &dom)
                    .iter()
                    .filter_map(|(x, y)| {
                        let mut s = Sol::new();
                        (bind(a, x, &mut s) && bind(b, y, &mut s)).then_some(s)
                    })
                    .collect();
                join(&cur, &m)
            }
            El::Var(a, p, b) => {
                let m: Vec<Sol> = g
                    .ts
                    .iter()
                    .filter_map(|t| {
                        let mut s = Sol::new();
                        (bind(a, &t.0, &mut s) && bind(&N::V(p.clone()), &T::Iri(t.1.clone()), &mut s) && bind(b, &t.2, &mut s)).then_some(s)
                    })
                    .collect();
                join(&cur, &m)
            }
            El::Opt(o) => {
                let (m, fs) = (unfiltered(g, o), filters(o));
                cur.iter()
                    .flat_map(|x| {
                        let r: Vec<Sol> = m.iter().filter(|y| compatible(x, y)).map(|y| merge(x, y)).filter(|z| fs.iter().all(|f| truth(g, f, z))).collect();
                        if r.is_empty() { vec![x.clone()] } else { r }
                    })
                    .collect()
            }
            El::Union(gs) => {
                let m: Vec<Sol> = gs.iter().flat_map(|x| group(g, x)).collect();
                join(&cur, &m)
            }
            El::Minus(o) => {
                let m = group(g, o);
                cur.into_iter().filter(|x| !m.iter().any(|y| compatible(x, y) && x.keys().any(|k| y.contains_key(k)))).collect()
            }
            El::Filter(_) => cur,
            El::Bind(e, v) => cur
                .into_iter()
                .map(|mut x| {
                    if let Ok(t) = expr(g, e, &x) {
                        x.insert(v.clone(), t);
                    }
                    x
                })
                .collect(),
            El::Values(vs, rows) => {
                let m: Vec<Sol> = rows.iter().map(|r| vs.iter().zip(r).filter_map(|(v, t)| t.clone().map(|t| (v.clone(), t))).collect()).collect();
                join(&cur, &m)
            }
            El::Sub(o) => join(&cur, &group(g, o)),
            El::Select(d, vs, o) => {
                let mut m: Vec<Sol> = group(g, o).into_iter().map(|x| x.into_iter().filter(|(k, _)| vs.contains(k)).collect()).collect();
                if *d {
                    m = m.into_iter().collect::<BTreeSet<_>>().into_iter().collect();
                }
                join(&cur, &m)
            }
        };
    }
    cur
}
fn filters(gr: &Group) -> Vec<Ex> {
    gr.iter().filter_map(|e| if let El::Filter(f) = e { Some(f.clone()) } else { None }).collect()
}
pub fn group(g: &G, gr: &Group) -> Vec<Sol> {
    let fs = filters(gr);
    unfiltered(g, gr).into_iter().filter(|s| fs.iter().all(|f| truth(g, f, s))).collect()
}
/// Variables in scope.
pub fn scope(gr: &Group) -> Vec<String> {
    let mut v = vec![];
    for e in gr {
        match e {
            El::Triple(a, _, b) => [a, b].iter().for_each(|n| if let N::V(x) = n { v.push(x.clone()) }),
            El::Var(a, p, b) => {
                [a, b].iter().for_each(|n| if let N::V(x) = n { v.push(x.clone()) });
                v.push(p.clone());
            }
            El::Opt(o) | El::Sub(o) => v.extend(scope(o)),
            El::Union(gs) => gs.iter().for_each(|o| v.extend(scope(o))),
            El::Bind(_, x) => v.push(x.clone()),
            El::Values(vs, _) | El::Select(_, vs, _) => v.extend(vs.clone()),
            El::Minus(_) | El::Filter(_) => {}
        }
    }
    v.sort();
    v.dedup();
    v
}

// ---- generators ----
pub const VARS: &[&str] = &["x", "y", "z", "w"];
pub const QPREDS: &[&str] = &["p", "q", "r"];
pub fn node(s: &mut Src) -> T {
    if s.chance(1, 5) { T::b(s.picks(&["m", "n"])) } else { T::ex(s.picks(&["a", "b", "c", "d"])) }
}
pub fn literal(s: &mut Src) -> T {
    match s.below(7) {
        0 => T::int(s.range(-1, 3)),
        1 => T::str(s.picks(&["", "a", "b", "1", "x,y", "say \"hi\"", "two\nlines", "tab\t", "<b>", "\u{e9}\u{1f600}", "back\\slash", "a|b", " sp "])),
        2 => T::lang(s.picks(&["a", "x,\"y\""]), s.picks(&["en", "en-gb", "fr"])),
        3 => T::typed(s.picks(&["1.5", "0.5", "-2.5"]), "decimal"),
        4 => T::typed(s.picks(&["true", "false"]), "boolean"),
        5 => T::typed(s.picks(&["2020-01-01", "1999-12-31"]), "date"),
        _ => T::typed(s.picks(&["a", "1"]), "http://e.org/ns#dt"),
    }
}
pub fn object(s: &mut Src) -> T {
    if s.chance(2, 5) { literal(s) } else { node(s) }
}
pub fn data(s: &mut Src, n: usize) -> G {
    let mut g = G::default();
    for _ in 0..s.size(n / 3, n) {
        let (a, p, b) = (node(s), format!("{EX}{}", s.picks(QPREDS)), object(s));
        g.add(a, &p, b);
    }
    g
}
fn pred(s: &mut Src) -> String {
    format!("{EX}{}", s.picks(QPREDS))
}
pub fn path(s: &mut Src, d: usize) -> Path {
    if d == 0 || s.chance(2, 5) {
        return Path::Pred(pred(s));
    }
    let mut sub = || Box::new(path(s, d - 1));
    let (a, b) = (sub(), sub());
    match s.below(7) {
        0 => Path::Inv(a),
        1 => Path::Seq(a, b),
        2 => Path::Alt(a, b),
        3 => Path::Star(a),
        4 => Path::Plus(a),
        5 => Path::Opt(a),
        _ => Path::Neg((0..s.size(1, 2).max(1)).map(|_| pred(s)).collect()),
    }
}
fn simple(p: &Path) -> bool {
    !matches!(p, Path::Star(_) | Path::Opt(_) | Path::Plus(_)) && match p {
        Path::Inv(a) => simple(a),
        Path::Seq(a, b) | Path::Alt(a, b) => simple(a) && simple(b),
        _ => true,
    }
}
fn var(s: &mut Src) -> String {
    s.picks(VARS).to_string()
}
/// Constants come from the graph: most patterns match, and zero-length paths start inside it.
fn nod(s: &mut Src, g: &G, pos: usize) -> N {
    let ns: Vec<T> = g.nodes().into_iter().filter(|t| !t.is_b() && (pos == 1 || !t.is_lit())).collect();
    if !ns.is_empty() && s.chance(1, 6) { N::C(s.pick(&ns).clone()) } else { N::V(VARS[s.weighted(if pos == 0 { &[6, 3, 1, 1] } else { &[1, 4, 4, 4] })].to_string()) }
}
fn triple(s: &mut Src, g: &G, paths: bool) -> El {
    let (a, b) = (nod(s, g, 0), nod(s, g, 1));
    if s.chance(1, 6) {
        return El::Var(a, s.picks(&["v", "v", "v", "w"]).to_string(), b);
    }
    let p = if paths && s.chance(1, 3) { path(s, 2) } else { Path::Pred(pred(s)) };
    // a path that may have length zero needs an end that is a node of the graph
    if !simple(&p) && g.ts.is_empty() {
        return El::Triple(a, Path::Pred(pred(s)), b);
    }
    El::Triple(a, p, b)
}
/// Conditions on variables of the group: the SPARQL library lets others see variables from outside.
fn boolean_expr(s: &mut Src, g: &G, vs: &[String], d: usize, top: bool) -> Ex {
    let var = |s: &mut Src| if vs.is_empty() { "none".to_string() } else { s.pick(vs).clone() };
    let v = |s: &mut Src| Box::new(Ex::Var(var(s)));
    match s.below(if d == 0 { 8 } else if top { 12 } else { 11 }) {
        0 => Ex::Bound(var(s)),
        1 => Ex::Is(s.picks(&["isIRI", "isBlank", "isLiteral"]), v(s)),
        2 => {
            let k = if s.flip() { node(s) } else { literal(s) };
            let k = if k.is_b() { T::ex("a") } else { k };
            Ex::Same(v(s), Box::new(Ex::C(k)))
        }
        3 => Ex::Eq(v(s), Box::new(Ex::C(T::ex(s.picks(&["a", "b", "c"]))))),
        4 => Ex::Lt(v(s), Box::new(Ex::C(T::int(s.range(0, 2))))),
        5 => Ex::Eq(Box::new(Ex::Lang(v(s))), Box::new(Ex::C(T::str(s.picks(&["en", ""]))))),
        6 => Ex::Eq(Box::new(Ex::Dt(v(s))), Box::new(Ex::C(T::iri(s.picks(&[xsd("integer"), xsd("string"), "http://e.org/ns#dt".into()]))))),
        7 => Ex::Lt(Box::new(Ex::Str(v(s))), Box::new(Ex::C(T::str(s.picks(&["b", "http://e.org/b", "2"]))))),
        8 => Ex::Not(Box::new(boolean_expr(s, g, vs, d - 1, top))),
        9 => Ex::And(Box::new(boolean_expr(s, g, vs, d - 1, top)), Box::new(boolean_expr(s, g, vs, d - 1, top))),
        10 => Ex::Or(Box::new(boolean_expr(s, g, vs, d - 1, top)), Box::new(boolean_expr(s, g, vs, d - 1, top))),
        _ => Ex::Exists(s.flip(), (0..s.size(1, 2).max(1)).map(|_| triple(s, g, false)).collect()),
    }
}
/// MINUS, EXISTS and UNDEF only in the outermost group: the library lets nested ones see variables from outside.
pub fn gen_group(s: &mut Src, g: &G, d: usize, n: &mut usize) -> Group {
    let top = d == 2;
    let mut v = vec![triple(s, g, true)];
    for _ in 0..s.size(0, 3) {
        let e = match s.weighted(&[5, if d > 0 { 3 } else { 0 }, if d > 0 { 2 } else { 0 }, if top { 1 } else { 0 }, 3, 1, 1, if d > 0 { 1 } else { 0 }, if d > 0 { 1 } else { 0 }]) {
            0 => triple(s, g, true),
            1 => El::Opt(gen_group(s, g, d - 1, n)),
            2 => El::Union((0..s.size(2, 3).max(2)).map(|_| gen_group(s, g, d - 1, n)).collect()),
            3 => El::Minus(gen_group(s, g, d - 1, n)),
            4 => El::Filter({
                let vs = scope(&v);
                boolean_expr(s, g, &vs, 1, top)
            }),
            5 => {
                *n += 1;
                let vs = scope(&v);
                let x = Ex::Var(if vs.is_empty() { "none".into() } else { s.pick(&vs).clone() });
                El::Bind(if s.flip() { x } else { Ex::Str(Box::new(x)) }, format!("v{n}"))
            }
            6 => {
                let vs = if s.flip() { vec![var(s)] } else { vec!["x".to_string(), "y".to_string()] };
                let mut ns: Vec<T> = g.nodes().into_iter().filter(|t| !t.is_b()).collect();
                if ns.is_empty() {
                    ns.push(T::ex("a"));
                }
                let rows = (0..1 + s.below(2))
                    .map(|_| vs.iter().map(|_| (!ns.is_empty() && !(top && s.chance(1, 5))).then(|| s.pick(&ns).clone())).collect())
                    .collect();
                El::Values(vs, rows)
            }
            7 => El::Sub(gen_group(s, g, d - 1, n)),
            _ => {
                let inner = gen_group(s, g, d - 1, n);
                let mut vs = s.subset(&scope(&inner), 2, 3);
                if vs.is_empty() {
                    vs.push("x".to_string());
                }
                El::Select(s.flip(), vs, inner)
            }
        };
        v.push(e);
    }
    v
}

// ---- writing ----
pub fn term(s: &mut Src, t: &T) -> String {
    match t {
        T::Iri(i) if i.starts_with(EX) && !i[EX.len()..].contains(['#', '/']) && s.flip() => format!("ex:{}", &i[EX.len()..]),
        T::L { lex, dt, .. } if *dt == xsd("integer") && s.flip() => lex.clone(),
        T::L { lex, dt, .. } if *dt == xsd("boolean") && s.flip() => lex.clone(),
        _ => t.nt(),
    }
}
fn wvar(s: &mut Src, v: &str) -> String {
    format!("{}{v}", if s.chance(1, 6) { "$" } else { "?" })
}
fn wnode(s: &mut Src, n: &N) -> String {
    match n {
        N::V(v) => wvar(s, v),
        N::C(t) => match t {
            // a number may not touch the dot that follows
            T::L { .. } => t.nt(),
            _ => term(s, t),
        },
    }
}
fn wpath(s: &mut Src, p: &Path) -> String {
    let b = |s: &mut Src, p: &Path| format!("({})", wpath(s, p));
    match p {
        Path::Pred(i) => term(s, &T::iri(i.clone())),
        Path::Inv(a) => format!("^{}", b(s, a)),
        Path::Seq(x, y) => format!("{}/{}", b(s, x), b(s, y)),
        Path::Alt(x, y) => format!("{}|{}", b(s, x), b(s, y)),
        Path::Star(a) => format!("{}*", b(s, a)),
        Path::Plus(a) => format!("{}+", b(s, a)),
        Path::Opt(a) => format!("{}?", b(s, a)),
        Path::Neg(v) => {
            let x: Vec<String> = v.iter().map(|i| term(s, &T::iri(i.clone()))).collect();
            format!("!({})", x.join("|"))
        }
    }
}
fn wexpr(s: &mut Src, e: &Ex) -> String {
    match e {
        Ex::Var(v) => wvar(s, v),
        Ex::C(t) => term(s, t),
        Ex::Eq(a, b) => format!("({} = {})", wexpr(s, a), wexpr(s, b)),
        Ex::Lt(a, b) => format!("({} < {})", wexpr(s, a), wexpr(s, b)),
        Ex::Same(a, b) => format!("sameTerm({}, {})", wexpr(s, a), wexpr(s, b)),
        Ex::Bound(v) => format!("BOUND({})", wvar(s, v)),
        Ex::Is(k, a) => format!("{k}({})", wexpr(s, a)),
        Ex::Str(a) => format!("STR({})", wexpr(s, a)),
        Ex::Lang(a) => format!("LANG({})", wexpr(s, a)),
        Ex::Dt(a) => format!("DATATYPE({})", wexpr(s, a)),
        Ex::Not(a) => format!("(!{})", wexpr(s, a)),
        Ex::And(a, b) => format!("({} && {})", wexpr(s, a), wexpr(s, b)),
        Ex::Or(a, b) => format!("({} || {})", wexpr(s, a), wexpr(s, b)),
        Ex::Exists(pos, g) => format!("{}EXISTS {}", if *pos { "" } else { "NOT " }, write(s, g)),
    }
}
pub fn write(s: &mut Src, gr: &Group) -> String {
    let mut o = "{".to_string();
    for e in gr {
        o += &match e {
            El::Triple(a, p, b) => format!(" {} {} {} .", wnode(s, a), wpath(s, p), wnode(s, b)),
            El::Var(a, p, b) => format!(" {} {} {} .", wnode(s, a), wvar(s, p), wnode(s, b)),
            El::Opt(g) => format!(" OPTIONAL {}", write(s, g)),
            El::Union(gs) => format!(" {}", gs.iter().map(|g| write(s, g)).collect::<Vec<_>>().join(" UNION ")),
            El::Minus(g) => format!(" MINUS {}", write(s, g)),
            El::Filter(f) => format!(" FILTER({})", wexpr(s, f)),
            El::Bind(f, v) => format!(" BIND({} AS ?{v})", wexpr(s, f)),
            El::Values(vs, rows) => format!(
                " VALUES ({}) {{ {} }}",
                vs.iter().map(|v| format!("?{v}")).collect::<Vec<_>>().join(" "),
                rows.iter()
                    .map(|r| format!("({})", r.iter().map(|t| t.as_ref().map_or("UNDEF".into(), |t| t.nt())).collect::<Vec<_>>().join(" ")))
                    .collect::<Vec<_>>()
                    .join(" ")
            ),
            El::Sub(g) => format!(" {}", write(s, g)),
            El::Select(d, vs, g) => format!(
                " {{ SELECT {}{} WHERE {} }}",
                if *d { "DISTINCT " } else { "" },
                vs.iter().map(|v| format!("?{v}")).collect::<Vec<_>>().join(" "),
                write(s, g)
            ),
        };
    }
    o + " }"
}

fn multi(p: &Path) -> bool {
    match p {
        Path::Alt(..) | Path::Neg(_) | Path::Seq(..) => true,
        Path::Inv(a) => multi(a),
        // these have no duplicates
        Path::Pred(_) | Path::Star(_) | Path::Plus(_) | Path::Opt(_) => false,
    }
}
/// Whether the SPARQL library may keep fewer duplicates than the specification asks for (paths).
pub fn loose(gr: &Group) -> bool {
    gr.iter().any(|e| match e {
        El::Triple(_, p, _) => multi(p),
        El::Opt(g) | El::Sub(g) | El::Select(_, _, g) | El::Minus(g) => loose(g),
        El::Union(gs) => gs.iter().any(loose),
        _ => false,
    })
}

/// Whether a path that may be empty starts at a term that is not in the graph.
pub fn stray(g: &G, gr: &Group) -> bool {
    gr.iter().any(|e| match e {
        El::Triple(a, p, b) => !simple(p) && [a, b].iter().any(|n| matches!(n, N::C(t) if !g.nodes().contains(t))),
        El::Opt(o) | El::Sub(o) | El::Select(_, _, o) | El::Minus(o) => stray(g, o),
        El::Union(gs) => gs.iter().any(|o| stray(g, o)),
        _ => false,
    })
}

/// Whether an OPTIONAL inside another one mentions a variable from outside that its own group does not bind.
pub fn ill(gr: &Group, outside: &[String], in_opt: bool) -> bool {
    (0..gr.len()).any(|i| {
        let others: Vec<String> = gr.iter().enumerate().filter(|(j, _)| *j != i).flat_map(|(_, e)| scope(&vec![e.clone()])).chain(outside.iter().cloned()).collect();
        match &gr[i] {
            El::Opt(o) => {
                let sure: Vec<String> = gr[..i].iter().filter(|e| matches!(e, El::Triple(..) | El::Var(..))).flat_map(|e| scope(&vec![e.clone()])).collect();
                in_opt && scope(o).iter().any(|v| outside.contains(v) && !sure.contains(v)) || ill(o, &others, true)
            }
            El::Sub(o) | El::Select(_, _, o) | El::Minus(o) => ill(o, &others, in_opt),
            El::Union(gs) => gs.iter().any(|o| ill(o, &others, in_opt)),
            _ => false,
        }
    })
}
