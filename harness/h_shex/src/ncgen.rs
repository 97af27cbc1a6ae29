//! Generator of node constraints and of values near their boundaries.
use crate::model::*;
use crate::nc::*;
use common::Src;
use hlib::*;

const WORDS: [&str; 19] = ["", "a", "ab", "abc", "b", "aab", "a.b", "a/x/b", "12", "ABc", "éa", "日本", "a-b", "(|{})", "b]", "xb?c+", "a*", "a\tb", "\u{8}\u{c}'x\""];
const LANGS: [&str; 8] = ["en", "en-US", "EN", "de", "fr", "en-us", "enx", "en-1996"];
const IRIS: [&str; 10] = ["http://e.org/a", "http://e.org/ab", "http://e.org/ab/x/c", "http://e.org/", "http://f.org/a", "http://e.org/b", "urn:ab", "http://e.org/a12", "http://e.org/a,b-c", "http://e.org/~a.é/(x)"];
const DTS: [&str; 20] = [
    "integer", "decimal", "double", "float", "string", "boolean", "date", "dateTime", "int", "long", "short", "byte", "nonNegativeInteger", "positiveInteger", "nonPositiveInteger", "negativeInteger", "unsignedInt", "unsignedLong", "unsignedShort", "unsignedByte",
];
fn num(s: &mut Src) -> Num {
    let v = if s.chance(3, 4) { *s.pick(&[0, 100, 150, 200, -100, -150, 1000, 125, 12800, 25500]) } else { s.range(-3000, 3000) };
    Num { v, form: s.below(6) as u8 }
}
/// A number near one that the facets mention, or any number with few digits.
fn number(s: &mut Src, fs: &[Facet]) -> T {
    let bounds: Vec<i64> = fs
        .iter()
        .filter_map(|f| match f {
            Facet::MinIncl(n) | Facet::MinExcl(n) | Facet::MaxIncl(n) | Facet::MaxExcl(n) => Some(n.v),
            _ => None,
        })
        .collect();
    let (neg, int, frac) = if !bounds.is_empty() && s.flip() {
        let v = s.pick(&bounds) + s.pick(&[0, 1, -1, 100, -100]);
        (v < 0, (v.abs() / 100).to_string(), format!("{:02}", v.abs() % 100))
    } else {
        let digits = |s: &mut Src, n: usize| (0..n).map(|_| char::from(b'0' + *s.pick(&[0u8, 0, 1, 2, 5, 9]))).collect::<String>();
        let n = s.size(0, 4);
        let int = digits(s, n);
        let n = s.size(0, 3);
        (s.chance(1, 3), int, digits(s, n))
    };
    let (neg, int, mut frac) = if s.chance(1, 5) { (neg, s.picks(&["0", ""]).to_string(), s.picks(&["05", "005", "50", "5", "105", "050"]).to_string()) } else { (neg, int, frac) };
    let dt = *s.pick(&["decimal", "decimal", "decimal", "integer", "double", "float", "int", "byte", "unsignedShort", "negativeInteger", "long"]);
    if is_integer_dt(dt) || frac == "00" && s.flip() {
        frac.clear();
    }
    // the binary numbers are exact
    if !is_decimal_dt(dt) && !frac.is_empty() {
        frac = s.picks(&["5", "25", "0", "50"]).to_string();
    }
    let int = if int.is_empty() && (frac.is_empty() || s.flip()) { "0".to_string() } else { int };
    let dot = if frac.is_empty() { "" } else { "." };
    let exp = if is_decimal_dt(dt) { "" } else { s.picks(&["", "e0", "E1"]) };
    T::typed(format!("{}{int}{dot}{frac}{exp}", if neg { "-" } else { "" }), dt)
}
fn exs(s: &mut Src, pool: &[&str]) -> Vec<Ex> {
    (0..s.size(0, 2)).map(|_| Ex { s: s.pick(pool).to_string(), stem: s.flip() }).collect()
}
pub fn literal(s: &mut Src) -> T {
    match s.weighted(&[3, 3, 2, 4, 2]) {
        0 => T::str(*s.pick(&WORDS)),
        1 => T::lang(*s.pick(&WORDS), *s.pick(&LANGS)),
        2 => T::typed(*s.pick(&WORDS), "http://e.org/dt"),
        3 => {
            let dt = *s.pick(&DTS);
            let lex = *s.pick(&[
                "0", "1", "01", "+1", "-1", "1.0", "1.5", "-1.50", "2", "10", "10.00", "1.25", "1e0", "1.5E0", "128", "127", "-128", "-129", "255", "256", "32768", "65536", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "65535", "-32768", "-32769", "-2147483648", "-2147483649", "4294967295", "18446744073709551615", "18446744073709551616", "abc", "", "true", "false", "TRUE", "1.", ".5", "INF", "-INF", "NaN", "inf", "1_0", "2020-01-31", "2020-02-30", "2021-02-29", "2020-02-29T10:00:00", "2020-02-29T25:00:00", "2020-02-29T10:00:00Z", "1 ", "--1",
            ]);
            T::typed(lex, dt)
        }
        _ => match s.below(4) {
            0 => T::int(s.range(-2, 3)),
            1 => T::typed(*s.pick(&["1.5", "1.50", "2.0", "-1.5", "0.0"]), "decimal"),
            2 => T::typed(*s.pick(&["1.5e0", "1.0E0", "0e0"]), "double"),
            _ => T::typed(*s.pick(&["true", "false"]), "boolean"),
        },
    }
}
pub fn value(s: &mut Src) -> T {
    match s.weighted(&[6, 3, 1]) {
        0 => literal(s),
        1 => T::iri(*s.pick(&IRIS)),
        _ => T::b("z"),
    }
}
pub fn vs(s: &mut Src) -> VS {
    match s.weighted(&[4, 4, 2, 2, 2, 2, 3]) {
        0 => VS::Val(T::iri(*s.pick(&IRIS))),
        1 => VS::Val(match literal(s) {
            // an ill-formed literal in a value set is rejected when the schema is read
            T::L { lex, dt, lang: None } if valid_lexical(&lex, &dt) == Some(false) => T::str(lex),
            l => l,
        }),
        2 => VS::IriStem(s.pick(&IRIS).to_string(), exs(s, &IRIS)),
        3 => VS::LitStem(s.pick(&WORDS).to_string(), exs(s, &WORDS)),
        4 => VS::Lang(s.pick(&LANGS).to_string()),
        5 => VS::LangStem(s.pick(&LANGS).to_string(), exs(s, &LANGS)),
        _ => {
            let k = s.below(3) as u8;
            let pool: &[&str] = [&IRIS[..], &WORDS, &LANGS][k as usize];
            let mut e = exs(s, pool);
            if e.is_empty() {
                e.push(Ex { s: s.pick(pool).to_string(), stem: s.flip() });
            }
            VS::Any(k, e)
        }
    }
}
fn strf(s: &mut Src) -> Facet {
    match s.below(4) {
        0 => Facet::Length(s.below(5)),
        1 => Facet::MinLength(s.below(16)),
        2 => Facet::MaxLength(s.below(16)),
        _ => Facet::Pattern(s.below(PATTERNS.len())),
    }
}
fn numf(s: &mut Src) -> Facet {
    match s.below(6) {
        0 => Facet::MinIncl(num(s)),
        1 => Facet::MinExcl(num(s)),
        2 => Facet::MaxIncl(num(s)),
        3 => Facet::MaxExcl(num(s)),
        4 => Facet::TotalDigits(s.size(1, 4)),
        _ => Facet::FractionDigits(s.below(3)),
    }
}
/// The same facet is never written twice.
fn facets(s: &mut Src, v: &mut Vec<Facet>, f: fn(&mut Src) -> Facet, n: usize) {
    for _ in 0..n {
        let x = f(s);
        if !v.iter().any(|y| std::mem::discriminant(y) == std::mem::discriminant(&x)) {
            v.push(x);
        }
    }
}
pub fn nc(s: &mut Src) -> NC {
    let mut n = NC::default();
    match s.weighted(&[3, 4, 6, 3]) {
        0 => {
            n.kind = Some(*s.pick(&["iri", "literal", "nonliteral", "bnode"]));
            let k = s.size(0, 2);
            facets(s, &mut n.facets, strf, k);
        }
        1 => {
            n.dt = Some(if s.chance(1, 8) { "http://e.org/dt".into() } else { xsd(*s.pick(&DTS)) });
            let k = s.size(0, 2);
            facets(s, &mut n.facets, strf, k);
            let k = s.size(0, 2);
            facets(s, &mut n.facets, numf, k);
        }
        2 => n.values = Some((0..s.size(1, 3)).map(|_| vs(s)).collect()),
        _ => {
            let k = s.size(0, 2);
            facets(s, &mut n.facets, strf, k);
            let k = s.size(0, 2);
            facets(s, &mut n.facets, numf, k);
            if n.facets.is_empty() {
                n.facets.push(numf(s));
            }
        }
    }
    n
}
/// A literal whose tag is a tag of the constraint, or one a little longer.
fn tag(s: &mut Src, l: &str, e: &[Ex]) -> T {
    let t = if !e.is_empty() && s.chance(2, 3) { s.pick(e).s.clone() } else { l.to_string() };
    T::lang(*s.pick(&WORDS), &format!("{t}{}", s.pick(&["", "", "x", "-1997"])))
}
/// A value near the constraint.
pub fn near(s: &mut Src, c: &NC) -> T {
    if s.chance(1, 3) {
        return value(s);
    }
    if let Some(vs) = &c.values {
        let other = value(s);
        return match s.pick(vs).clone() {
            VS::Val(T::L { lex, dt, lang }) => match s.below(5) {
                0 => T::typed(lex, *s.pick(&DTS)),
                1 if lang.is_some() => T::lang(lex, *s.pick(&LANGS)),
                _ => T::L { lex, dt, lang },
            },
            VS::Val(t) => t,
            VS::IriStem(i, e) => T::iri(format!("{}{}", if !e.is_empty() && s.flip() { s.pick(&e).s.clone() } else { i }, s.pick(&["", "x", "b"]))),
            VS::LitStem(i, e) => {
                let x = format!("{}{}", if !e.is_empty() && s.flip() { s.pick(&e).s.clone() } else { i }, s.pick(&["", "x", "b"]));
                match s.below(3) {
                    0 => T::str(x),
                    1 => T::lang(x, *s.pick(&LANGS)),
                    _ => T::typed(x, "http://e.org/dt"),
                }
            }
            VS::Any(0, _) => T::iri(*s.pick(&IRIS)),
            VS::Any(1, _) => T::str(*s.pick(&WORDS)),
            VS::Lang(l) => tag(s, &l, &[]),
            VS::LangStem(l, e) => tag(s, &l, &e),
            VS::Any(2, e) if s.flip() => tag(s, "fr", &e),
            _ => {
                let w = T::lang(*s.pick(&WORDS), *s.pick(&LANGS));
                if s.chance(1, 6) { other } else { w }
            }
        };
    }
    let numeric = c.facets.iter().any(|f| !matches!(f, Facet::Length(_) | Facet::MinLength(_) | Facet::MaxLength(_) | Facet::Pattern(_)));
    for _ in 0..6 {
        let v = match &c.dt {
            _ if numeric && s.flip() => match (number(s, &c.facets), &c.dt) {
                (T::L { lex, lang: None, .. }, Some(d)) if s.chance(3, 4) && (is_decimal_dt(&d[XSD.len().min(d.len())..]) || !lex.contains('.')) => T::L { lex, dt: d.clone(), lang: None },
                (t, _) => t,
            },
            Some(d) if s.chance(3, 4) => match literal(s) {
                T::L { lex, lang: None, .. } => T::L { lex, dt: d.clone(), lang: None },
                t => t,
            },
            _ => value(s),
        };
        if s.chance(1, 3) || nc_ok(c, &v) {
            return v;
        }
    }
    value(s)
}
