//! Reference semantics of node constraints.
use crate::model::*;
use hlib::*;

pub use hlib::lit::*;


fn lang_match(tag: &str, l: &str) -> bool {
    tag.eq_ignore_ascii_case(l)
}
fn lang_stem(tag: &str, l: &str) -> bool {
    let (t, l) = (tag.to_lowercase(), l.to_lowercase());
    l.is_empty() || t == l || t.starts_with(&format!("{l}-"))
}
fn excluded(k: u8, v: &T, e: &Ex) -> bool {
    match (k, v) {
        (0, T::Iri(i)) => if e.stem { i.starts_with(&e.s) } else { *i == e.s },
        (1, T::L { lex, .. }) => if e.stem { lex.starts_with(&e.s) } else { *lex == e.s },
        (2, T::L { lang: Some(t), .. }) => if e.stem { lang_stem(t, &e.s) } else { lang_match(t, &e.s) },
        _ => false,
    }
}
pub fn vs_match(vs: &VS, v: &T) -> bool {
    match (vs, v) {
        (VS::Val(a), b) => match (a, b) {
            (T::L { lex: x, lang: Some(l), .. }, T::L { lex: y, lang: Some(m), .. }) => x == y && lang_match(l, m),
            _ => a == b,
        },
        (VS::IriStem(s, e), T::Iri(i)) => i.starts_with(s) && !e.iter().any(|e| excluded(0, v, e)),
        (VS::LitStem(s, e), T::L { lex, .. }) => lex.starts_with(s) && !e.iter().any(|e| excluded(1, v, e)),
        (VS::Lang(l), T::L { lang: Some(t), .. }) => lang_match(t, l),
        (VS::LangStem(l, e), T::L { lang: Some(t), .. }) => lang_stem(t, l) && !e.iter().any(|e| excluded(2, v, e)),
        (VS::Any(k, e), v) => {
            (match k {
                0 => v.is_iri(),
                1 => v.is_lit(),
                _ => matches!(v, T::L { lang: Some(_), .. }),
            }) && !e.iter().any(|e| excluded(*k, v, e))
        }
        _ => false,
    }
}

pub fn facet_ok(f: &Facet, v: &T) -> bool {
    let text = match v {
        T::Iri(s) | T::B(s) => s,
        T::L { lex, .. } => lex,
    };
    let n = text.chars().count();
    let num = match v {
        T::L { lex, dt, lang: None } => numeric(lex, dt),
        _ => None,
    };
    use std::cmp::Ordering::*;
    let inf = match v {
        T::L { lex, dt, lang: None } if *dt == xsd("double") || *dt == xsd("float") => match lex.as_str() {
            "INF" => Some(Greater),
            "-INF" => Some(Less),
            _ => None,
        },
        _ => None,
    };
    let cmp = |k: &Num| num.map(|x| x.cmp(&(k.v as i128 * 10_000))).or(inf);
    match f {
        Facet::Length(k) => n == *k,
        Facet::MinLength(k) => n >= *k,
        Facet::MaxLength(k) => n <= *k,
        Facet::Pattern(i) => (PATTERNS[*i].2)(text),
        Facet::MinIncl(k) => matches!(cmp(k), Some(Greater | Equal)),
        Facet::MinExcl(k) => matches!(cmp(k), Some(Greater)),
        Facet::MaxIncl(k) => matches!(cmp(k), Some(Less | Equal)),
        Facet::MaxExcl(k) => matches!(cmp(k), Some(Less)),
        Facet::TotalDigits(k) => decimal_digits(v).is_some_and(|(i, f)| i + f <= *k),
        Facet::FractionDigits(k) => decimal_digits(v).is_some_and(|(_, f)| f <= *k),
    }
}
/// (integer digits, fraction digits) of the value of a decimal, without redundant zeros.
fn decimal_digits(v: &T) -> Option<(usize, usize)> {
    let T::L { lex, dt, lang: None } = v else { return None };
    if !is_decimal_dt(dt.strip_prefix(XSD)?) {
        return None;
    }
    let x = numeric(lex, dt)?.abs();
    let (i, mut f) = (x / 1_000_000, x % 1_000_000);
    let mut fd = 6;
    while fd > 0 && f % 10 == 0 {
        f /= 10;
        fd -= 1;
    }
    Some((if i == 0 { usize::from(fd == 0) } else { i.to_string().len() }, fd))
}
pub fn nc_ok(nc: &NC, v: &T) -> bool {
    if let Some(k) = nc.kind {
        let ok = match k {
            "iri" => v.is_iri(),
            "bnode" => v.is_b(),
            "literal" => v.is_lit(),
            _ => !v.is_lit(),
        };
        if !ok {
            return false;
        }
    }
    if let Some(d) = &nc.dt {
        let T::L { lex, dt, .. } = v else { return false };
        if dt != d || valid_lexical(lex, dt) == Some(false) {
            return false;
        }
    }
    if let Some(vs) = &nc.values
        && !vs.iter().any(|x| vs_match(x, v))
    {
        return false;
    }
    nc.facets.iter().all(|f| facet_ok(f, v))
}
