//! Lexical and value spaces of literals.
use crate::rdf::*;

/// Another literal with the same value, or the same text in another datatype.
pub fn twin(s: &mut common::Src, t: &T) -> T {
    let T::L { lex, dt, lang } = t else { return t.clone() };
    if lang.is_some() {
        return T::str(lex.clone());
    }
    let d = dt.strip_prefix(XSD).unwrap_or("");
    if d == "dateTime" {
        return T::typed(if let Some(x) = lex.strip_suffix("10:00:00Z") { format!("{x}11:00:00+01:00") } else if let Some(x) = lex.strip_suffix('Z') { format!("{x}+00:00") } else { format!("{lex}Z") }, "dateTime");
    }
    let other = if is_numeric_dt(d) { s.picks(&["byte", "short", "int", "long", "nonNegativeInteger", "integer", "unsignedByte", "decimal", "string"]) } else { s.picks(&["string", "http://e.org/dt"]) };
    T::typed(lex.clone(), other)
}
/// A finite number as m * 10^-6; None when not a number of this shape.
pub fn numeric(lex: &str, dt: &str) -> Option<i128> {
    let d = dt.strip_prefix(XSD)?;
    if !valid_lexical(lex, dt).unwrap_or(false) {
        return None;
    }
    if !is_numeric_dt(d) {
        return None;
    }
    dec(lex)
}
pub fn is_decimal_dt(d: &str) -> bool {
    d == "decimal" || is_integer_dt(d)
}
pub fn is_integer_dt(d: &str) -> bool {
    matches!(
        d,
        "integer" | "int" | "long" | "short" | "byte" | "nonNegativeInteger" | "positiveInteger" | "nonPositiveInteger" | "negativeInteger" | "unsignedInt" | "unsignedLong" | "unsignedShort" | "unsignedByte"
    )
}
pub fn is_numeric_dt(d: &str) -> bool {
    is_decimal_dt(d) || d == "float" || d == "double"
}
/// Decimal with optional exponent, as m * 10^-6.
pub fn dec(lex: &str) -> Option<i128> {
    let (m, e) = match lex.find(['e', 'E']) {
        Some(i) => (&lex[..i], lex[i + 1..].parse::<i32>().ok()?),
        None => (lex, 0),
    };
    let (neg, m) = match m.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, m.strip_prefix('+').unwrap_or(m)),
    };
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    if i.is_empty() && f.is_empty() || !i.chars().chain(f.chars()).all(|c| c.is_ascii_digit()) {
        return None;
    }
    let digits: i128 = format!("0{i}{f}").parse().ok()?;
    let sh = 6 + e - f.len() as i32;
    let v = if sh >= 0 { digits.checked_mul(10i128.checked_pow(sh as u32)?)? } else { let p = 10i128.checked_pow((-sh) as u32)?; if digits % p != 0 { return None } digits / p };
    Some(if neg { -v } else { v })
}
fn is_int(s: &str) -> bool {
    let t = s.strip_prefix(['-', '+']).unwrap_or(s);
    !t.is_empty() && t.chars().all(|c| c.is_ascii_digit())
}
/// Is the lexical form in the lexical space of the datatype? None for datatypes not modelled.
pub fn valid_lexical(s: &str, dt: &str) -> Option<bool> {
    let Some(d) = dt.strip_prefix(XSD) else {
        return None;
    };
    let int_range = |lo: Option<i128>, hi: Option<i128>| {
        is_int(s) && {
            let v: i128 = s.strip_prefix('+').unwrap_or(s).parse().unwrap();
            lo.is_none_or(|l| v >= l) && hi.is_none_or(|h| v <= h)
        }
    };
    let decimal = |s: &str| {
        let t = s.strip_prefix(['-', '+']).unwrap_or(s);
        let (i, f) = t.split_once('.').unwrap_or((t, ""));
        (!i.is_empty() || !f.is_empty()) && i.chars().chain(f.chars()).all(|c| c.is_ascii_digit())
    };
    Some(match d {
        "string" => true,
        "boolean" => matches!(s, "true" | "false" | "0" | "1"),
        "integer" => is_int(s),
        "int" => int_range(Some(i32::MIN as i128), Some(i32::MAX as i128)),
        "long" => int_range(Some(i64::MIN as i128), Some(i64::MAX as i128)),
        "short" => int_range(Some(-32768), Some(32767)),
        "byte" => int_range(Some(-128), Some(127)),
        "nonNegativeInteger" => int_range(Some(0), None),
        "positiveInteger" => int_range(Some(1), None),
        "nonPositiveInteger" => int_range(None, Some(0)),
        "negativeInteger" => int_range(None, Some(-1)),
        "unsignedInt" => int_range(Some(0), Some(u32::MAX as i128)),
        "unsignedLong" => int_range(Some(0), Some(u64::MAX as i128)),
        "unsignedShort" => int_range(Some(0), Some(65535)),
        "unsignedByte" => int_range(Some(0), Some(255)),
        "decimal" => decimal(s),
        "double" | "float" => {
            matches!(s, "INF" | "-INF" | "NaN") || {
                let (m, e) = match s.find(['e', 'E']) {
                    Some(i) => (&s[..i], Some(&s[i + 1..])),
                    None => (s, None),
                };
                decimal(m) && e.is_none_or(is_int)
            }
        }
        "dateTime" => s.split_once('T').is_some_and(|(d, t)| date(d) && time(t)),
        _ => return None,
    })
}
fn date(s: &str) -> bool {
    let p: Vec<&str> = s.split('-').collect();
    p.len() == 3
        && p[0].len() == 4
        && p[1].len() == 2
        && p[2].len() == 2
        && p.iter().all(|x| x.chars().all(|c| c.is_ascii_digit()))
        && {
            let (y, m, d): (u32, u32, u32) = (p[0].parse().unwrap(), p[1].parse().unwrap(), p[2].parse().unwrap());
            let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
            (1..=12).contains(&m) && d >= 1 && d <= [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1]
        }
}
fn time(s: &str) -> bool {
    let s = s.strip_suffix('Z').or(s.strip_suffix("+00:00")).or(s.strip_suffix("+01:00")).unwrap_or(s);
    let p: Vec<&str> = s.split(':').collect();
    p.len() == 3 && p.iter().all(|x| x.len() == 2 && x.chars().all(|c| c.is_ascii_digit())) && p[0] < "24" && p[1] < "60" && p[2] < "60"
}

/// (pattern, flags, reference predicate)
pub type Pat = (&'static str, &'static str, fn(&str) -> bool);
pub const PATTERNS: &[Pat] = &[
    ("^a", "", |s| s.starts_with('a')),
    ("b$", "", |s| s.ends_with('b')),
    ("ab", "", |s| s.contains("ab")),
    ("^ab$", "", |s| s == "ab"),
    ("^AB", "i", |s| s.to_lowercase().starts_with("ab")),
    ("[0-9]+", "", |s| s.chars().any(|c| c.is_ascii_digit())),
    ("^[0-9]{2}$", "", |s| s.len() == 2 && s.chars().all(|c| c.is_ascii_digit())),
    ("a.b", "", |s| {
        let c: Vec<char> = s.chars().collect();
        c.windows(3).any(|w| w[0] == 'a' && w[2] == 'b' && w[1] != '\n')
    }),
    ("a\\.b", "", |s| s.contains("a.b")),
    ("^(a|b)+$", "", |s| !s.is_empty() && s.chars().all(|c| c == 'a' || c == 'b')),
    ("/x/", "", |s| s.contains("/x/")),
    ("^[a\\-b]+$", "", |s| !s.is_empty() && s.chars().all(|c| matches!(c, 'a' | 'b' | '-'))),
    ("^[^\\]a\\^]{2}$", "", |s| s.chars().count() == 2 && s.chars().all(|c| !matches!(c, ']' | 'a' | '^'))),
    ("^\\(\\$?\\|\\{\\}\\)$", "", |s| s == "(|{})" || s == "($|{})"),
    ("^a\\*|b\\?c\\+", "", |s| s.starts_with("a*") || s.contains("b?c+")),
    ("a\\tb|a\\nb", "", |s| s.contains("a\tb") || s.contains("a\nb")),
    ("^A.B$", "is", |s| {
        let c: Vec<char> = s.chars().collect();
        c.len() == 3 && c[0].eq_ignore_ascii_case(&'a') && c[2].eq_ignore_ascii_case(&'b')
    }),
];
