//! C18: tabular application profiles, read and converted to ShEx.
use common::*;
use hlib::*;
use rudof_lib::formats::*;
use rudof_lib::{Rudof, RudofConfig, TomlConfig};
use serde_json::Value as J;
use std::collections::{BTreeMap, BTreeSet};

const BASEIRI: &str = "http://base.x/v/";
const DTBASE: &str = "http://dt.org/ns#";
const PREFIXES: [(&str, &str); 4] = [("", "http://e.org/d#"), ("ex", EX), ("xsd", XSD), ("rdf", RDF)];
const LOCALS: [&str; 7] = ["p1", "p2", "p3", "p-4", "é5", "P6_x", "p7"];
const DTS: [&str; 6] = ["xsd:string", "xsd:integer", "xsd:date", "rdf:langString", "xsd:boolean", "ex:dt"];
const LABELS: [&str; 7] = ["Title", "Place of birth", "say \"hi\"", "a, b", "it's", "naïve; x|y", "back\\slash"];

/// The IRI that a name in a cell stands for.
fn iri(tok: &str) -> String {
    match tok.rsplit_once(':') {
        Some((p, l)) => format!("{}{l}", PREFIXES.iter().find(|x| x.0 == p).unwrap().1),
        None => format!("{BASEIRI}{tok}"),
    }
}

#[derive(Clone, Debug, Default)]
struct Stm {
    prop: String,
    label: Option<&'static str>,
    mandatory: bool,
    repeatable: bool,
    kinds: Vec<&'static str>,
    dts: Vec<String>,
    picks: Vec<String>,
    pattern: Option<&'static str>,
    shapes: Vec<usize>,
    note: Option<&'static str>,
}
#[derive(Clone, Debug, Default)]
struct Sh {
    id: String,
    label: Option<&'static str>,
    extends: Option<usize>,
    extends_label: Option<&'static str>,
    stms: Vec<Stm>,
}
#[derive(Clone, Debug)]
struct Prof {
    shapes: Vec<Sh>,
    /// the columns `mandatory` and `repeatable` are there
    card: bool,
    dtbase: bool,
    pick_sep: char,
    shape_sep: char,
}

fn name(s: &mut Src, locals: &[&str]) -> String {
    let l = s.picks(locals);
    match s.below(4) {
        0 => l.to_string(),
        1 => format!(":{l}"),
        _ => format!("ex:{l}"),
    }
}
fn profile(s: &mut Src, convert: bool) -> Prof {
    let n = s.size(1, 4);
    let ids = ["S1", "ShapeTwo", "s-3", "Ünit4"];
    let mut p = Prof {
        shapes: vec![],
        card: !s.chance(1, 6),
        dtbase: s.chance(1, 4),
        pick_sep: s.picks(&['|', ' ', ';', '/']),
        shape_sep: s.picks(&[' ', '|', ';']),
    };
    let kinds = s.chance(1, if convert { 12 } else { 2 });
    for i in 0..n {
        let mut sh = Sh { id: name(s, &ids[i..i + 1]), ..Sh::default() };
        if s.chance(1, 3) {
            sh.label = Some(s.picks(&LABELS));
        }
        if i > 0 && s.chance(1, if convert { 5 } else { 3 }) {
            sh.extends = Some(s.below(i));
            if s.chance(1, 3) {
                sh.extends_label = Some(s.picks(&LABELS));
            }
        }
        let few = convert && (sh.extends.is_some() || s.chance(1, 2));
        for _ in 0..s.size(0, if few { 2 } else { 4 }) {
            let mut t = Stm { prop: name(s, &LOCALS), mandatory: s.flip(), repeatable: s.flip(), ..Stm::default() };
            if s.chance(1, 3) {
                t.label = Some(s.picks(&LABELS));
            }
            if s.chance(1, 4) {
                t.note = Some(s.picks(&LABELS));
            }
            match s.below(6) {
                0 => {}
                1 | 2 => {
                    let k = s.weighted(&[3, 2, 1]) + 1;
                    for _ in 0..k {
                        let d = if p.dtbase && s.chance(1, 3) { "bare".to_string() } else { s.picks(&DTS).to_string() };
                        if !t.dts.contains(&d) {
                            t.dts.push(d);
                        }
                    }
                }
                3 => {
                    if s.chance(1, 10) {
                        t.dts.extend(["xsd:string".to_string(), "xsd:integer".into()]);
                    }
                    for _ in 0..s.size(1, 7) {
                        let x = name(s, &["a", "b", "c", "d-e", "f", "g"]);
                        if !t.picks.contains(&x) {
                            t.picks.push(x);
                        }
                    }
                }
                _ => {
                    let k = s.weighted(&[4, 2, 1]) + 1;
                    for _ in 0..k {
                        let j = s.below(n);
                        if !t.shapes.contains(&j) {
                            t.shapes.push(j);
                        }
                    }
                    if s.chance(1, 10) {
                        t.dts.push("xsd:string".into());
                    }
                }
            }
            if !convert && t.picks.is_empty() && s.chance(1, 4) {
                t.pattern = Some(s.picks(&["^a|b", "[0-9]+", "x, y", "\\d \"q\""]));
            }
            if kinds && s.chance(2, 3) {
                t.kinds = s.subset(&["IRI", "BNode", "Literal"], 1, 2);
            }
            sh.stms.push(t);
        }
        p.shapes.push(sh);
    }
    p
}

// The table

const COLS: [&str; 14] = [
    "shapeID", "shapeLabel", "propertyID", "propertyLabel", "mandatory", "repeatable", "valueNodeType", "valueDataType", "valueConstraint",
    "valueConstraintType", "valueShape", "note", "extendsID", "extendsLabel",
];
type Row = BTreeMap<&'static str, String>;

fn boolean(s: &mut Src, b: bool) -> String {
    let w = if b { s.picks(&["true", "TRUE", "yes", "1", "True", "YES"]) } else { s.picks(&["false", "FALSE", "no", "0", "", "No"]) };
    w.to_string()
}
fn rows(s: &mut Src, p: &Prof) -> Vec<Row> {
    let mut out = vec![];
    let blank = |s: &mut Src, out: &mut Vec<Row>| {
        if s.chance(1, 10) {
            out.push(Row::new())
        }
    };
    for sh in &p.shapes {
        blank(s, &mut out);
        let mut first = Row::new();
        first.insert("shapeID", sh.id.clone());
        if let Some(l) = sh.label {
            first.insert("shapeLabel", l.into());
        }
        if let Some(e) = sh.extends {
            first.insert("extendsID", p.shapes[e].id.clone());
            if let Some(l) = sh.extends_label {
                first.insert("extendsLabel", l.into());
            }
        }
        if sh.stms.is_empty() || s.chance(1, 5) {
            out.push(std::mem::take(&mut first));
        }
        for t in &sh.stms {
            blank(s, &mut out);
            let mut r = std::mem::take(&mut first);
            if r.is_empty() && s.flip() {
                r.insert("shapeID", sh.id.clone());
            }
            r.insert("propertyID", t.prop.clone());
            let mut put = |k, v: String| {
                if !v.is_empty() {
                    r.insert(k, v);
                }
            };
            if p.card {
                put("mandatory", boolean(s, t.mandatory));
                put("repeatable", boolean(s, t.repeatable));
            }
            put("propertyLabel", t.label.unwrap_or("").into());
            put("note", t.note.unwrap_or("").into());
            let mut ks = vec![];
            for k in &t.kinds {
                let k = if *k == "IRI" && s.chance(1, 3) { "uri" } else { k };
                ks.push(match s.below(3) {
                    0 => k.to_uppercase(),
                    1 => k.to_lowercase(),
                    _ => k.to_string(),
                });
            }
            put("valueNodeType", ks.join(" "));
            put("valueDataType", t.dts.join(" "));
            if !t.picks.is_empty() {
                let sep = if p.pick_sep == ' ' || s.flip() { p.pick_sep.to_string() } else { format!(" {} ", p.pick_sep) };
                put("valueConstraint", t.picks.join(&sep));
                put("valueConstraintType", s.picks(&["picklist", "PICKLIST", "pickList", "", "Picklist"]).into());
            }
            if let Some(x) = t.pattern {
                put("valueConstraint", x.into());
                put("valueConstraintType", s.picks(&["pattern", "Pattern"]).into());
            }
            let ids: Vec<String> = t.shapes.iter().map(|j| p.shapes[*j].id.clone()).collect();
            let sep = match s.below(5) {
                0 => " ".to_string(),
                3 => "  ".to_string(),
                4 => "\t".to_string(),
                1 => p.shape_sep.to_string(),
                _ => format!(" {} ", p.shape_sep),
            };
            put("valueShape", ids.join(&sep));
            out.push(r);
            if s.chance(1, 12) {
                // a row that only says what was said before
                out.push(Row::from([("shapeID", sh.id.clone())]));
            }
        }
    }
    blank(s, &mut out);
    out
}
/// The cells of the table, with columns in some order and others among them.
fn table(s: &mut Src, p: &Prof, rows: &[Row]) -> Vec<Vec<String>> {
    let used: BTreeSet<&str> = rows.iter().flat_map(|r| r.keys().copied()).collect();
    let mut cols: Vec<&str> = COLS
        .iter()
        .copied()
        .filter(|c| match *c {
            "mandatory" | "repeatable" => p.card,
            c => used.contains(c) || s.chance(1, 2),
        })
        .collect();
    if s.chance(1, 4) {
        cols.push("severity");
    }
    if s.chance(1, 8) {
        cols.push("");
    }
    if s.flip() {
        s.shuffle(&mut cols);
    }
    let pad = s.flip();
    let pad = |s: &mut Src, x: String, free: bool| {
        if pad && free && s.chance(1, 3) {
            match s.below(3) {
                0 => format!("{x} "),
                1 => format!(" {x}"),
                _ => format!("  {x}   "),
            }
        } else {
            x
        }
    };
    let head = cols
        .iter()
        .map(|c| {
            let x = match s.below(4) {
                0 => c.to_uppercase(),
                1 => c.to_lowercase(),
                _ => c.to_string(),
            };
            pad(s, x, true)
        })
        .collect();
    let mut out = vec![head];
    for r in rows {
        let mut line: Vec<String> = cols
            .iter()
            .map(|c| {
                let x = match *c {
                    "severity" => s.picks(&["Violation", "", "x, y"]).to_string(),
                    c => r.get(c).cloned().unwrap_or_default(),
                };
                let x = if r.is_empty() { String::new() } else { x };
                // blanks count in notes and patterns
                let free = !matches!(*c, "note" | "valueConstraint" | "extendsLabel");
                pad(s, x, free)
            })
            .collect();
        // cells that are empty up to the end may be missing
        let last = cols.iter().rposition(|c| *c == "mandatory" || *c == "repeatable").map_or(0, |i| i + 1);
        if s.chance(1, 6) {
            while line.len() > last.max(1) && line.last().unwrap().trim().is_empty() {
                line.pop();
            }
        }
        out.push(line);
    }
    out
}
fn csv(s: &mut Src, t: &[Vec<String>], delim: char, quote: char) -> String {
    let eol = s.picks(&["\n", "\r\n"]);
    let mut out = String::new();
    for (i, row) in t.iter().enumerate() {
        let mut cells = vec![];
        for c in row {
            let need = c.contains(delim) || c.contains(quote) || c.contains('\n');
            if need || s.chance(1, 5) {
                cells.push(format!("{quote}{}{quote}", c.replace(quote, &format!("{quote}{quote}"))));
            } else {
                cells.push(c.clone());
            }
        }
        out += &cells.join(&delim.to_string());
        if i + 1 < t.len() || s.flip() {
            out += eol;
        }
    }
    out
}

// A workbook

fn crc(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 };
        }
    }
    !c
}
fn zip(files: &[(&str, String)]) -> Vec<u8> {
    let (mut out, mut dir) = (vec![], vec![]);
    for (n, t) in files {
        let at = out.len() as u32;
        let mut h = vec![];
        h.extend(20u16.to_le_bytes());
        h.extend([0u8; 8]);
        h.extend(crc(t.as_bytes()).to_le_bytes());
        h.extend((t.len() as u32).to_le_bytes());
        h.extend((t.len() as u32).to_le_bytes());
        h.extend((n.len() as u16).to_le_bytes());
        h.extend([0u8; 2]);
        out.extend(b"PK\x03\x04");
        out.extend(&h);
        out.extend(n.as_bytes());
        out.extend(t.as_bytes());
        dir.extend(b"PK\x01\x02\x14\x00");
        dir.extend(&h);
        dir.extend([0u8; 10]);
        dir.extend(at.to_le_bytes());
        dir.extend(n.as_bytes());
    }
    let at = out.len() as u32;
    out.extend(&dir);
    out.extend(b"PK\x05\x06\0\0\0\0");
    out.extend((files.len() as u16).to_le_bytes());
    out.extend((files.len() as u16).to_le_bytes());
    out.extend((dir.len() as u32).to_le_bytes());
    out.extend(at.to_le_bytes());
    out.extend([0u8; 2]);
    out
}
fn xlsx(s: &mut Src, t: &[Vec<String>]) -> Vec<u8> {
    let (r0, c0) = if s.chance(1, 3) { (s.below(4), s.below(3)) } else { (0, 0) };
    let esc = |x: &str| x.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;");
    let (mut strings, mut sheet) = (vec![], String::new());
    for (i, row) in t.iter().enumerate() {
        sheet += &format!("<row r=\"{}\">", i + r0 + 1);
        for (j, x) in row.iter().enumerate() {
            let at = format!("{}{}", (b'A' + (j + c0) as u8) as char, i + r0 + 1);
            if x.is_empty() {
                continue;
            }
            let y = x.trim();
            let up = y.to_uppercase();
            if i > 0 && (up == "TRUE" || up == "FALSE") && s.chance(2, 3) {
                sheet += &format!("<c r=\"{at}\" t=\"b\"><v>{}</v></c>", (up == "TRUE") as u8);
            } else if i > 0 && (y == "0" || y == "1") && s.flip() {
                sheet += &format!("<c r=\"{at}\"><v>{y}</v></c>");
            } else if s.flip() {
                sheet += &format!("<c r=\"{at}\" t=\"inlineStr\"><is><t xml:space=\"preserve\">{}</t></is></c>", esc(x));
            } else {
                sheet += &format!("<c r=\"{at}\" t=\"s\"><v>{}</v></c>", strings.len());
                strings.push(format!("<si><t xml:space=\"preserve\">{}</t></si>", esc(x)));
            }
        }
        sheet += "</row>";
    }
    let head = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n";
    let main = "http://schemas.openxmlformats.org/spreadsheetml/2006/main";
    let rel = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
    let pkg = "http://schemas.openxmlformats.org/package/2006";
    let app = "application/vnd.openxmlformats-officedocument.spreadsheetml";
    zip(&[
        (
            "[Content_Types].xml",
            format!(
                "{head}<Types xmlns=\"{pkg}/content-types\"><Default Extension=\"rels\" ContentType=\"application/vnd.openxmlformats-package.relationships+xml\"/>\
                 <Default Extension=\"xml\" ContentType=\"application/xml\"/><Override PartName=\"/xl/workbook.xml\" ContentType=\"{app}.sheet.main+xml\"/>\
                 <Override PartName=\"/xl/worksheets/sheet1.xml\" ContentType=\"{app}.worksheet+xml\"/>\
                 <Override PartName=\"/xl/sharedStrings.xml\" ContentType=\"{app}.sharedStrings+xml\"/></Types>"
            ),
        ),
        (
            "_rels/.rels",
            format!("{head}<Relationships xmlns=\"{pkg}/relationships\"><Relationship Id=\"rId1\" Type=\"{rel}/officeDocument\" Target=\"xl/workbook.xml\"/></Relationships>"),
        ),
        (
            "xl/workbook.xml",
            format!("{head}<workbook xmlns=\"{main}\" xmlns:r=\"{rel}\"><sheets><sheet name=\"Profile\" sheetId=\"1\" r:id=\"rId1\"/></sheets></workbook>"),
        ),
        (
            "xl/_rels/workbook.xml.rels",
            format!(
                "{head}<Relationships xmlns=\"{pkg}/relationships\"><Relationship Id=\"rId1\" Type=\"{rel}/worksheet\" Target=\"worksheets/sheet1.xml\"/>\
                 <Relationship Id=\"rId2\" Type=\"{rel}/sharedStrings\" Target=\"sharedStrings.xml\"/></Relationships>"
            ),
        ),
        ("xl/worksheets/sheet1.xml", format!("{head}<worksheet xmlns=\"{main}\"><sheetData>{sheet}</sheetData></worksheet>")),
        ("xl/sharedStrings.xml", format!("{head}<sst xmlns=\"{main}\">{}</sst>", strings.concat())),
    ])
}

/// A file that goes when it is dropped.
struct File(std::path::PathBuf);
impl Drop for File {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

struct Input {
    spec: InputSpec,
    excel: bool,
    rudof: Rudof,
    _file: Option<File>,
}
fn input(s: &mut Src, c: &mut Case, p: &Prof) -> Input {
    let rows = rows(s, p);
    let t = table(s, p, &rows);
    let delim = s.picks(&[',', ',', ';', '\t', '|']);
    let quote = s.picks(&['"', '"', '\'']);
    let mut toml = format!("base_iri = \"{BASEIRI}\"\n[tap]\npicklist_delimiter = \"{}\"\nvalue_shape_delimiter = \"{}\"\n", p.pick_sep, p.shape_sep);
    if delim != ',' || quote != '"' {
        toml += &format!("delimiter = {}\nquote = {}\n", serde_json::to_string(&delim).unwrap(), serde_json::to_string(&quote).unwrap());
    }
    if p.dtbase {
        toml += &format!("[tap2shex]\ndatatype_base_iri = \"{DTBASE}\"\n");
    }
    toml += "[tap2shex.prefixmap]\n";
    for (a, i) in PREFIXES {
        toml += &format!("\"{a}\" = \"{i}\"\n");
    }
    let rudof = Rudof::new(RudofConfig::from_toml_str(&toml).expect("config"));
    let excel = s.chance(1, 4);
    c.label(if excel { "workbook" } else { "CSV" });
    let text = csv(s, &t, delim, quote);
    c.desc = format!("{toml}--{}\n{text}", if excel { " as a workbook" } else { "" });
    if excel {
        let bytes = xlsx(s, &t);
        let path = std::env::temp_dir().join(format!("verif_c18_{}_{:?}.xlsx", std::process::id(), std::thread::current().id()));
        std::fs::write(&path, bytes).expect("write workbook");
        Input { spec: InputSpec::Path(path.clone()), excel, rudof, _file: Some(File(path)) }
    } else {
        Input { spec: spec(text), excel, rudof, _file: None }
    }
}

// Reading

fn j(x: Option<&str>) -> J {
    x.map_or(J::Null, |x| x.into())
}
/// What the table says, in the form of the JSON output without line numbers.
fn expected(p: &Prof) -> J {
    let shapes: Vec<J> = p
        .shapes
        .iter()
        .map(|sh| {
            let stms: Vec<J> = sh
                .stms
                .iter()
                .map(|t| {
                    let (m, r) = if p.card { (J::Bool(t.mandatory), J::Bool(t.repeatable)) } else { (J::Null, J::Null) };
                    let mut kinds = t.kinds.iter().map(|k| if *k == "IRI" { "Iri" } else { k }.to_string()).collect::<Vec<_>>();
                    kinds.sort();
                    serde_json::json!({"id": t.prop, "label": j(t.label), "mandatory": m, "repeatable": r, "kinds": kinds, "datatypes": t.dts,
                        "picks": t.picks, "pattern": j(t.pattern), "shapes": t.shapes.iter().map(|j| &p.shapes[*j].id).collect::<Vec<_>>(), "note": j(t.note)})
                })
                .collect();
            let ext: Vec<J> = sh.extends.iter().map(|e| serde_json::json!([p.shapes[*e].id, j(sh.extends_label)])).collect();
            serde_json::json!({"id": sh.id, "label": j(sh.label), "extends": ext, "statements": stms})
        })
        .collect();
    J::Array(shapes)
}
fn observed(p: &Prof, text: &str) -> Result<J, String> {
    let v: J = serde_json::from_str(text).map_err(|e| e.to_string())?;
    let arr = |v: &J| v.as_array().cloned().unwrap_or_default();
    let id = |v: &J| v["str"].clone();
    let shapes = arr(&v["shapes"])
        .iter()
        .map(|sh| {
            let stms: Vec<J> = arr(&sh["statements"])
                .iter()
                .map(|t| {
                    let nt = &t["valueNodeType"];
                    let mut kinds: Vec<String> = if nt["Or"].is_array() { arr(&nt["Or"]) } else { nt["Basic"].as_str().map(|x| x.into()).into_iter().collect() }
                        .iter()
                        .map(|k| k.as_str().unwrap_or("?").to_string())
                        .collect();
                    kinds.sort();
                    let dts: Vec<J> = arr(&t["valueDataType"]).iter().map(id).collect();
                    let vc = &t["valueConstraint"];
                    let picks: Vec<J> = arr(&vc["PickList"]).iter().map(|x| x["Str"].clone()).collect();
                    let shapes: Vec<String> = t["valueShape"]["str"]
                        .as_str()
                        .unwrap_or("")
                        .split(|c: char| c.is_whitespace() || c == p.shape_sep)
                        .filter(|x| !x.is_empty())
                        .map(|x| x.into())
                        .collect();
                    serde_json::json!({"id": id(&t["propertyID"]), "label": t["propertyLabel"], "mandatory": t["mandatory"], "repeatable": t["repeatable"],
                        "kinds": kinds, "datatypes": dts, "picks": picks, "pattern": vc["Pattern"], "shapes": shapes, "note": t["note"]})
                })
                .collect();
            let ext: Vec<J> = arr(&sh["extends"]).iter().map(|e| serde_json::json!([e["str"], e["label"]])).collect();
            serde_json::json!({"id": id(&sh["shapeID"]), "label": sh["shapeLabel"], "extends": ext, "statements": stms})
        })
        .collect();
    Ok(J::Array(shapes))
}
pub fn read(s: &mut Src, c: &mut Case) -> Outcome {
    let p = profile(s, false);
    let mut i = input(s, c, &p);
    let f = if i.excel { DCTapFormat::Xlsx } else { DCTapFormat::Csv };
    if let Err(e) = i.rudof.load_dctap(&i.spec).with_dctap_format(&f).execute() {
        return fail("read-refused", e.to_string());
    }
    let mut out = vec![];
    if let Err(e) = i.rudof.serialize_dctap(&mut out).with_result_dctap_format(&ResultDCTapFormat::Json).execute() {
        return fail("write-refused", e.to_string());
    }
    let got = match observed(&p, &String::from_utf8_lossy(&out)) {
        Ok(g) => g,
        Err(e) => return fail("json", e),
    };
    let want = expected(&p);
    c.nontrivial = p.shapes.iter().map(|x| x.stms.len()).sum::<usize>() > 1;
    if got != want {
        return fail("read-differs", format!("read:\n{got}\nexpected:\n{want}"));
    }
    Outcome::Pass
}

// Conversion

struct Ref<'a> {
    p: &'a Prof,
    g: &'a G,
    /// the column of node types counts
    kinds: bool,
}
impl Ref<'_> {
    fn flat(&self, i: usize) -> Vec<&Stm> {
        let sh = &self.p.shapes[i];
        let mut v = sh.extends.map_or(vec![], |e| self.flat(e));
        v.extend(&sh.stms);
        v
    }
    fn value(&self, t: &Stm, v: &T) -> bool {
        let dt = |d: &String| {
            let want = if d.contains(':') { iri(d) } else { format!("{DTBASE}{d}") };
            matches!(v, T::L { lex, dt, .. } if *dt == want && lit::valid_lexical(lex, dt) != Some(false))
        };
        let kind = match v {
            T::Iri(_) => "IRI",
            T::B(_) => "BNode",
            T::L { .. } => "Literal",
        };
        (t.dts.is_empty() || t.dts.iter().any(dt))
            && (t.picks.is_empty() || t.picks.iter().any(|x| *v == T::iri(iri(x))))
            && (t.shapes.is_empty() || t.shapes.iter().any(|j| self.conforms(v, *j)))
            && (!self.kinds || t.kinds.is_empty() || t.kinds.contains(&kind))
    }
    fn conforms(&self, n: &T, i: usize) -> bool {
        (0..self.p.shapes.len()).any(|j| self.is_a(j, i) && self.alone(n, j))
    }
    fn is_a(&self, j: usize, i: usize) -> bool {
        j == i || self.p.shapes[j].extends.is_some_and(|e| self.is_a(e, i))
    }
    fn alone(&self, n: &T, i: usize) -> bool {
        let stms = self.flat(i);
        let preds: BTreeSet<String> = stms.iter().map(|t| iri(&t.prop)).collect();
        preds.iter().all(|p| {
            let ts: Vec<&&Stm> = stms.iter().filter(|t| iri(&t.prop) == *p).collect();
            let vs = self.g.objs(n, p);
            let fits: Vec<Vec<usize>> = vs.iter().map(|v| (0..ts.len()).filter(|k| self.value(ts[*k], v)).collect()).collect();
            self.assign(&ts, &fits, &mut vec![0; ts.len()])
        })
    }
    fn assign(&self, ts: &[&&Stm], fits: &[Vec<usize>], n: &mut Vec<usize>) -> bool {
        let many = |t: &Stm| self.p.card && t.repeatable;
        let must = |t: &Stm| !self.p.card || t.mandatory;
        let Some((f, rest)) = fits.split_first() else { return ts.iter().zip(n.iter()).all(|(t, k)| *k > 0 || !must(t)) };
        f.iter().any(|k| {
            if n[*k] > 0 && !many(ts[*k]) {
                return false;
            }
            n[*k] += 1;
            let r = self.assign(ts, rest, n);
            n[*k] -= 1;
            r
        })
    }
}

const NODES: [&str; 4] = ["n0", "n1", "n2", "n3"];
fn data(s: &mut Src, p: &Prof) -> G {
    let mut g = G::default();
    let mut props: Vec<&Stm> = p.shapes.iter().flat_map(|x| &x.stms).collect();
    if props.is_empty() {
        props = vec![];
    }
    let node = |i: usize| if i == 3 { T::b("x") } else { T::ex(NODES[i]) };
    let lits = [
        T::str("a"),
        T::str(""),
        T::int(4),
        T::typed("x4", &xsd("integer")),
        T::typed("2020-02-03", &xsd("date")),
        T::typed("2020-02-33", &xsd("date")),
        T::lang("hi", "en"),
        T::typed("true", &xsd("boolean")),
        T::typed("z", &format!("{EX}dt")),
        T::typed("z", &format!("{DTBASE}bare")),
    ];
    // nodes follow the statements of a shape, more or less
    for i in 0..4 {
        let goal = if p.shapes.is_empty() { 0 } else { s.below(p.shapes.len()) };
        let stms: Vec<&Stm> = Ref { p, g: &G::default(), kinds: true }.flat(goal).into_iter().map(|t| props.iter().copied().find(|x| std::ptr::eq(*x, t)).unwrap()).collect();
        for t in stms {
            let k = match (t.mandatory || !p.card, t.repeatable && p.card) {
                (true, true) => s.size(1, 2),
                (true, false) => s.weighted(&[1, 14, 1]),
                (false, true) => s.size(0, 2),
                (false, false) => s.weighted(&[6, 6, 1]),
            };
            for _ in 0..k {
                let stray = s.chance(1, 12);
                let v = if stray {
                    match s.below(3) {
                        0 => s.picks(&lits),
                        1 => T::iri(iri(&name(s, &["a", "b", "c"]))),
                        _ => node(s.size(i, 3).max(i + 1).min(3)),
                    }
                } else if !t.dts.is_empty() {
                    let d = s.pick(&t.dts).clone();
                    let want = if d.contains(':') { iri(&d) } else { format!("{DTBASE}{d}") };
                    let ok: Vec<T> = lits.iter().filter(|l| matches!(l, T::L { dt, .. } if *dt == want)).cloned().collect();
                    s.picks(&ok)
                } else if !t.picks.is_empty() {
                    T::iri(iri(s.pick(&t.picks)))
                } else if !t.shapes.is_empty() && i < 3 {
                    node(i + 1 + s.below(3 - i))
                } else {
                    s.picks(&lits)
                };
                // objects come after their subjects
                if v != node(i) && (0..i).all(|k| node(k) != v) {
                    g.add(node(i), &iri(&t.prop), v);
                }
            }
        }
        if s.chance(1, 6) {
            g.add(node(i), &iri(":other"), T::str("o"));
        }
    }
    g
}
fn convert_to(i: &mut Input, f: ResultConversionFormat) -> Result<String, String> {
    let mut out = vec![];
    let inf = if i.excel { ConversionFormat::Xlsx } else { ConversionFormat::Csv };
    i.rudof
        .show_schema_conversion(&i.spec, &ConversionMode::Dctap, &ResultConversionMode::ShEx, &inf, &f, &mut out)
        .with_base(BASE)
        .with_reader_mode(&DataReaderMode::Strict)
        .execute()
        .map_err(|e| e.to_string())?;
    String::from_utf8(out).map_err(|e| e.to_string())
}
/// The labels of shapes and of their constraints, from ShExJ.
fn labels(text: &str) -> Result<BTreeMap<String, (Vec<String>, Vec<(String, Vec<String>)>)>, String> {
    let v: J = serde_json::from_str(text).map_err(|e| e.to_string())?;
    fn notes(v: &J) -> Vec<String> {
        let a = v["annotations"].as_array().cloned().unwrap_or_default();
        a.iter().filter(|x| x["predicate"] == format!("{RDFS}label").as_str()).map(|x| x["object"]["value"].as_str().unwrap_or("?").to_string()).collect()
    }
    fn tcs(v: &J, out: &mut Vec<(String, Vec<String>)>) {
        if v["type"] == "TripleConstraint" {
            out.push((v["predicate"].as_str().unwrap_or("?").into(), notes(v)));
        }
        for x in v["expressions"].as_array().unwrap_or(&vec![]) {
            tcs(x, out);
        }
    }
    let mut m = BTreeMap::new();
    for d in v["shapes"].as_array().ok_or("no shapes")? {
        let id = d["id"].as_str().ok_or("no id")?.to_string();
        let sh = if d["type"] == "ShapeDecl" { &d["shapeExpr"] } else { d };
        let mut l = notes(sh);
        if d["type"] == "ShapeDecl" {
            l.extend(notes(d));
        }
        let mut t = vec![];
        tcs(&sh["expression"], &mut t);
        if m.insert(id.clone(), (l, t)).is_some() {
            return Err(format!("two shapes {id}"));
        }
    }
    Ok(m)
}
pub fn convert(s: &mut Src, c: &mut Case) -> Outcome {
    let p = profile(s, true);
    let g = data(s, &p);
    // validation tries every division of the triples of a node between a shape and the shapes it extends
    let ext = p.shapes.iter().any(|x| x.extends.is_some());
    let refs = p.shapes.iter().flat_map(|x| &x.stms).any(|t| !t.shapes.is_empty());
    if ext && g.nodes().iter().any(|n| g.out(n).len() > if refs { 4 } else { 6 }) {
        return Outcome::Discard("large neighbourhoods with inheritance");
    }
    let mut i = input(s, c, &p);
    c.desc += &format!("\n--\n{}", g.nt());
    if std::env::var("VERIF_TRACE").is_ok() {
        eprintln!("{}", c.desc);
    }
    c.label_if(p.shapes.iter().any(|x| x.extends.is_some()), "extends");
    let json = s.flip();
    c.label(if json { "to ShExJ" } else { "to ShExC" });
    let text = match convert_to(&mut i, if json { ResultConversionFormat::ShExJ } else { ResultConversionFormat::ShExC }) {
        Ok(t) => t,
        Err(e) => return fail("convert-refused", e),
    };
    c.desc += &format!("\n--\n{text}");
    if std::env::var("VERIF_TRACE").is_ok() {
        eprintln!("--\n{text}");
    }
    if json {
        let got = match labels(&text) {
            Ok(l) => l,
            Err(e) => return fail("shexj", e),
        };
        let own = |l: Option<&str>| l.iter().map(|x| x.to_string()).collect::<Vec<_>>();
        let want = p.shapes.iter().map(|x| (iri(&x.id), (own(x.label), x.stms.iter().map(|t| (iri(&t.prop), own(t.label))).collect()))).collect();
        if got != want {
            return fail("labels", format!("shapes, labels and properties are {got:?}\nexpected {want:?}"));
        }
    }
    let mut r = rudof();
    if let Err(e) = load_nt(&mut r, &g) {
        return fail("load-data", e);
    }
    if let Err(e) = load_shex(&mut r, &text, if json { ShExFormat::ShExJ } else { ShExFormat::ShExC }) {
        return fail("load-converted", e);
    }
    let nodes: Vec<T> = (0..4).filter(|k| *k < 3 || g.nodes().contains(&T::b("x"))).map(|k| if k == 3 { T::b("x") } else { T::ex(NODES[k]) }).collect();
    let map: Vec<String> = nodes.iter().flat_map(|n| p.shapes.iter().map(move |x| format!("{}@<{}>", n.nt(), iri(&x.id)))).collect();
    let v = match shex_run(&mut r, &map.join(",")) {
        Ok(v) => v,
        Err(e) => return fail("validate-error", e),
    };
    let (mut yes, mut no) = (0, 0);
    let (mut bad, mut plain) = (None, true);
    for n in &nodes {
        for (k, x) in p.shapes.iter().enumerate() {
            let want = Ref { p: &p, g: &g, kinds: true }.conforms(n, k);
            let shown = match n {
                T::Iri(i) => i.clone(),
                n => n.nt(),
            };
            let code = |b: bool| if b { "conformant" } else { "nonconformant" };
            let got = v.get(&(shown, iri(&x.id))).map(|x| x.as_str());
            plain &= got == Some(code(Ref { p: &p, g: &g, kinds: false }.conforms(n, k)));
            if got != Some(code(want)) {
                bad = Some((want, format!("{} @ {}: rudof says {got:?}, expected {}", n.nt(), x.id, code(want))));
            }
            if want { yes += 1 } else { no += 1 }
        }
    }
    c.nontrivial = yes > 0 && no > 0;
    match bad {
        None => Outcome::Pass,
        Some((_, m)) if plain => fail("node-types-ignored", m),
        Some((want, m)) => fail(if want { "verdict-too-strict" } else { "verdict-too-lax" }, m),
    }
}
