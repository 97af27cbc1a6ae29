//! C15: schemas that import other ones.
use crate::ext::{flatten_schema, hierarchy};
use crate::genr::*;
use crate::model::*;
use crate::refv::{knot, sccs};
use crate::{Outcome, compare_loaded};
use common::*;
use hlib::*;
use rudof_lib::formats::*;
use serde_json::json;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};

/// A directory that goes away with it.
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("verif-imports-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
struct File {
    /// directories below the root
    dir: Vec<&'static str>,
    name: String,
    /// extension on disk
    ext: &'static str,
    json: bool,
    imports: Vec<usize>,
    decls: Vec<usize>,
}
impl File {
    fn path(&self, ext: bool) -> String {
        let mut p: Vec<String> = self.dir.iter().map(|d| d.to_string()).collect();
        p.push(if ext && !self.ext.is_empty() { format!("{}.{}", self.name, self.ext) } else { self.name.clone() });
        p.join("/")
    }
}
/// A way to name a file from a base directory (both below the root).
fn reference(s: &mut Src, root: &str, from: &[&str], to: &File, ext: bool) -> String {
    if s.chance(1, 4) {
        return format!("{root}{}", to.path(ext));
    }
    let mut k = 0;
    while k < from.len() && k < to.dir.len() && from[k] == to.dir[k] && !s.chance(1, 6) {
        k += 1;
    }
    let mut o = "../".repeat(from.len() - k);
    if o.is_empty() && s.chance(1, 4) {
        o = "./".into();
    }
    for d in &to.dir[k..] {
        o += &format!("{d}/");
    }
    let p = to.path(ext);
    o + p.rsplit('/').next().unwrap()
}
pub fn check_imports(s: &mut Src, c: &mut Case) -> Outcome {
    // the schema as a whole
    let inherit = s.chance(1, 4);
    let mut sch = if inherit {
        hierarchy(s, c)
    } else {
        let n = s.size(1, 4);
        let k = Knobs { labels: n, refs: true, nested: true, inverse: false, logic: true, depth: 1, incl: false };
        Schema { decls: (0..n).map(|_| Decl { se: se(s, &k, 1), abs: false }).collect(), start: None }
    };
    // a triple expression that is included elsewhere
    if s.chance(1, 3) && sch.decls.len() > 1 {
        let (i, j) = (s.below(sch.decls.len()), s.below(sch.decls.len()));
        if i != j
            && let SE::Shape(Shape { te: Some(t), .. }) = &sch.decls[i].se
        {
            let l = TE::Labelled(0, Box::new(t.clone()));
            if let SE::Shape(Shape { te: te @ Some(_), extends, .. }) = &mut sch.decls[j].se
                && extends.is_empty()
                && !inherit
            {
                *te = Some(TE::Each(vec![te.take().unwrap(), TE::Incl(0)], (1, Some(1))));
                let SE::Shape(sh) = &mut sch.decls[i].se else { unreachable!() };
                sh.te = Some(l);
                c.label("inclusion");
            }
        }
    }
    let plain = if inherit { flatten_schema(&sch) } else { sch.clone() };
    if count_leaves(&plain) > if inherit { 6 } else { 3 } {
        return Outcome::Discard("many triple constraints");
    }
    if inherit && sccs(&plain).1 {
        return Outcome::Discard("negated recursion through inherited constraints");
    }
    let g = data(s, &plain, 3);
    let nodes: Vec<T> = g.nodes().into_iter().filter(|n| !matches!(n, T::L { .. })).collect();
    if knot(&plain, &g, &nodes) > 1 {
        return Outcome::Discard("mutually dependent (node, shape) pairs");
    }
    // its files
    let n = s.size(1, 5);
    let mut fs: Vec<File> = (0..n)
        .map(|i| {
            let dir = match s.below(4) {
                0 | 1 => vec![],
                2 => vec!["d"],
                _ => vec!["d", "e"],
            };
            let json = s.chance(1, 3);
            let ext = if s.chance(1, 5) { "" } else { s.picks(if json { &["json", "shexj"] } else { &["shex", "shexc"] }) };
            File { dir: if i == 0 { vec![] } else { dir }, name: if s.chance(1, 8) { format!("f{i}.x") } else { format!("f{i}") }, ext, json, imports: vec![], decls: vec![] }
        })
        .collect();
    for i in 1..n {
        let k = s.below(i);
        fs[k].imports.push(i);
    }
    for _ in 0..s.size(0, 4) {
        let (a, b) = (s.below(n), s.below(n));
        fs[a].imports.push(b);
        c.label(if a == b { "imports itself" } else if b == 0 { "imports the root" } else { "several ways" });
    }
    for i in 0..sch.decls.len() {
        let k = s.below(n);
        fs[k].decls.push(i);
    }
    for f in &mut fs {
        s.shuffle(&mut f.imports);
    }
    // what a start stands for in the root, and in the others
    let start = SE::Ref(s.below(sch.decls.len()));
    let other = SE::Nc(NC { kind: Some("iri"), ..NC::default() });
    let with_start = s.flip();
    let dir = Dir::new();
    let root = format!("file://{}/", dir.0.display());
    let mut texts = vec![];
    for (i, f) in fs.iter().enumerate() {
        let st = if i == 0 { with_start.then_some(&start) } else if s.chance(1, 4) { Some(&other) } else { None };
        let text = if f.json {
            let mut v = json!({"@context": "http://www.w3.org/ns/shex.jsonld", "type": "Schema"});
            if !f.imports.is_empty() {
                v["imports"] = f.imports.iter().map(|k| { let e = s.flip(); json!(reference(s, &root, &f.dir, &fs[*k], e || fs[*k].ext.is_empty())) }).collect();
            }
            if let Some(e) = st {
                v["start"] = sch.expr_j(e);
            }
            if !f.decls.is_empty() {
                v["shapes"] = f.decls.iter().map(|d| sch.decl_j(*d)).collect();
            }
            v.to_string()
        } else {
            let alias = s.picks(&["", "ex", "p1", "x"]);
            PFX.with(|p| *p.borrow_mut() = alias.into());
            // the other files use these names for other things
            let mut o = format!("PREFIX {alias}: <{EX}>\nPREFIX xsd: <{XSD}>\n");
            for a in ["", "ex", "p1", "x"] {
                if a != alias && s.chance(1, 3) {
                    o += &format!("PREFIX {a}: <http://other.org/{i}/>\n");
                }
            }
            let mut base = f.dir.clone();
            if s.chance(1, 4) {
                base = s.picks(&[&[] as &[&str], &["d"], &["d", "e"], &["z"]]).to_vec();
                let b: String = base.iter().map(|d| format!("{d}/")).collect();
                o += &format!("BASE <{root}{b}{}>\n", s.picks(&["", "any"]));
                c.label("BASE");
            }
            let mut imports: Vec<String> = f
                .imports
                .iter()
                .map(|k| {
                    let e = s.flip() || fs[*k].ext.is_empty();
                    let t = &fs[*k];
                    if s.chance(1, 8) && t.dir.is_empty() && (!e || t.ext.is_empty()) && !t.name.contains('.') {
                        return format!("PREFIX i: <{root}>\nIMPORT i:{}\n", t.name);
                    }
                    format!("IMPORT <{}>\n", reference(s, &root, &base, t, e))
                })
                .collect();
            // imports may stand anywhere
            let late = if s.chance(1, 4) { imports.pop() } else { None };
            o += &imports.concat();
            if let Some(e) = st {
                o += &format!("start = {}\n", sch.expr_c(e));
            }
            for d in &f.decls {
                o += &sch.decl_c(*d);
            }
            o += &late.unwrap_or_default();
            PFX.with(|p| p.borrow_mut().clear());
            o
        };
        texts.push(text);
    }
    // one of the files may be missing
    let missing = if n > 1 && s.chance(1, 12) { Some(1 + s.below(n - 1)) } else { None };
    for (i, (f, t)) in fs.iter().zip(&texts).enumerate() {
        c.desc += &format!("==== {}{}\n{t}\n", f.path(true), if missing == Some(i) { " (missing)" } else { "" });
        if missing == Some(i) {
            continue;
        }
        let p = dir.0.join(f.path(true));
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, t).unwrap();
    }
    c.desc += &format!("----\n{}", g.nt());
    c.label(&format!("{n} files"));
    c.label_if(fs.iter().any(|f| f.json) && fs.iter().any(|f| !f.json), "both syntaxes");
    // a schema that comes as a string has no place that could be imported
    let as_path = s.flip() || fs.iter().any(|f| f.imports.contains(&0));
    let base = format!("{root}{}", s.picks(&["", "f0", "f0.shex", "base"]));
    let fmt = if fs[0].json { ShExFormat::ShExJ } else { ShExFormat::ShExC };
    let load = |r: &mut rudof_lib::Rudof| {
        let sp = if as_path { InputSpec::Path(dir.0.join(fs[0].path(true))) } else { spec(&texts[0]) };
        r.load_shex_schema(&sp).with_shex_schema_format(&fmt).with_base(&base).execute().map_err(|e| e.to_string().replace(dir.0.to_str().unwrap(), ""))
    };
    if missing.is_some() {
        c.label("missing file");
        let mut r = rudof();
        return match load(&mut r) {
            Ok(()) => fail("missing-accepted", "a schema with an import that does not exist was loaded"),
            Err(e) if e.is_empty() => fail("missing-error", "empty error"),
            Err(_) => {
                c.nontrivial = true;
                Outcome::Pass
            }
        };
    }
    let out = compare_loaded(s, c, &sch, &plain, &g, &load);
    c.nontrivial &= n > 1;
    if !matches!(out, Outcome::Pass) || sccs(&plain).1 {
        return out;
    }
    // START is that of the root
    let mut r = rudof();
    if load(&mut r).is_err() || load_data(&mut r, &g.nt(), DataFormat::NTriples, false).is_err() {
        return fail("reload", "");
    }
    let node = T::ex(NODES[s.below(4)]);
    let SE::Ref(k) = start else { unreachable!() };
    let q = format!("{}@START, {}@<{}>", node.nt(), node.nt(), label(k));
    let got = r.load_shapemap(&spec(&q)).execute().map_err(|e| e.to_string()).and_then(|_| shex_run(&mut r, &q));
    match (with_start, got) {
        (true, Ok(v)) => {
            let of: Vec<&String> = v.values().collect();
            if v.len() != 2 || of[0] != of[1] {
                return fail("start", format!("{q}: {v:?}"));
            }
        }
        (true, Err(e)) => return fail("start-error", e),
        // the start of an import (any IRI) is not that of the schema
        (false, Ok(v)) if v.iter().any(|((_, l), b)| l == "Start" && b == "conformant") => return fail("start-of-import", format!("the schema has no start, but {v:?}")),
        (false, _) => {}
    }
    Outcome::Pass
}
