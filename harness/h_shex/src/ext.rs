//! Inheritance between shapes, and precompiled schemas.
use crate::genr::*;
use crate::model::*;
use crate::rt;
use crate::*;
use rudof_lib::formats::{DataReaderMode, InputSpec};
use std::collections::BTreeSet;

/// All shapes that extend `i`, at any distance.
fn descendants(sch: &Schema, i: usize) -> BTreeSet<usize> {
    let mut v = BTreeSet::new();
    for (j, d) in sch.decls.iter().enumerate() {
        if let SE::Shape(sh) = &d.se
            && sh.extends.contains(&i)
        {
            v.insert(j);
            v.extend(descendants(sch, j));
        }
    }
    v
}
/// The expression of a shape together with those of the shapes it extends, each once.
fn flat(sch: &Schema, i: usize, seen: &mut BTreeSet<usize>, out: &mut Vec<TE>) {
    if !seen.insert(i) {
        return;
    }
    if let SE::Shape(sh) = &sch.decls[i].se {
        for e in &sh.extends {
            flat(sch, *e, seen, out);
        }
        if let Some(t) = &sh.te {
            out.push(t.clone());
        }
    }
}
/// The same schema without inheritance: a shape stands for itself and its descendants.
pub fn flatten_schema(sch: &Schema) -> Schema {
    let one = |i: usize| -> SE {
        let SE::Shape(sh) = &sch.decls[i].se else { unreachable!() };
        let mut v = vec![];
        flat(sch, i, &mut BTreeSet::new(), &mut v);
        let te = match v.len() {
            0 => None,
            1 => v.pop(),
            _ => Some(TE::Each(v, (1, Some(1)))),
        };
        SE::Shape(Shape { te, extends: vec![], ..sh.clone() })
    };
    let decls = (0..sch.decls.len())
        .map(|i| {
            let mut v = vec![];
            for j in std::iter::once(i).chain(descendants(sch, i)) {
                if !sch.decls[j].abs {
                    v.push(one(j));
                }
            }
            let se = match v.len() {
                0 => SE::Not(Box::new(SE::Shape(Shape::default()))),
                1 => v.pop().unwrap(),
                _ => SE::Or(v),
            };
            Decl { se, abs: false }
        })
        .collect();
    Schema { decls, start: None }
}

/// Shapes that extend each other, and perhaps one that refers to them.
pub fn hierarchy(s: &mut Src, c: &mut Case) -> Schema {
    let n = s.size(2, 4);
    let k = Knobs { labels: n, refs: false, nested: false, inverse: false, logic: false, depth: 1, incl: false };
    let mut sch = Schema { decls: vec![], start: None };
    for i in 0..n {
        let mut sh = shape(s, &k, 0);
        if i > 0 && s.chance(3, 4) {
            let mut e = s.subset(&(0..i).collect::<Vec<_>>(), 1, 2);
            if e.is_empty() {
                e.push(i - 1);
            }
            sh.extends = e;
        }
        sch.decls.push(Decl { se: SE::Shape(sh), abs: s.chance(1, 6) });
    }
    // a shape outside of the hierarchy that refers to it
    if s.chance(1, 3) {
        let k = Knobs { refs: true, ..k };
        sch.decls.push(Decl { se: SE::Shape(shape(s, &k, 0)), abs: false });
        c.label("reference to a shape of the hierarchy");
    }
    // only shapes that nobody extends are closed or have extra predicates
    let extended: BTreeSet<usize> = sch.decls.iter().flat_map(|d| if let SE::Shape(sh) = &d.se { sh.extends.clone() } else { vec![] }).collect();
    for i in &extended {
        if let SE::Shape(sh) = &mut sch.decls[*i].se {
            sh.closed = false;
            sh.extra = vec![];
        }
    }
    c.label_if(sch.decls.iter().any(|d| d.abs), "abstract shape");
    c.label_if(extended.iter().any(|i| matches!(&sch.decls[*i].se, SE::Shape(sh) if !sh.extends.is_empty())), "two levels");
    c.label_if(sch.decls.iter().any(|d| matches!(&d.se, SE::Shape(sh) if sh.extends.len() > 1)), "several parents");
    sch
}
pub fn check_extends(s: &mut Src, c: &mut Case) -> Outcome {
    let sch = hierarchy(s, c);
    let plain = flatten_schema(&sch);
    // the reference reads EXTRA against every expression of the family
    if count_leaves(&plain) > 6 {
        return Outcome::Discard("more than 6 triple constraints");
    }
    if sch.decls.iter().all(|d| matches!(&d.se, SE::Shape(sh) if sh.extends.is_empty())) {
        return Outcome::Discard("no inheritance");
    }
    if sccs(&plain).1 {
        return Outcome::Discard("negated recursion through inherited constraints");
    }
    let g = data(s, &plain, 6);
    let json = s.chance(3, 4);
    compare_with(s, c, &sch, &plain, &g, json)
}

fn compile(r: &Rudof) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    r.compile_shex_schema_to_file(&mut out).execute().map_err(|e| format!("compile: {e}"))?;
    Ok(out)
}
struct Temp(std::path::PathBuf);
impl Temp {
    fn new(bytes: &[u8]) -> Temp {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!("verif-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::write(&p, bytes).unwrap();
        Temp(p)
    }
}
impl Drop for Temp {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
fn load_compiled(r: &mut Rudof, bytes: &[u8], mode: DataReaderMode) -> Result<(), String> {
    let t = Temp::new(bytes);
    let sp = InputSpec::path(&t.0);
    r.load_shex_schema_precompiled(&sp).with_reader_mode(&mode).execute().map_err(|e| format!("load precompiled: {e}"))
}

/// A precompiled schema validates like the schema it was made from; a cut or foreign file is refused.
pub fn check_compiled(s: &mut Src, c: &mut Case) -> Outcome {
    // half of the cases use every construct and only compare the files; the others validate too
    let kind = s.weighted(&[2, 2, 2]);
    let whole = kind == 0;
    let mut plain = None;
    let (sch, g) = if whole {
        (rt::rich(s), G::default())
    } else if kind == 1 {
        let sch = hierarchy(s, c);
        let p = flatten_schema(&sch);
        if sccs(&p).1 {
            return Outcome::Discard("negated recursion through inherited constraints");
        }
        let g = data(s, &p, 5);
        plain = Some(p);
        (sch, g)
    } else {
        let n = s.size(1, 3);
        let k = Knobs { labels: n, refs: true, nested: true, inverse: true, logic: true, depth: 1, incl: false };
        let sch = Schema { decls: (0..n).map(|_| Decl { se: se(s, &k, 2), abs: false }).collect(), start: None };
        let g = data(s, &sch, 4);
        (sch, g)
    };
    let json = s.chance(3, 4) || rt::not_in_shexc(&sch);
    c.label(["every construct", "verdicts under inheritance", "verdicts"][kind]);
    c.desc = format!("{}\n--\n{}", sch.shexc(), g.nt());
    let (_, neg) = sccs(&sch);
    c.label_if(neg, "negated recursion");
    let (text, f) = if json { (sch.shexj(), ShExFormat::ShExJ) } else { (sch.shexc(), ShExFormat::ShExC) };
    let mut a = rudof();
    if neg {
        return Outcome::Discard("negated recursion");
    }
    if let Err(e) = load_shex(&mut a, &text, f) {
        return fail("load-schema", format!("{e}\n{text}"));
    }
    let bytes = match compile(&a) {
        Ok(b) => b,
        Err(e) => return fail("compile", e),
    };
    let mut b = rudof();
    if let Err(e) = load_compiled(&mut b, &bytes, DataReaderMode::Strict) {
        return fail("load-compiled", e);
    }
    match compile(&b) {
        Err(e) => return fail("recompile", e),
        // maps are written in any order, so only the sizes are comparable
        Ok(again) if again.len() != bytes.len() => return fail("recompile-differs", format!("{} bytes became {}", bytes.len(), again.len())),
        Ok(_) => {}
    }
    // what is not a whole file is refused
    for _ in 0..3 {
        let cut = s.below(bytes.len());
        let mut x = rudof();
        if load_compiled(&mut x, &bytes[..cut], DataReaderMode::Lax).is_ok() {
            return fail("truncated-accepted", format!("the first {cut} of {} bytes were accepted", bytes.len()));
        }
    }
    let mut broken = bytes.clone();
    let at = s.below(8);
    broken[at] ^= 1 << s.below(8);
    let mut x = rudof();
    if load_compiled(&mut x, &broken, DataReaderMode::Lax).is_ok() {
        return fail("foreign-accepted", format!("byte {at} of the signature changed and the file was accepted"));
    }
    if whole {
        c.nontrivial = true;
        return Outcome::Pass;
    }
    let mut focus: Vec<T> = (0..4).map(|i| T::ex(NODES[i])).collect();
    focus.push(T::int(1));
    let sem = plain.as_ref().unwrap_or(&sch);
    if knot(sem, &g, &focus) > 1 {
        return Outcome::Discard("mutually dependent (node, shape) pairs");
    }
    if count_leaves(sem) > 6 {
        return Outcome::Discard("more than 6 triple constraints");
    }
    let map: Vec<String> = focus.iter().flat_map(|n| (0..sch.decls.len()).map(move |l| format!("{}@<{}>", n.nt(), label(l)))).collect();
    let map = map.join(",");
    let mut vs = vec![];
    for r in [&mut a, &mut b] {
        if let Err(e) = load_nt(r, &g) {
            return fail("load-data", e);
        }
        vs.push(shex_run(r, &map));
    }
    match (&vs[0], &vs[1]) {
        (Ok(x), Ok(y)) => {
            c.nontrivial = x.values().any(|v| v == "conformant") && x.values().any(|v| v != "conformant");
            if x != y {
                let d = x.iter().find(|(k, v)| y.get(*k) != Some(v));
                return fail("verdict-differs", format!("{d:?} against {:?}", d.map(|d| y.get(d.0))));
            }
            Outcome::Pass
        }
        (Err(_), Err(_)) => Outcome::Discard("validation error in both"),
        (x, y) => fail("error-differs", format!("{x:?} against {y:?}")),
    }
}
