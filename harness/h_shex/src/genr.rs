//! Generators of schemas and of data that nearly conform to them.
use crate::model::*;
use crate::nc::*;
use crate::refv::*;
use common::Src;
use hlib::*;
use std::collections::BTreeMap;

pub const PREDS: [&str; 3] = ["p", "q", "r"];
pub fn pred(s: &mut Src) -> String {
    format!("{EX}{}", s.pick(&PREDS))
}
pub struct Knobs {
    pub labels: usize,
    pub refs: bool,
    pub nested: bool,
    pub inverse: bool,
    pub logic: bool,
    pub depth: usize,
    pub incl: bool,
}
pub fn small_card(s: &mut Src) -> Card {
    match s.weighted(&[6, 3, 3, 2, 4]) {
        0 => (1, Some(1)),
        1 => (0, Some(1)),
        2 => (0, None),
        3 => (1, None),
        _ => {
            let lo = s.size(0, 3);
            if s.chance(1, 4) { (lo, None) } else { (lo, Some(lo + s.size(0, 2))) }
        }
    }
}
/// Simple value constraints over the integers 1..6, strings and IRIs.
pub fn simple_nc(s: &mut Src) -> NC {
    let mut n = NC::default();
    match s.weighted(&[5, 2, 2, 1]) {
        0 => {
            let mut v = s.subset(&[1i64, 2, 3, 4], 1, 2);
            if v.is_empty() {
                v.push(1);
            }
            n.values = Some(v.into_iter().map(|i| VS::Val(T::int(i))).collect());
        }
        1 => n.kind = Some(*s.pick(&["iri", "literal", "nonliteral", "bnode"])),
        2 => n.dt = Some(xsd(*s.pick(&["integer", "string", "byte", "short"]))),
        _ => {
            let v = s.subset(&["a", "b", "c"], 1, 2);
            n.values = Some(if v.is_empty() { vec![VS::Val(T::ex("a"))] } else { v.into_iter().map(|i| VS::Val(T::ex(i))).collect() });
        }
    }
    n
}
pub fn value(s: &mut Src, k: &Knobs, depth: usize) -> Option<Box<SE>> {
    let w_ref = if k.refs { 6 } else { 0 };
    let w_nest = if k.nested && depth > 0 { 2 } else { 0 };
    let w_log = if k.logic && depth > 0 { 2 } else { 0 };
    match s.weighted(&[3, 5, w_ref, w_nest, w_log]) {
        0 => None,
        1 => Some(Box::new(SE::Nc(simple_nc(s)))),
        2 => Some(Box::new(SE::Ref(s.below(k.labels)))),
        3 => Some(Box::new(SE::Shape(shape(s, k, depth - 1)))),
        _ => Some(Box::new(se(s, k, depth - 1))),
    }
}
pub fn te(s: &mut Src, k: &Knobs, depth: usize, vdepth: usize) -> TE {
    let g = if depth > 0 { 3 } else { 0 };
    match s.weighted(&[4, g, g]) {
        0 => TE::Tc(Tc { pred: pred(s), inv: k.inverse && s.chance(1, 5), card: small_card(s), val: value(s, k, vdepth), notes: vec![] }),
        w => {
            let n = s.size(2, 3);
            let v = (0..n).map(|_| te(s, k, depth - 1, vdepth)).collect();
            let c = if s.chance(1, 2) { small_card(s) } else { (1, Some(1)) };
            if w == 1 { TE::Each(v, c) } else { TE::One(v, c) }
        }
    }
}
pub fn shape(s: &mut Src, k: &Knobs, vdepth: usize) -> Shape {
    let te_ = if s.chance(1, 12) { None } else { Some(te(s, k, k.depth.min(2), vdepth)) };
    let mut own = vec![];
    if let Some(t) = &te_ {
        let mut lv = vec![];
        flatten(t, &BTreeMap::new(), &mut lv);
        for x in lv {
            if !x.inv && !own.contains(&x.pred) {
                own.push(x.pred.clone());
            }
        }
    }
    Shape {
        closed: s.chance(1, 4),
        // EXTRA on a predicate that the expression does not mention is left out: readings differ
        extra: if s.chance(1, 3) { s.subset(&own, 2, 3) } else { vec![] },
        te: te_,
        extends: vec![],
    }
}
pub fn se(s: &mut Src, k: &Knobs, depth: usize) -> SE {
    let d = if k.logic && depth > 0 { 2 } else { 0 };
    let r = if k.refs { 2 } else { 0 };
    match s.weighted(&[6, 1, r, d, d, d]) {
        0 => SE::Shape(shape(s, k, depth)),
        1 => SE::Nc(simple_nc(s)),
        2 => SE::Ref(s.below(k.labels)),
        3 => SE::And((0..s.size(2, 3)).map(|_| se(s, k, depth - 1)).collect()),
        4 => SE::Or((0..s.size(2, 3)).map(|_| se(s, k, depth - 1)).collect()),
        _ => SE::Not(Box::new(se(s, k, depth - 1))),
    }
}
pub fn count_leaves(sch: &Schema) -> usize {
    let mut m = 0;
    let mut labels = BTreeMap::new();
    for d in &sch.decls {
        walk_se(&d.se, &mut |x| {
            if let SE::Shape(Shape { te: Some(t), .. }) = x {
                te_labels(t, &mut labels);
            }
        });
    }
    for d in &sch.decls {
        walk_se(&d.se, &mut |x| {
            if let SE::Shape(Shape { te: Some(t), .. }) = x {
                let mut v = vec![];
                flatten(t, &labels, &mut v);
                m = m.max(v.len());
            }
        });
    }
    m
}

/// A value that tends to satisfy the constraint.
pub fn sample(s: &mut Src, v: Option<&SE>) -> T {
    if s.chance(1, 6) {
        return any_value(s);
    }
    match v {
        Some(SE::Nc(n)) => {
            if let Some(vs) = &n.values {
                let t: Vec<T> = vs.iter().filter_map(|v| if let VS::Val(t) = v { Some(t.clone()) } else { None }).collect();
                if !t.is_empty() {
                    return s.picks(&t);
                }
            }
            for _ in 0..8 {
                let t = any_value(s);
                if nc_ok(n, &t) {
                    return t;
                }
            }
            any_value(s)
        }
        Some(SE::Ref(_)) | Some(SE::Shape(_)) => node(s),
        _ => any_value(s),
    }
}
pub const NODES: [&str; 4] = ["a", "b", "c", "d"];
pub fn node(s: &mut Src) -> T {
    let i = s.below(6);
    if i < 4 { T::ex(NODES[i]) } else { T::b(["x", "y"][i - 4]) }
}
pub fn any_value(s: &mut Src) -> T {
    match s.weighted(&[4, 4, 1, 1]) {
        0 => T::int(s.range(1, 5)),
        1 => node(s),
        2 => T::str(*s.pick(&["u", "v"])),
        _ => T::lang("u", "en"),
    }
}
/// Adds arcs of `n` produced by running the expression.
pub fn produce(s: &mut Src, t: &TE, n: &T, g: &mut G, labels: &BTreeMap<usize, &TE>, fuel: &mut usize) {
    let reps = |s: &mut Src, c: &Card| {
        let hi = c.1.unwrap_or(c.0 + 2).min(c.0 + 2);
        s.size(c.0, hi.max(c.0))
    };
    match t {
        TE::Tc(tc) => {
            for _ in 0..reps(s, &tc.card) {
                if *fuel == 0 {
                    return;
                }
                *fuel -= 1;
                if tc.inv {
                    let m = node(s);
                    g.add(m, &tc.pred, n.clone());
                } else {
                    let v = sample(s, tc.val.as_deref());
                    g.add(n.clone(), &tc.pred, v);
                }
            }
        }
        TE::Each(v, c) => {
            for _ in 0..reps(s, c).min(3) {
                for x in v {
                    produce(s, x, n, g, labels, fuel);
                }
            }
        }
        TE::One(v, c) => {
            for _ in 0..reps(s, c).min(3) {
                let x = s.pick(v);
                produce(s, x, n, g, labels, fuel);
            }
        }
        TE::Labelled(_, x) => produce(s, x, n, g, labels, fuel),
        TE::Incl(k) => produce(s, labels[k], n, g, labels, fuel),
    }
}
pub fn shapes_of(e: &SE) -> Vec<&Shape> {
    let mut v = vec![];
    walk_se(e, &mut |x| {
        if let SE::Shape(sh) = x {
            v.push(sh);
        }
    });
    v
}
/// Data in which every node imitates some shape of the schema, then perturbed.
pub fn data(s: &mut Src, sch: &Schema, per_node: usize) -> G {
    let mut g = G::default();
    let mut labels = BTreeMap::new();
    let mut all = vec![];
    for d in &sch.decls {
        walk_se(&d.se, &mut |x| {
            if let SE::Shape(sh) = x {
                if let Some(t) = &sh.te {
                    te_labels(t, &mut labels);
                }
                all.push(sh);
            }
        });
    }
    for i in 0..5 {
        let n = if i < 4 { T::ex(NODES[i]) } else { T::b("x") };
        if !all.is_empty() && s.chance(4, 5) {
            let sh = *s.pick(&all);
            if let Some(t) = &sh.te {
                produce(s, t, &n, &mut g, &labels, &mut per_node.clone());
            }
        }
        match s.weighted(&[5, 2, 2, 2]) {
            // another literal of the same value, here or there
            3 => {
                let all: Vec<Triple> = g.ts.iter().filter(|t| t.2.is_lit()).cloned().collect();
                if !all.is_empty() {
                    let t = s.picks(&all);
                    let v = hlib::lit::twin(s, &t.2);
                    let m = if s.flip() { t.0.clone() } else { n.clone() };
                    g.add(m, &t.1, v);
                    if s.flip() {
                        g.ts.remove(&t);
                    }
                }
            }
            1 => {
                let (p, v) = (pred(s), any_value(s));
                g.add(n.clone(), &p, v);
            }
            2 => {
                let mine: Vec<Triple> = g.ts.iter().filter(|t| t.0 == n).cloned().collect();
                if !mine.is_empty() {
                    let t = s.picks(&mine);
                    g.ts.remove(&t);
                }
            }
            _ => {}
        }
    }
    g
}
