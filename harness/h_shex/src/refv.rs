//! Reference ShEx validator: declarative semantics, exhaustive matching, greatest fixpoint per
//! stratum.
use crate::model::*;
use crate::nc::nc_ok;
use hlib::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// Leaf expression: the triple constraints are numbered, the structure is a bag expression.
#[derive(Clone, Debug)]
pub enum BE {
    Leaf(usize),
    Each(Vec<BE>, Card),
    One(Vec<BE>, Card),
}
type V = Vec<u8>;

#[allow(dead_code)]
pub struct Flat<'a> {
    pub leaves: Vec<&'a Tc>,
    pub be: BE,
}
pub fn flatten<'a>(t: &'a TE, labels: &BTreeMap<usize, &'a TE>, leaves: &mut Vec<&'a Tc>) -> BE {
    match t {
        TE::Tc(tc) => {
            leaves.push(tc);
            BE::Leaf(leaves.len() - 1)
        }
        TE::Each(v, c) => BE::Each(v.iter().map(|x| flatten(x, labels, leaves)).collect(), *c),
        TE::One(v, c) => BE::One(v.iter().map(|x| flatten(x, labels, leaves)).collect(), *c),
        TE::Labelled(_, x) => flatten(x, labels, leaves),
        TE::Incl(k) => flatten(labels[k], labels, leaves),
    }
}
pub fn te_labels<'a>(t: &'a TE, m: &mut BTreeMap<usize, &'a TE>) {
    match t {
        TE::Each(v, _) | TE::One(v, _) => v.iter().for_each(|x| te_labels(x, m)),
        TE::Labelled(k, x) => {
            m.insert(*k, x);
            te_labels(x, m);
        }
        _ => {}
    }
}
pub fn walk_se<'a>(s: &'a SE, f: &mut dyn FnMut(&'a SE)) {
    f(s);
    match s {
        SE::And(v) | SE::Or(v) => v.iter().for_each(|x| walk_se(x, f)),
        SE::Not(x) => walk_se(x, f),
        SE::Shape(Shape { te: Some(t), .. }) => walk_te(t, f),
        _ => {}
    }
}
fn walk_te<'a>(t: &'a TE, f: &mut dyn FnMut(&'a SE)) {
    match t {
        TE::Each(v, _) | TE::One(v, _) => v.iter().for_each(|x| walk_te(x, f)),
        TE::Labelled(_, x) => walk_te(x, f),
        TE::Tc(tc) => {
            if let Some(v) = &tc.val {
                walk_se(v, f)
            }
        }
        TE::Incl(_) => {}
    }
}

/// Every vector accepted by the expression and bounded by `b`.
fn lang(e: &BE, leaves: &[&Tc], b: &V, memo: &mut HashMap<*const BE, HashSet<V>>) -> HashSet<V> {
    if let Some(s) = memo.get(&(e as *const BE)) {
        return s.clone();
    }
    let zero = vec![0u8; b.len()];
    let r = match e {
        BE::Leaf(i) => {
            let (lo, hi) = leaves[*i].card;
            (0..=b[*i])
                .filter(|k| (*k as usize) >= lo && hi.is_none_or(|h| *k as usize <= h))
                .map(|k| {
                    let mut z = zero.clone();
                    z[*i] = k;
                    z
                })
                .collect()
        }
        BE::Each(v, c) => {
            let mut acc: HashSet<V> = [zero.clone()].into();
            for x in v {
                acc = sum(&acc, &lang(x, leaves, b, memo), b);
            }
            rep(&acc, c, b)
        }
        BE::One(v, c) => {
            let mut acc = HashSet::new();
            for x in v {
                acc.extend(lang(x, leaves, b, memo));
            }
            rep(&acc, c, b)
        }
    };
    memo.insert(e as *const BE, r.clone());
    r
}
fn sum(a: &HashSet<V>, c: &HashSet<V>, b: &V) -> HashSet<V> {
    let mut out = HashSet::new();
    for x in a {
        for y in c {
            let z: V = x.iter().zip(y).map(|(p, q)| p + q).collect();
            if z.iter().zip(b).all(|(p, q)| p <= q) {
                out.insert(z);
            }
        }
    }
    out
}
fn rep(base: &HashSet<V>, c: &Card, b: &V) -> HashSet<V> {
    if *c == (1, Some(1)) {
        return base.clone();
    }
    let mut cur: HashSet<V> = [vec![0u8; b.len()]].into();
    let mut out = HashSet::new();
    let mut seen: Vec<HashSet<V>> = vec![];
    let mut k = 0;
    loop {
        if k >= c.0 {
            out.extend(cur.iter().cloned());
        }
        if c.1.is_some_and(|h| k >= h) || cur.is_empty() {
            break;
        }
        if k >= c.0 && seen.contains(&cur) {
            break;
        }
        seen.push(cur.clone());
        cur = sum(&cur, base, b);
        k += 1;
        if k > 40 {
            break;
        }
    }
    out
}

#[derive(Default)]
pub struct Stats {
    /// incoming arcs that match but are left over: readings of the specification differ
    pub ambiguous: bool,
    pub disjoint_choice: bool,
}

pub struct Ref<'a> {
    pub sch: &'a Schema,
    pub g: &'a G,
    pub nodes: Vec<T>,
    pub labels: BTreeMap<usize, &'a TE>,
    /// current approximation: (node, label) pairs that conform
    pub typing: BTreeSet<(T, usize)>,
    pub stats: Stats,
}

/// label -> (label, negative?)
pub fn deps(sch: &Schema, l: usize) -> BTreeSet<(usize, bool)> {
    let mut labels = BTreeMap::new();
    for d in &sch.decls {
        walk_se(&d.se, &mut |s| {
            if let SE::Shape(Shape { te: Some(t), .. }) = s {
                te_labels(t, &mut labels);
            }
        });
    }
    fn se(s: &SE, neg: bool, labels: &BTreeMap<usize, &TE>, out: &mut BTreeSet<(usize, bool)>) {
        match s {
            SE::And(v) | SE::Or(v) => v.iter().for_each(|x| se(x, neg, labels, out)),
            SE::Not(x) => se(x, !neg, labels, out),
            SE::Ref(i) => {
                out.insert((*i, neg));
            }
            SE::Nc(_) => {}
            SE::Shape(sh) => {
                for e in &sh.extends {
                    out.insert((*e, neg));
                }
                if let Some(t) = &sh.te {
                    let mut lv = vec![];
                    flatten(t, labels, &mut lv);
                    for tc in lv {
                        if let Some(v) = &tc.val {
                            se(v, neg, labels, out);
                            if !tc.inv && sh.extra.contains(&tc.pred) {
                                se(v, !neg, labels, out);
                            }
                        }
                    }
                }
            }
        }
    }
    let mut out = BTreeSet::new();
    se(&sch.decls[l].se, false, &labels, &mut out);
    out
}
pub fn sccs(sch: &Schema) -> (Vec<Vec<usize>>, bool) {
    let n = sch.decls.len();
    let d: Vec<_> = (0..n).map(|l| deps(sch, l)).collect();
    let mut reach = vec![vec![false; n]; n];
    for i in 0..n {
        reach[i][i] = true;
        for (j, _) in &d[i] {
            reach[i][*j] = true;
        }
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                if reach[i][k] && reach[k][j] {
                    reach[i][j] = true;
                }
            }
        }
    }
    let mut neg = false;
    for i in 0..n {
        for (j, ng) in &d[i] {
            if *ng && reach[*j][i] {
                neg = true;
            }
        }
    }
    let mut comps: Vec<Vec<usize>> = vec![];
    let mut done = vec![false; n];
    while done.iter().any(|x| !x) {
        // a component all of whose outside dependencies are done
        let i = (0..n)
            .find(|i| !done[*i] && (0..n).all(|j| !reach[*i][j] || done[j] || reach[j][*i]))
            .unwrap();
        let c: Vec<usize> = (0..n).filter(|j| reach[i][*j] && reach[*j][i]).collect();
        for j in &c {
            done[*j] = true;
        }
        comps.push(c);
    }
    (comps, neg)
}

/// Size of the largest set of (node, label) pairs that depend on each other. Validation of mutually
/// dependent pairs takes exponential time, so generated cases keep it small.
pub fn knot(sch: &Schema, g: &G, nodes: &[T]) -> usize {
    let mut labels = BTreeMap::new();
    for d in &sch.decls {
        walk_se(&d.se, &mut |s| {
            if let SE::Shape(Shape { te: Some(t), .. }) = s {
                te_labels(t, &mut labels);
            }
        });
    }
    /// (node, shape expression) -> pairs it looks at
    fn go(n: &T, s: &SE, g: &G, labels: &BTreeMap<usize, &TE>, out: &mut BTreeSet<(T, usize)>, fuel: usize) {
        match s {
            SE::And(v) | SE::Or(v) => v.iter().for_each(|x| go(n, x, g, labels, out, fuel)),
            SE::Not(x) => go(n, x, g, labels, out, fuel),
            SE::Ref(i) => {
                out.insert((n.clone(), *i));
            }
            SE::Nc(_) => {}
            SE::Shape(sh) => {
                for e in &sh.extends {
                    out.insert((n.clone(), *e));
                }
                if let Some(t) = &sh.te {
                    let mut lv = vec![];
                    flatten(t, labels, &mut lv);
                    for tc in lv {
                        if let Some(v) = &tc.val {
                            for (a, p, b) in &g.ts {
                                let (me, other) = if tc.inv { (b, a) } else { (a, b) };
                                if me == n && *p == tc.pred && fuel > 0 {
                                    go(other, v, g, labels, out, fuel - 1);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let mut ns: BTreeSet<T> = g.nodes();
    ns.extend(nodes.iter().cloned());
    let mut atoms: Vec<(T, usize)> = vec![];
    for n in &ns {
        for l in 0..sch.decls.len() {
            atoms.push((n.clone(), l));
        }
    }
    let ix: HashMap<(T, usize), usize> = atoms.iter().cloned().enumerate().map(|(i, a)| (a, i)).collect();
    let k = atoms.len();
    let mut reach = vec![vec![false; k]; k];
    for (i, (n, l)) in atoms.iter().enumerate() {
        let mut out = BTreeSet::new();
        go(n, &sch.decls[*l].se, g, &labels, &mut out, 6);
        for o in out {
            reach[i][ix[&o]] = true;
        }
    }
    for m in 0..k {
        for i in 0..k {
            if reach[i][m] {
                for j in 0..k {
                    if reach[m][j] {
                        reach[i][j] = true;
                    }
                }
            }
        }
    }
    (0..k).map(|i| (0..k).filter(|j| reach[i][*j] && reach[*j][i]).count()).max().unwrap_or(0)
}

impl<'a> Ref<'a> {
    pub fn new(sch: &'a Schema, g: &'a G, focus: &[T]) -> Ref<'a> {
        let mut nodes = g.nodes();
        nodes.extend(focus.iter().cloned());
        let mut labels = BTreeMap::new();
        for d in &sch.decls {
            walk_se(&d.se, &mut |s| {
                if let SE::Shape(Shape { te: Some(t), .. }) = s {
                    te_labels(t, &mut labels);
                }
            });
        }
        Ref { sch, g, nodes: nodes.into_iter().collect(), labels, typing: BTreeSet::new(), stats: Stats::default() }
    }
    /// Fills the typing. The schema must be stratified.
    pub fn solve(&mut self) {
        let (comps, _) = sccs(self.sch);
        for c in comps {
            for l in &c {
                for n in &self.nodes {
                    self.typing.insert((n.clone(), *l));
                }
            }
            loop {
                let mut drop = vec![];
                for l in &c {
                    for n in self.nodes.clone() {
                        if self.typing.contains(&(n.clone(), *l)) && !self.ok(&n, &self.sch.decls[*l].se) {
                            drop.push((n.clone(), *l));
                        }
                    }
                }
                if drop.is_empty() {
                    break;
                }
                for d in drop {
                    self.typing.remove(&d);
                }
            }
        }
    }
    pub fn ok(&mut self, n: &T, s: &SE) -> bool {
        match s {
            SE::And(v) => v.iter().all(|x| self.ok(n, x)),
            SE::Or(v) => v.iter().any(|x| self.ok(n, x)),
            SE::Not(x) => !self.ok(n, x),
            SE::Ref(i) => self.typing.contains(&(n.clone(), *i)),
            SE::Nc(c) => nc_ok(c, n),
            SE::Shape(sh) => self.shape(n, sh),
        }
    }
    fn shape(&mut self, n: &T, sh: &Shape) -> bool {
        let mut leaves = vec![];
        let be = match &sh.te {
            None => BE::Each(vec![], (1, Some(1))),
            Some(t) => {
                let lab = self.labels.clone();
                flatten(t, &lab, &mut leaves)
            }
        };
        // arcs that mention a predicate of the expression
        let mut arcs: Vec<Vec<usize>> = vec![];
        let mut optional = vec![];
        let triples: Vec<Triple> = self.g.ts.iter().cloned().collect();
        for (s, p, o) in &triples {
            if s == n {
                let mine: Vec<usize> = (0..leaves.len()).filter(|i| !leaves[*i].inv && leaves[*i].pred == *p).collect();
                if mine.is_empty() {
                    if sh.closed {
                        return false;
                    }
                } else {
                    let m: Vec<usize> = mine.into_iter().filter(|i| leaves[*i].val.as_ref().is_none_or(|v| self.ok(o, v))).collect();
                    if m.is_empty() {
                        if !sh.extra.contains(p) {
                            return false;
                        }
                    } else {
                        arcs.push(m);
                        optional.push(false);
                    }
                }
            }
            if o == n {
                let mine: Vec<usize> = (0..leaves.len()).filter(|i| leaves[*i].inv && leaves[*i].pred == *p).collect();
                if !mine.is_empty() {
                    let m: Vec<usize> = mine.into_iter().filter(|i| leaves[*i].val.as_ref().is_none_or(|v| self.ok(s, v))).collect();
                    // The specification constrains left-over outgoing arcs only.
                    arcs.push(m);
                    optional.push(true);
                }
            }
        }
        if arcs.iter().any(|m| m.len() > 1) {
            self.stats.disjoint_choice = true;
        }
        let zero = vec![0u8; leaves.len()];
        let mut bound = zero.clone();
        for m in &arcs {
            for i in m {
                bound[*i] += 1;
            }
        }
        let lan = lang(&be, &leaves, &bound, &mut HashMap::new());
        let reach = |strict: bool| -> HashSet<V> {
            let mut cur: HashSet<V> = [zero.clone()].into();
            for (m, opt) in arcs.iter().zip(&optional) {
                let mut nx = HashSet::new();
                for v in &cur {
                    for i in m {
                        let mut z = v.clone();
                        z[*i] += 1;
                        nx.insert(z);
                    }
                    if *opt && !strict {
                        nx.insert(v.clone());
                    }
                }
                cur = nx;
            }
            cur
        };
        let strict = reach(true).iter().any(|v| lan.contains(v));
        if optional.iter().any(|o| *o) {
            let lax = reach(false).iter().any(|v| lan.contains(v));
            if lax != strict {
                self.stats.ambiguous = true;
            }
        }
        strict
    }
}
