//! C01: regular bag expressions against a reference bag semantics.
use common::*;
use ::rbe::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashMap};

/// Reference expression. Symbols are 0..SYMS.
#[derive(Clone, Debug)]
enum E {
    Empty,
    Sym(usize, usize, Option<usize>),
    And(Vec<E>),
    Or(Vec<E>),
    Star(Box<E>),
    Plus(Box<E>),
    Opt(Box<E>),
    Rep(Box<E>, usize, Option<usize>),
}
type B = Vec<usize>;
const NAMES: [char; 5] = ['a', 'b', 'c', 'd', 'x'];

struct Oracle {
    memo: HashMap<(String, B), bool>,
}
impl Oracle {
    fn sub(&mut self, e: &E, v: &B, f: &mut dyn FnMut(&mut Oracle, &B, &B) -> bool) -> bool {
        // every split v = s + r with e accepting s
        let n = v.len();
        let mut s = vec![0; n];
        loop {
            let r: B = v.iter().zip(&s).map(|(a, b)| a - b).collect();
            if self.acc(e, &s) && f(self, &s, &r) {
                return true;
            }
            let mut i = 0;
            while i < n {
                if s[i] < v[i] {
                    s[i] += 1;
                    break;
                }
                s[i] = 0;
                i += 1;
            }
            if i == n {
                return false;
            }
        }
    }
    fn acc(&mut self, e: &E, v: &B) -> bool {
        match e {
            E::Empty => v.iter().all(|x| *x == 0),
            E::Sym(s, lo, hi) => {
                v.iter().enumerate().all(|(i, c)| i == *s || *c == 0) && v[*s] >= *lo && hi.is_none_or(|h| v[*s] <= h)
            }
            _ => {
                let k = (format!("{e:?}"), v.clone());
                if let Some(r) = self.memo.get(&k) {
                    return *r;
                }
                let r = match e {
                    E::And(es) => self.and(es, v),
                    E::Or(es) => es.iter().any(|x| self.acc(x, v)),
                    E::Opt(x) => v.iter().all(|c| *c == 0) || self.acc(x, v),
                    E::Star(x) => self.rep(x, 0, None, v),
                    E::Plus(x) => self.rep(x, 1, None, v),
                    E::Rep(x, lo, hi) => self.rep(x, *lo, *hi, v),
                    _ => unreachable!(),
                };
                self.memo.insert(k, r);
                r
            }
        }
    }
    fn and(&mut self, es: &[E], v: &B) -> bool {
        match es.len() {
            0 => v.iter().all(|c| *c == 0),
            1 => self.acc(&es[0], v),
            _ => self.sub(&es[0], v, &mut |me, _, r| me.and(&es[1..], r)),
        }
    }
    /// v is the sum of k bags of e for some k in lo..=hi
    fn rep(&mut self, e: &E, lo: usize, hi: Option<usize>, v: &B) -> bool {
        let zero = v.iter().all(|c| *c == 0);
        if zero {
            return lo == 0 || self.acc(e, v);
        }
        if hi == Some(0) {
            return false;
        }
        // one non-empty iteration, the rest is smaller; empty iterations can only fill up lo
        let lo1 = lo.saturating_sub(1);
        let hi1 = hi.map(|h| h - 1);
        self.sub(e, v, &mut |me, s, r| s.iter().any(|c| *c > 0) && me.rep(e, lo1, hi1, r))
    }
}
fn accepts(e: &E, v: &B) -> bool {
    Oracle { memo: HashMap::new() }.acc(e, v)
}

fn gen_card(s: &mut Src) -> (usize, Option<usize>) {
    match s.weighted(&[4, 3, 3, 3, 2, 2, 1, 2]) {
        0 => (1, Some(1)),
        1 => (0, Some(1)),
        2 => (0, None),
        3 => (1, None),
        4 => (s.below(3), None),
        5 => {
            let lo = s.below(3);
            (lo, Some(lo + s.below(3)))
        }
        6 => (0, Some(0)),
        _ => (2, Some(2 + s.below(2))),
    }
}
/// `fresh`: symbols not used yet (single occurrence expressions); None: any symbol.
fn gen_e(s: &mut Src, depth: usize, syms: usize, fresh: &mut Option<Vec<usize>>) -> E {
    let w: &[u64] = if depth == 0 { &[1, 8] } else { &[1, 8, 6, 6, 3, 3, 2, 4] };
    match s.weighted(w) {
        0 => E::Empty,
        1 => {
            let sym = match fresh {
                Some(f) => {
                    if f.is_empty() {
                        return E::Empty;
                    }
                    let i = s.below(f.len());
                    f.remove(i)
                }
                None => s.below(syms),
            };
            let (lo, hi) = gen_card(s);
            E::Sym(sym, lo, hi)
        }
        k @ (2 | 3) => {
            let n = s.size(1, 3);
            let es = (0..n).map(|_| gen_e(s, depth - 1, syms, fresh)).collect();
            if k == 2 { E::And(es) } else { E::Or(es) }
        }
        4 => E::Star(Box::new(gen_e(s, depth - 1, syms, fresh))),
        5 => E::Plus(Box::new(gen_e(s, depth - 1, syms, fresh))),
        6 => E::Opt(Box::new(gen_e(s, depth - 1, syms, fresh))),
        _ => {
            let e = gen_e(s, depth - 1, syms, fresh);
            let (lo, hi) = gen_card(s);
            E::Rep(Box::new(e), lo, hi)
        }
    }
}
fn mx(h: &Option<usize>) -> Max {
    match h {
        Some(h) => Max::IntMax(*h),
        None => Max::Unbounded,
    }
}
fn to_rbe<A: std::hash::Hash + Eq + std::fmt::Display + Clone + std::fmt::Debug>(e: &E, f: &dyn Fn(usize) -> A) -> RbeStruct<A> {
    match e {
        E::Empty => RbeStruct::empty(),
        E::Sym(s, lo, hi) => RbeStruct::symbol(f(*s), *lo, mx(hi)),
        E::And(es) => RbeStruct::and(es.iter().map(|x| to_rbe(x, f))),
        E::Or(es) => RbeStruct::or(es.iter().map(|x| to_rbe(x, f))),
        E::Star(x) => RbeStruct::star(to_rbe(x, f)),
        E::Plus(x) => RbeStruct::plus(to_rbe(x, f)),
        E::Opt(x) => RbeStruct::opt(to_rbe(x, f)),
        E::Rep(x, lo, hi) => RbeStruct::repeat(to_rbe(x, f), *lo, mx(hi)),
    }
}
fn size_syms(e: &E, out: &mut Vec<usize>) {
    match e {
        E::Empty => {}
        E::Sym(s, ..) => out.push(*s),
        E::And(es) | E::Or(es) => es.iter().for_each(|x| size_syms(x, out)),
        E::Star(x) | E::Plus(x) | E::Opt(x) | E::Rep(x, ..) => size_syms(x, out),
    }
}
fn has_group_repeat(e: &E) -> bool {
    match e {
        E::Empty | E::Sym(..) => false,
        E::And(es) | E::Or(es) => es.iter().any(has_group_repeat),
        E::Star(x) | E::Plus(x) | E::Opt(x) => has_group_repeat(x),
        E::Rep(..) => true,
    }
}
/// A bag the expression is likely to accept: run the expression as a generator.
fn gen_from(s: &mut Src, e: &E, out: &mut B, fuel: &mut usize) {
    match e {
        E::Empty => {}
        E::Sym(x, lo, hi) => {
            let extra = hi.map(|h| h - lo).unwrap_or(2).min(2);
            out[*x] += lo + s.below(extra + 1);
        }
        E::And(es) => es.iter().for_each(|x| gen_from(s, x, out, fuel)),
        E::Or(es) => {
            let i = s.below(es.len());
            gen_from(s, &es[i], out, fuel)
        }
        E::Opt(x) => {
            if s.flip() {
                gen_from(s, x, out, fuel)
            }
        }
        E::Star(x) => rep_from(s, x, 0, 2, out, fuel),
        E::Plus(x) => rep_from(s, x, 1, 2, out, fuel),
        E::Rep(x, lo, hi) => rep_from(s, x, *lo, hi.unwrap_or(lo + 2).min(lo + 2), out, fuel),
    }
}
fn rep_from(s: &mut Src, e: &E, lo: usize, hi: usize, out: &mut B, fuel: &mut usize) {
    let n = lo + s.below(hi.saturating_sub(lo) + 1);
    for _ in 0..n {
        if *fuel == 0 {
            return;
        }
        *fuel -= 1;
        gen_from(s, e, out, fuel);
    }
}
fn gen_bag(s: &mut Src, e: &E, n: usize, max: usize) -> B {
    let mut v = vec![0; n];
    if s.chance(2, 3) {
        let mut fuel = 6;
        gen_from(s, e, &mut v, &mut fuel);
        // perturb
        if s.flip() {
            let i = s.below(n);
            match s.below(2) {
                0 => v[i] += 1,
                _ => v[i] = v[i].saturating_sub(1),
            }
        }
        v.iter_mut().for_each(|c| *c = (*c).min(max));
    } else {
        v.iter_mut().for_each(|c| *c = s.below(4));
    }
    v
}
fn to_bag(v: &B) -> Bag<char> {
    let mut b = Bag::new();
    for (i, c) in v.iter().enumerate() {
        for _ in 0..*c {
            b.insert(NAMES[i]);
        }
    }
    b
}
fn expr_for(s: &mut Src, c: &mut Case, single: bool) -> (E, usize) {
    let syms = s.size(1, 3);
    let sore = single || s.chance(1, 2);
    let mut fresh = if sore { Some((0..syms).collect()) } else { None };
    let d = s.size(0, 3);
    let e = gen_e(s, d, syms, &mut fresh);
    let mut v = vec![];
    size_syms(&e, &mut v);
    c.label(if sore { "single-occurrence" } else { "shared symbols" });
    c.label_if(has_group_repeat(&e), "group with {m,n}");
    c.nontrivial = v.len() >= 2 || !matches!(e, E::Empty | E::Sym(..));
    (e, syms)
}

/// closed and open matching, both algorithms
fn check_match(s: &mut Src, c: &mut Case) -> Outcome {
    let (e, syms) = expr_for(s, c, false);
    if { let mut v = vec![]; size_syms(&e, &mut v); v.len() } > 6 {
        return Outcome::Discard("more than 6 symbol occurrences (derivatives explode)");
    }
    let mut v = gen_bag(s, &e, syms, 4);
    if v.iter().sum::<usize>() > 8 {
        v.iter_mut().for_each(|c| *c = (*c).min(2));
    }
    let open = s.chance(1, 4);
    let mut used = vec![];
    size_syms(&e, &mut used);
    // symbols the expression does not mention
    let foreign: usize = if s.chance(1, 5) { 1 + s.below(2) } else { 0 };
    let mut expected = accepts(&e, &v);
    let mut bag = to_bag(&v);
    let unmentioned = (0..syms).any(|i| v[i] > 0 && !used.contains(&i));
    for _ in 0..foreign {
        bag.insert('x');
    }
    if open {
        let v2: B = v.iter().enumerate().map(|(i, c)| if used.contains(&i) { *c } else { 0 }).collect();
        expected = accepts(&e, &v2);
    } else if foreign > 0 {
        expected = false;
    }
    let r = to_rbe(&e, &|i| NAMES[i]);
    c.desc = format!("{} bag={bag} open={open}", r);
    c.label(if expected { "accepted" } else { "rejected" });
    c.label_if(open, "open");
    c.label_if(open && (foreign > 0 || unmentioned), "open with extra symbols");
    for (name, alg) in [("derivatives", RbeAlgorithm::Derivatives), ("interval", RbeAlgorithm::Interval)] {
        let got = r.match_bag(&bag, open, alg).is_ok();
        if got != expected {
            return fail(format!("match-{name}"), format!("{name}: got {got}, the bag semantics says {expected}"));
        }
    }
    let n = r.nullable();
    let en = accepts(&e, &vec![0; syms]);
    if n != en {
        return fail("nullable", format!("nullable: got {n}, expected {en}"));
    }
    // a plain expression rebuilt from its inner form, and through serialisation, is the same language
    let r2: RbeStruct<char> = RbeStruct::from(r.inner_rbe().clone());
    let r3: Result<RbeStruct<char>, _> = serde_json::to_string(&r).and_then(|t| serde_json::from_str(&t));
    let r3 = match r3 {
        Ok(r) => r,
        Err(e) => return fail("serde", format!("serialised expression does not load: {e}")),
    };
    for (n, x) in [("rebuilt", r2), ("deserialised", r3)] {
        let got = x.match_bag(&bag, open, RbeAlgorithm::Interval).is_ok();
        if got != expected {
            return fail(format!("match-{n}"), format!("{n}: got {got}, expected {expected}"));
        }
    }
    Outcome::Pass
}

fn check_feasible(s: &mut Src, c: &mut Case) -> Outcome {
    let (e, syms) = expr_for(s, c, true);
    let mut lo = gen_bag(s, &e, syms, 3);
    let mut hi = lo.clone();
    for i in 0..syms {
        match s.below(4) {
            0 => hi[i] += 1,
            1 => hi[i] += 2,
            2 => {
                hi[i] += s.below(2);
                lo[i] = 0
            }
            _ => {}
        }
    }
    let r = to_rbe(&e, &|i| NAMES[i]);
    c.desc = format!("{} lo={lo:?} hi={hi:?}", r);
    let mk = |v: &B| -> HashMap<char, usize> { v.iter().enumerate().map(|(i, c)| (NAMES[i], *c)).collect() };
    let got = r.feasible(&mk(&lo), &mk(&hi));
    c.label(if got { "feasible" } else { "refuted" });
    if got {
        return Outcome::Pass;
    }
    // refuted: no bag between lo and hi may be accepted
    let mut v = lo.clone();
    let mut rf = Oracle { memo: HashMap::new() };
    loop {
        if rf.acc(&e, &v) {
            return fail("feasible-unsound", format!("refuted although bag {v:?} is accepted"));
        }
        let mut i = 0;
        while i < syms {
            if v[i] < hi[i] {
                v[i] += 1;
                break;
            }
            v[i] = lo[i];
            i += 1;
        }
        if i == syms {
            return Outcome::Pass;
        }
    }
}

// ---------- tables ----------
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default, Serialize, Deserialize)]
struct S(String);
impl std::fmt::Display for S {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Key for S {}
impl Value for S {}
impl ::rbe::Ref for S {}
impl Context for S {}
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum K {
    In(Vec<String>),
    Pending(String),
}
impl MatchKind<S, S, S, S> for K {
    fn eval(&self, v: &S, _c: &S) -> Result<Pending<S, S, S>, RbeError<S, S, S, S, Self>> {
        match self {
            K::In(vs) if vs.contains(&v.0) => Ok(Pending::empty()),
            K::In(_) => Err(RbeError::MsgError { msg: "no".into() }),
            K::Pending(r) => Ok(Pending::from_pair(v.clone(), S(r.clone()))),
        }
    }
}
type Cond = MatchCond<S, S, S, S, K>;
#[derive(Clone, Debug)]
enum C {
    In(Vec<usize>),
    Ref(usize),
    PRef(usize),
    And(Vec<C>),
    Any,
}
fn gen_c(s: &mut Src, depth: usize) -> C {
    match s.weighted(if depth == 0 { &[5, 3, 2, 1] } else { &[5, 3, 2, 1, 2] }) {
        0 => C::In(s.subset(&[0, 1, 2], 1, 2)),
        1 => C::Ref(s.below(2)),
        2 => C::PRef(s.below(2)),
        3 => C::Any,
        _ => C::And((0..s.size(1, 2)).map(|_| gen_c(s, depth - 1)).collect()),
    }
}
fn vname(i: usize) -> S {
    S(format!("v{i}"))
}
fn to_cond(c: &C) -> Cond {
    match c {
        C::In(vs) => MatchCond::single(SingleCond::new().with_kind(K::In(vs.iter().map(|i| vname(*i).0).collect()))),
        C::Ref(r) => MatchCond::ref_(S(format!("r{r}"))),
        C::PRef(r) => MatchCond::single(SingleCond::new().with_kind(K::Pending(format!("r{r}")))),
        C::And(cs) => MatchCond::and(cs.iter().map(to_cond).collect()),
        C::Any => MatchCond::empty(),
    }
}
/// None: the value does not satisfy the condition. Some: the references left to check.
fn cond_ref(c: &C, v: usize) -> Option<BTreeSet<usize>> {
    match c {
        C::In(vs) => vs.contains(&v).then(BTreeSet::new),
        C::Ref(r) | C::PRef(r) => Some([*r].into()),
        C::Any => Some(BTreeSet::new()),
        C::And(cs) => cs.iter().try_fold(BTreeSet::new(), |mut acc, x| {
            acc.extend(cond_ref(x, v)?);
            Some(acc)
        }),
    }
}

/// Renumbers the symbols of an expression so that each occurrence is its own component.
fn number(e: &E, n: &mut usize) -> E {
    match e {
        E::Empty => E::Empty,
        E::Sym(_, lo, hi) => {
            *n += 1;
            E::Sym(*n - 1, *lo, *hi)
        }
        E::And(es) => E::And(es.iter().map(|x| number(x, n)).collect()),
        E::Or(es) => E::Or(es.iter().map(|x| number(x, n)).collect()),
        E::Star(x) => E::Star(Box::new(number(x, n))),
        E::Plus(x) => E::Plus(Box::new(number(x, n))),
        E::Opt(x) => E::Opt(Box::new(number(x, n))),
        E::Rep(x, lo, hi) => E::Rep(Box::new(number(x, n)), *lo, *hi),
    }
}

type PairSet = BTreeSet<(String, String)>;
fn check_table(s: &mut Src, c: &mut Case) -> Outcome {
    let d = s.size(0, 3);
    let e0 = gen_e(s, d, 4, &mut None);
    let mut n = 0;
    let e = number(&e0, &mut n);
    if n == 0 || n > 5 {
        return Outcome::Discard("no component or more than five");
    }
    let nk = s.size(1, 2);
    let comps: Vec<(usize, C)> = (0..n).map(|_| (s.below(nk), gen_c(s, 1))).collect();
    let nv = s.below(5);
    // a neighbourhood is a set of (key, value) pairs
    let mut vals: Vec<(usize, usize)> = vec![];
    for _ in 0..nv {
        let p = if s.chance(7, 8) { (s.picks(&comps).0, s.below(3)) } else { (s.below(3), s.below(3)) };
        if !vals.contains(&p) {
            vals.push(p);
        }
    }
    let mut t: RbeTable<S, S, S, S, K> = RbeTable::new();
    let mut ids = vec![];
    for (k, cnd) in &comps {
        ids.push(t.add_component(S(format!("k{k}")), &to_cond(cnd)));
    }
    t.with_rbe(to_rbe(&e, &|i| ids[i]));
    let values: Vec<(S, S, S)> = vals.iter().map(|(k, v)| (S(format!("k{k}")), vname(*v), S::default())).collect();
    c.desc = format!("rbe={} comps={comps:?} values={vals:?}", to_rbe(&e, &|i| i));

    // reference: every assignment of values to components of their key that satisfies the
    // conditions and the expression; values whose key has no component make it fail
    let mut expected: BTreeSet<PairSet> = BTreeSet::new();
    let mut rf = Oracle { memo: HashMap::new() };
    fn rec(i: usize, vals: &[(usize, usize)], comps: &[(usize, C)], e: &E, cnt: &mut B, pend: &mut Vec<(usize, usize)>, rf: &mut Oracle, out: &mut BTreeSet<PairSet>) {
        if i == vals.len() {
            if rf.acc(e, cnt) {
                out.insert(pend.iter().map(|(v, r)| (vname(*v).0, format!("r{r}"))).collect());
            }
            return;
        }
        for (j, (k, cnd)) in comps.iter().enumerate() {
            if *k == vals[i].0
                && let Some(rs) = cond_ref(cnd, vals[i].1)
            {
                cnt[j] += 1;
                let l = pend.len();
                pend.extend(rs.iter().map(|r| (vals[i].1, *r)));
                rec(i + 1, vals, comps, e, cnt, pend, rf, out);
                pend.truncate(l);
                cnt[j] -= 1;
            }
        }
    }
    rec(0, &vals, &comps, &e, &mut vec![0; n], &mut vec![], &mut rf, &mut expected);
    let foreign = vals.iter().any(|(k, _)| !comps.iter().any(|(k2, _)| k2 == k));
    c.nontrivial = n >= 2 && !vals.is_empty();
    c.label(if expected.is_empty() { "no assignment" } else if expected.len() == 1 { "one outcome" } else { "several outcomes" });
    c.label_if(foreign, "value with foreign key");
    let mut got: BTreeSet<PairSet> = BTreeSet::new();
    match t.matches(values.clone()) {
        Ok(it) => {
            for (steps, r) in it.enumerate() {
                if steps > 20000 {
                    return fail("table-endless", "the table iterator does not end");
                }
                if let Ok(p) = r {
                    got.insert(p.iter_vr().map(|(v, r, _)| (v.0.clone(), r.0.clone())).collect());
                }
            }
        }
        Err(e) => return fail("table-error", format!("matches returned an error: {e}")),
    }
    // A value whose key the table does not know never reaches the table from its callers
    // (they pre-filter on the expression's predicates), so only compare without such values.
    if !foreign && got != expected {
        return fail("table-outcomes", format!("outcomes {got:?}\nexpected {expected:?}"));
    }
    if !expected.is_empty() && !t.feasible_neighs(&values) {
        return fail("table-feasible-unsound", "feasible_neighs refutes a matching neighbourhood");
    }
    Outcome::Pass
}

fn directed(e: E, v: &[usize], expect: bool) -> Result<(), String> {
    let r = to_rbe(&e, &|i| NAMES[i]);
    let bag = to_bag(&v.to_vec());
    for (n, a) in [("derivatives", RbeAlgorithm::Derivatives), ("interval", RbeAlgorithm::Interval)] {
        let got = r.match_bag(&bag, false, a).is_ok();
        if got != expect {
            return Err(format!("{n}: {r} with {bag}: got {got}, expected {expect}"));
        }
    }
    Ok(())
}

fn main() {
    main_with(vec![Prop {
        id: "C01",
        rule: "expressions of depth <=3 over 1-3 symbols (single-occurrence or shared) with every operator and cardinality, bags produced by running the expression as a generator and perturbing it; tables of <=5 components over 1-2 keys with up to 4 distinct values. Non-trivial: the expression has an operator (match, feasible) or the table has >=2 components and a value.",
        checks: vec![
            Check { name: "match", quick: 150_000, thorough: 3_000_000, f: check_match },
            Check { name: "feasible", quick: 150_000, thorough: 3_000_000, f: check_feasible },
            Check { name: "table", quick: 100_000, thorough: 2_000_000, f: check_table },
        ],
        directed: vec![
            Directed { name: "nested-repeat-under-star", f: || {
                let a23 = E::Rep(Box::new(E::Sym(0, 1, Some(1))), 2, Some(3));
                directed(E::Star(Box::new(a23)), &[4, 0], true)
            } },
            Directed { name: "zero-zero-repeat", f: || {
                directed(E::And(vec![E::Rep(Box::new(E::And(vec![E::Sym(0, 1, Some(1)), E::Sym(1, 1, Some(1))])), 0, Some(0)), E::Sym(1, 1, Some(1))]), &[0, 2], false)
            } },
        ],
        assumptions: &["the reference bag semantics in h_rbe (exhaustive splitting) is the intended meaning", "table values with a key that no component has are outside the table's domain: its callers filter them"],
    }]);
}
