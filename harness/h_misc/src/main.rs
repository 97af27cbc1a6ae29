//! Property graphs, DCTAP, conversions, comparisons, generation and sessions.
mod c18;
mod c20;
mod c22;
mod c23;
mod c24;
use common::*;
fn main() {
    main_with(vec![Prop {
        id: "C18",
        rule: "a case is a profile, its table and a graph; non-trivial when some node conforms to some shape and some does not (convert), or when there are several statements (read)",
        checks: vec![
            Check { name: "read", quick: 20000, thorough: 300000, f: c18::read },
            Check { name: "convert", quick: 16000, thorough: 200000, f: c18::convert },
        ],
        directed: vec![],
        assumptions: &[],
    }, Prop {
        id: "C20",
        rule: "a case is a schema, a property graph and a type map; non-trivial when some association conforms and some does not",
        checks: vec![
            Check { name: "validate", quick: 8000, thorough: 300000, f: c20::validate },
            Check { name: "expected", quick: 2000, thorough: 40000, f: c20::expected },
        ],
        directed: vec![Directed { name: "recursive-types", f: c20::recursive }, Directed { name: "graph-types", f: c20::graph_types }],
        assumptions: &[],
    }, Prop {
        id: "C22",
        rule: "a case is a document in one of the languages, mutated; non-trivial when it is accepted",
        checks: vec![
            Check { name: "mutated", quick: 60000, thorough: 1000000, f: c22::mutated },
        ],
        directed: vec![],
        assumptions: &[],
    }, Prop {
        id: "C23",
        rule: "a case is a history of operations on one session; non-trivial when it validates or queries and something loaded is replaced or added to",
        checks: vec![
            Check { name: "session", quick: 10000, thorough: 200000, f: c23::session },
        ],
        directed: vec![],
        assumptions: &[],
    }, Prop {
        id: "C24",
        rule: "a case is a schema with Map actions, data that conform to it and a target schema; non-trivial when several variables are bound and the materialized graph has several triples (map), or the tree has more than two triples (copy)",
        checks: vec![
            Check { name: "map", quick: 20000, thorough: 400000, f: c24::map },
            Check { name: "copy", quick: 10000, thorough: 200000, f: c24::copy },
        ],
        directed: vec![Directed { name: "endless", f: c24::endless }],
        assumptions: &[],
    }]);
}
