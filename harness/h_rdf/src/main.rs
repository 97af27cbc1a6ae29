//! RDF data: formats, graphs and queries.
mod c08;
mod c13;
mod c14;
mod c16;
mod c17;
mod c21;
mod docs;
mod sparql;
use common::*;
fn main() {
    // the checks of C21 wait for answers most of the time
    if std::env::args().any(|a| a == "C21") {
        THREADS.store(64, std::sync::atomic::Ordering::SeqCst);
    }
    main_with(vec![Prop {
        id: "C08",
        rule: "a case is a graph, a schema and a shape map; non-trivial when the map selects at least two pairs",
        checks: vec![
            Check { name: "maps", quick: 30000, thorough: 600000, f: c08::maps },
            Check { name: "formats", quick: 10000, thorough: 200000, f: c08::formats },
        ],
        directed: vec![],
        assumptions: &[],
    }, Prop {
        id: "C13",
        rule: "a case is one graph with a document for it in one syntax, or a history of documents; non-trivial with two statements or two loads",
        checks: vec![
            Check { name: "read", quick: 60000, thorough: 1500000, f: c13::read },
            Check { name: "write", quick: 40000, thorough: 1000000, f: c13::write },
            Check { name: "merge", quick: 15000, thorough: 300000, f: c13::merge },
            Check { name: "malformed", quick: 10000, thorough: 100000, f: c13::malformed },
        ],
        directed: vec![],
        assumptions: &[],
    }, Prop {
        id: "C14",
        rule: "a case is a graph with questions or a history of changes; non-trivial with three triples or changes",
        checks: vec![
            Check { name: "queries", quick: 60000, thorough: 1000000, f: c14::queries },
            Check { name: "history", quick: 30000, thorough: 500000, f: c14::history },
        ],
        directed: vec![],
        assumptions: &[],
    }, Prop {
        id: "C16",
        rule: "a case is a document with prefixes, bases and names, or a history of default prefixes; non-trivial when something is declared",
        checks: vec![
            Check { name: "names", quick: 60000, thorough: 1000000, f: c16::names },
            Check { name: "shape-map", quick: 10000, thorough: 200000, f: c16::shape_map },
            Check { name: "session", quick: 5000, thorough: 100000, f: c16::session },
            Check { name: "map", quick: 40000, thorough: 500000, f: c16::map },
            Check { name: "relative", quick: 100000, thorough: 2000000, f: c16::relative },
        ],
        directed: vec![],
        assumptions: &[],
    }, Prop {
        id: "C17",
        rule: "a case is a graph with a query, or a session; non-trivial when the pattern has solutions or two queries run",
        checks: vec![
            Check { name: "select", quick: 40000, thorough: 800000, f: c17::select },
            Check { name: "other", quick: 20000, thorough: 400000, f: c17::other },
            Check { name: "session", quick: 8000, thorough: 150000, f: c17::session },
        ],
        directed: vec![],
        assumptions: &[],
    }, Prop {
        id: "C21",
        rule: "a case is a graph behind a SPARQL endpoint with a query, questions or a validation; non-trivial when the endpoint is asked and there is something to find, or it fails a request",
        checks: vec![
            Check { name: "queries", quick: 6000, thorough: 100000, f: c21::queries },
            Check { name: "graph", quick: 300, thorough: 10000, f: c21::graph },
            Check { name: "validation", quick: 250, thorough: 8000, f: c21::validation },
            Check { name: "history", quick: 400, thorough: 10000, f: c21::history },
            Check { name: "faults", quick: 300, thorough: 8000, f: c21::faults },
        ],
        directed: vec![Directed { name: "closed-endpoint", f: c21::closed }],
        assumptions: &[],
    }]);
}
