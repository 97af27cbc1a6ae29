"""The properties: single source of properties.jsonl and MANIFEST.json (see gen.py)."""
P = []
NA = []

def prop(id, title, statement, over, quant, why, files, mech, observe, crate=None, technique="", note="", state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": quant},
                  why_tests_cant=why, anchors=anchors, crate=crate, technique=technique, note=note))

prop("C01", "Regular bag expressions: every algorithm decides bag-language membership",
     "A regular bag expression (symbols with cardinalities, sequence, choice, repetition, optional, empty, closed or open) accepts a bag of symbols exactly when the bag can be split among the operators according to their cardinalities. The derivative and the interval algorithm both give that answer (the interval one where it applies), a quick infeasibility test never refutes a bag that matches, and a match table yields exactly the assignments of values to components that the expression admits, with the pending references of each.",
     ["inputs"], "all expressions, bags, tables of components and neighbourhoods of values",
     "The unit tests list a few dozen concrete expression/bag pairs; which operator nestings and cardinality combinations break is combinatorial.",
     ["rbe/src/rbe.rs", "rbe/src/deriv_n.rs", "rbe/src/rbe_cond_matcher.rs", "rbe/src/rbe_table.rs", "rbe/src/cardinality.rs", "rbe/src/failures.rs"],
     [("derivative and interval matching", "rbe/src/rbe.rs"), ("match table iterator", "rbe/src/rbe_table.rs")],
     ["match_bag result", "matches iterator", "feasible_neighs"],
     crate="h_rbe", technique="property-based testing: generated expressions and bags against an exhaustive-splitting reference",
     note="Differential against an independent exhaustive reference on generated expressions (depth <= 3, <= 3 symbols, <= 5 table components); the reference's bag semantics is trusted.")

prop("C02", "ShEx: a node's neighbourhood is matched exactly as the shape says",
     "A node conforms to a shape built from triple constraints (outgoing or inverse, with cardinalities, sequences, choices and repeated groups), CLOSED and EXTRA exactly when its arcs with mentioned predicates can be divided among the constraints so that the expression is satisfied, every left-over arc fails all constraints of its predicate and that predicate is EXTRA, and a CLOSED shape sees no other outgoing arc. Validation reports precisely that verdict for every requested node and shape, for schemas given in compact or JSON syntax.",
     ["inputs"], "all schemas without references, all graphs and all focus nodes",
     "Example-based tests fix a shape and a graph each; wrong verdicts need particular mixes of overlapping constraints, cardinalities, EXTRA and CLOSED.",
     ["shex_validation/src", "shex_ast/src/ir", "rbe/src", "rudof_rdf/src/rdf_impl/oxigraph"],
     [("shape matching over the neighbourhood", "shex_validation/src/engine.rs"), ("compilation of shapes to match tables", "shex_ast/src/ir/ast2ir.rs")],
     ["verdicts of the result shape map"],
     crate="h_shex", technique="property-based testing: generated schemas and graphs against a reference ShEx validator",
     note="Differential against an independently written reference validator (exhaustive assignment of triples to constraints); graphs up to ~12 triples, up to 6 constraints per schema. Left-over incoming arcs and EXTRA on unmentioned predicates are left out (ambiguous).")

prop("C03", "ShEx: a value satisfies a node constraint exactly when every part of it holds",
     "A value conforms to a node constraint exactly when it has the required node kind, has the required datatype with a lexical form valid for it (numeric types, booleans, dateTime), meets every string facet (lengths in characters, pattern) and numeric facet (by value, with total and fraction digits), and is a member of the value set (terms, language tags, stems, ranges with exclusions). The verdict reported for a value is that one, for constraints given in compact or JSON syntax.",
     ["inputs"], "all node constraints and all RDF terms",
     "Tests use a handful of values per facet; errors sit at boundary values, unusual lexical forms, languages, non-ASCII text and exclusions.",
     ["shex_ast/src/ast", "shex_ast/src/ir", "rudof_rdf/src/rdf_core/term/literal", "rudof_iri/src"],
     [("facet and value-set matching", "shex_ast/src/ir"), ("literal lexical spaces", "rudof_rdf/src/rdf_core/term/literal")],
     ["verdicts of the result shape map"],
     crate="h_shex", technique="property-based testing: generated node constraints and near-miss values against a reference",
     note="Differential against a reference for node constraints with exact decimal arithmetic. Left out: text facets on blank nodes, wildcard exclusions against values of another kind, ill-formed literals inside value sets, lexical validity of date types other than dateTime.")

prop("C04", "ShEx: references, recursion, AND, OR, NOT mean the stratified greatest typing",
     "With shape references, value shapes nested in triple constraints, AND, OR and NOT, the reported conformant pairs are exactly the greatest typing, taken stratum by stratum: recursive references hold unless refuted, and negation refers to completed strata. A schema in which a shape depends on its own negation is rejected when it is loaded.",
     ["inputs"], "all schemas of mutually referring shapes, all graphs (cyclic ones included) and all requested node/shape pairs in any order",
     "Recursive verdicts depend on the interplay of data cycles, schema cycles and the order in which pairs are asked; tests cover single cycles.",
     ["shex_validation/src", "shex_ast/src/ir/dependency_graph.rs", "shex_ast/src/ir/schema_ir.rs"],
     [("coinductive proof search", "shex_validation/src/engine.rs"), ("stratification check", "shex_ast/src/ir/dependency_graph.rs")],
     ["verdicts of the result shape map", "schema load error"],
     crate="h_shex", technique="property-based testing: generated recursive schemas and cyclic graphs against a greatest-fixpoint reference",
     note="Differential against a stratified greatest-fixpoint reference; up to 3 shapes, 5 constraints and 3 mutually dependent node/shape pairs (the engine's search is exponential beyond that).")

prop("C05", "ShEx: EXTENDS adds constraints, substitutes descendants, honours ABSTRACT",
     "A shape that EXTENDS others is satisfied when the node's arcs can be divided among its own triple expression and those of every shape it inherits from, directly or not and each counted once. A reference to or request for a shape is satisfied by that shape or by any non-abstract descendant, and never by an ABSTRACT shape itself.",
     ["inputs"], "all inheritance hierarchies of shapes (several parents and diamonds included) and all graphs",
     "Which arcs go to which inherited expression is a search problem; tests use small fixed hierarchies in which predicates rarely compete.",
     ["shex_validation/src/engine.rs", "shex_validation/src/class_partitions.rs", "shex_ast/src/ir/schema_ir.rs"],
     [("partitions over inherited expressions", "shex_validation/src/engine.rs"), ("inheritance graph", "shex_ast/src/ir/schema_ir.rs")],
     ["verdicts of the result shape map"],
     crate="h_shex", technique="property-based testing: generated hierarchies against a flattening reference validator",
     note="Differential: inheritance is expanded into plain shapes and judged by the reference validator of C02. Extended shapes are not CLOSED/EXTRA and not combined with AND/NOT; shapes in the hierarchy do not refer to one another.")

prop("C06", "ShEx: compact and JSON syntax denote the same schema and round-trip",
     "A schema written in ShExC and the same schema written in ShExJ load as the same schema. Writing a loaded schema in either syntax and reading the text back gives the same schema again, with every shape, label, cardinality, value set, facet, annotation, semantic action, import and start preserved, whatever its prefixes are called. White space, comments, the case of keywords and the spelling of cardinalities (`*` or `{0,*}`), strings (quotes, escapes) and names (prefixed or not, escapes) in ShExC change nothing, and a number that is out of range is refused.",
     ["inputs"], "all schemas that both syntaxes can express",
     "The printers and the grammar have one branch per construct and the combinations (nesting, escapes, facets, stems) are not enumerable by hand.",
     ["shex_ast/src/compact", "shex_ast/src/ast", "shex_ast/src/compact/shex_parser.rs"],
     [("ShExC grammar", "shex_ast/src/compact/shex_grammar.rs"), ("ShExC printer", "shex_ast/src/compact/shex_compact_printer.rs"), ("ShExJ serde", "shex_ast/src/ast")],
     ["serialize_shex_schema output"],
     crate="h_shex", technique="property-based testing: generated schemas, differential and round-trip between syntaxes",
     note="Comparison is on the JSON form, modulo language-tag case, empty value shapes, AND/OR nesting and prefixes.")

prop("C07", "ShEx: a precompiled schema behaves like its source and corruption is refused",
     "A schema compiled to a file and loaded back validates exactly like the schema it was compiled from, and compiles again to a file of the same size. A file that was cut anywhere or whose signature is not the expected one is refused with an error, not a crash.",
     ["inputs", "faults"], "all schemas, all graphs, all cuts of the file",
     "Serialization of the intermediate representation goes through every type it contains; a type that does not read back what it writes shows only for schemas that use it.",
     ["shex_ast/src/ir", "rbe/src", "rudof_rdf/src/rdf_core/term/literal", "rudof_lib/src/api/shex"],
     [("binary cache format", "shex_ast/src/ir")],
     ["verdicts", "load_shex_schema_precompiled result"],
     crate="h_shex", technique="property-based testing: round trip of compiled schemas, generated truncations",
     note="Half of the cases use every construct (load, recompile, cut), half compare all verdicts before and after. Damage inside the body is not claimed to be noticed (no checksum).")

prop("C09", "SHACL: every core constraint component reports exactly the violating values",
     "Validating a graph reports one result for each focus node and value that violates a core constraint component of a targeted shape, and no other: cardinality, class (through rdfs:subClassOf), datatype with a valid lexical form, node kind, value ranges, string lengths in characters, pattern with flags, languageIn, uniqueLang, in, hasValue, equals, disjoint, lessThan, lessThanOrEquals and closed with ignored properties, each on node shapes and on property shapes where it applies. Each result names its focus node, value, path, component, source shape and severity, and the graph conforms exactly when there are no results.",
     ["inputs"], "all shapes graphs without references between shapes and all data graphs",
     "There are over twenty components, several value kinds and two kinds of shape for each; tests take one or two values of each combination.",
     ["shacl/src/validator", "shacl/src/ir", "shacl/src/rdf", "rudof_rdf/src/rdf_core/term/literal"],
     [("native validators of the components", "shacl/src/validator/constraints/core"), ("shapes parser", "shacl/src/rdf/parsers"), ("comparison of literals", "rudof_rdf/src/rdf_core/term/literal")],
     ["validation report"],
     crate="h_shacl", technique="property-based testing: generated shapes and data against a reference SHACL validator",
     note="Differential against an independently written reference; whole result sets are compared. Left out: sh:closed on property shapes, comparison of two literals with the same unknown datatype, case of language tags.")

prop("C10", "SHACL: targets, paths, logic and nested shapes select and judge the right nodes",
     "The focus nodes of a shape are those of its targets (node, class through rdfs:subClassOf, implicit class, subjects of, objects of); the value nodes of a property shape are those reached by its path (predicate, inverse, sequence, alternative, zero or more, one or more, optional, nested in any way), each once. and, or, xone, not, node, property and qualifiedValueShape (disjointness of siblings included) hold according to the shapes that they refer to; deactivated shapes are ignored, and each result carries the severity and message of its shape. The report has exactly the results that follow.",
     ["inputs"], "all sets of shapes that refer to each other without recursion and all data graphs, cyclic ones included",
     "Results depend on how targets, paths, nesting, severity, deactivation and caching of verdicts combine; tests exercise them one at a time.",
     ["shacl/src/validator", "shacl/src/ir", "shacl/src/rdf", "shacl/src/types", "rudof_rdf/src/rdf_core/shacl_path.rs", "rudof_rdf/src/rdf_core/neighs_rdf.rs"],
     [("shape validation and focus nodes", "shacl/src/validator/engine"), ("path evaluation", "rudof_rdf/src/rdf_core/neighs_rdf.rs"), ("shape-based and logical components", "shacl/src/validator/constraints/core")],
     ["validation report"],
     crate="h_shacl", technique="property-based testing: generated networks of shapes and cyclic data against a reference SHACL validator",
     note="Differential against an independently written reference; up to five shapes, paths nested twice, no recursive shapes. Implicit class targets only for shapes typed explicitly.")

prop("C11", "SHACL: shapes graphs and reports mean the same in every RDF format",
     "A shapes graph that rudof reads and writes again, in any RDF format, is a shapes graph that validates every data graph with the same report: targets, paths, components and their parameters, severity, messages, deactivation, names and order are kept. A validation report written in Turtle, RDF/XML, TriG, N3, N-Quads or N-Triples is the same RDF graph, well formed and with the results that the reference expects.",
     ["inputs"], "all shapes graphs without unknown components, and all the RDF formats",
     "Writers lose what tests do not write: nested paths, lists, typed literals, blank shapes. Round trips are only checked for samples.",
     ["shacl/src/ir", "shacl/src/rdf", "shacl/src/validator/report", "rudof_rdf/src/rdf_core/vocabs", "rudof_rdf/src/rdf_impl/oxigraph"],
     [("writer of shapes", "shacl/src/ir"), ("report as RDF", "shacl/src/validator/report")],
     ["shapes graphs", "validation report"],
     crate="h_shacl", technique="property-based testing: write and read round trips of generated shapes graphs, judged by the reference validator's report, and isomorphism of reports between formats",
     note="Whole shapes graphs are compared by their report on a generated data graph, plus direct comparison of names, descriptions, order and messages.")

prop("C12", "SHACL: the SPARQL engine reports the same results as the native engine",
     "Validation with the SPARQL-based engine gives the same report as validation with the native engine, for every shapes graph and data graph: the same focus nodes, values, paths, components, source shapes and severities, and the same verdict.",
     ["inputs"], "all shapes graphs and data graphs with literals in canonical form",
     "The two engines implement each component separately and differ where queries meet unusual terms, paths or empty value sets.",
     ["shacl/src/validator/engine/sparql.rs", "shacl/src/validator/constraints/core", "rudof_rdf/src/rdf_impl/oxigraph"],
     [("queries of each component", "shacl/src/validator/constraints/core"), ("engine", "shacl/src/validator/engine/sparql.rs")],
     ["validation report"],
     crate="h_shacl", technique="property-based testing: the SPARQL engine against the reference that decides C09 and C10",
     note="The SPARQL engine is compared with the reference with which C09 and C10 compare the native one. Left out: non-canonical lexical forms, ordering of booleans, <= between equal incomparable terms (the SPARQL processor decides them differently).")

prop("C13", "RDF documents are read and written without loss in every format",
     "A well-formed document in Turtle, N-Triples, RDF/XML, TriG, N3, N-Quads or JSON-LD is read as exactly the RDF graph it denotes, whatever abbreviations it uses (prefixes, bases and relative IRIs, blank node property lists, collections, numeric, boolean, long and escaped strings, named graphs merged into one graph), with the given base. Writing a graph in any of these formats and reading it again gives an isomorphic graph. Loading several documents, together or one after the other, gives their union when merging and the last ones otherwise; a reset empties the graph. A malformed document is rejected in strict mode; in lax mode the line-based formats keep all the well-formed statements.",
     ["inputs", "histories"], "all RDF graphs, documents and sequences of loads",
     "Each format has its own reading path with pre- and post-processing of its own (prefix headers, IRI validation, base, merging of named graphs); tests load a few fixed documents, mostly in Turtle.",
     ["rudof_rdf/src/rdf_impl/oxigraph", "sparql_service/src/srdf_data/rdf_data.rs", "rudof_lib/src/api/data", "rudof_lib/src/utils/prefix_header.rs"],
     [("reading", "rudof_rdf/src/rdf_impl/oxigraph"), ("histories of loads", "rudof_lib/src/api/data")],
     ["loaded graph", "serialised graph"],
     crate="h_rdf", technique="property-based testing: generated graphs are written by independent randomised writers, with all the abbreviations of the syntax, and read back; round trips between formats; stateful histories of loads against a set model",
     note="The N-Triples output, read by an independent parser, observes the graph. Left out: the case of language tags, and documents that share blank node labels.")

prop("C16", "Prefixed names and relative IRIs denote the same IRI in every input",
     "In Turtle, TriG and N3 data, SPARQL queries, ShExC schemas, SHACL shapes graphs and shape maps, a prefixed name denotes the concatenation of the namespace that its prefix has at that point and its local name (escapes removed), and a relative IRI denotes its RFC 3986 resolution against the base in force, wherever in the document it stands; declarations of prefixes and bases may be relative and may be repeated; an undeclared prefix is an error. The default prefixes of a session (add, remove, rename, copy) behave as a map and apply to Turtle data, SPARQL, ShExC and SHACL documents that do not declare the prefix themselves. A prefix map qualifies an IRI with the longest namespace that leaves a valid local name (and no IRI for which there is none), and resolving what it qualified gives the IRI back.",
     ["inputs", "histories"], "all namespaces, local names, bases and references, and histories of default prefixes",
     "Every language has its own parser and name resolution; tests use http://example.org/ and plain names.",
     ["prefixmap/src", "rudof_iri/src/iri", "shex_ast/src/compact", "rudof_lib/src/api/prefixes", "rudof_lib/src/utils/prefix_header.rs"],
     [("prefix maps", "prefixmap/src/prefix_map.rs"), ("IRI resolution", "rudof_iri/src/iri/iris.rs"), ("default prefixes", "rudof_lib/src/utils/prefix_header.rs")],
     ["IRIs of the loaded documents", "errors"],
     crate="h_rdf", technique="property-based testing: the IRIs that rudof takes generated names for, in six languages, against an independent RFC 3986 resolver; stateful histories of default prefixes against a model",
     note="Left out: dot segments in absolute IRIs and in references with an authority, which the IRI library keeps.")

prop("C14", "The graph API answers according to the set of triples, after every change",
     "After any history of additions, removals, typed nodes, merges of documents, copies of the graph and preparations of its query store, the graph API (triples, triples matching any pattern of subject, predicate and object, contains, subjects and objects of a predicate, incoming and outgoing arcs with or without a list of predicates, instances of a class, reifiers of a triple, nodes reached by a property path) answers exactly what follows from the set of triples, terms compared by their lexical form, datatype and language. A copy does not see the changes of another copy, a new blank node is one that no triple uses, the focus node is the last one set, and the query store follows the graph.",
     ["histories", "inputs"], "all histories of changes to several copies of a graph, with RDF 1.2 triple terms",
     "Copies share their triples until one changes, indexes and the query store are kept beside the graph, and path evaluation meets cycles; unit tests load a file and ask once.",
     ["rudof_rdf/src/rdf_core", "rudof_rdf/src/rdf_impl/oxigraph", "sparql_service/src/srdf_data/rdf_data.rs"],
     [("graph traits", "rudof_rdf/src/rdf_core"), ("in-memory graph", "rudof_rdf/src/rdf_impl/oxigraph"), ("data with endpoints", "sparql_service/src/srdf_data/rdf_data.rs")],
     ["answers of the API"],
     crate="h_rdf", technique="property-based testing: stateful histories of changes and questions against a set of triples, and generated property paths against a reference evaluator",
     note="The query store keeps numbers by value, so its answers are compared up to that. Endpoints are not part of this property.")

prop("C17", "SPARQL queries get the answers of the algebra over the current graph",
     "A SELECT, ASK, CONSTRUCT or DESCRIBE query is answered as the SPARQL algebra defines over the graph that is loaded when it runs: basic patterns, property paths, OPTIONAL, UNION, MINUS, FILTER, BIND, VALUES, nested groups and subqueries, DISTINCT, COUNT with groups, ORDER BY, LIMIT and OFFSET. JSON, CSV, Markdown and plain tables show exactly the solutions, one per row, in their order, each value under its variable and unbound ones empty; the graph of CONSTRUCT and DESCRIBE is the same in every RDF format, and SELECT results are refused in formats for graphs. Results stay until the next query runs or they are reset; a malformed query is rejected and leaves the loaded one in force; running without data or query is an error.",
     ["inputs", "histories"], "all graphs, queries of the listed constructs, result formats, and histories of loads, queries and resets",
     "Queries pass through parsing, prefix headers, a store that is built on demand and four writers; tests run a few queries over one file.",
     ["rudof_rdf/src/rdf_core/query", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs", "rudof_lib/src/api/query", "sparql_service/src/srdf_data/rdf_data.rs"],
     [("query execution", "rudof_lib/src/api/query"), ("solutions and tables", "rudof_rdf/src/rdf_core/query"), ("query store", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs")],
     ["query results"],
     crate="h_rdf", technique="property-based testing: generated queries and graphs against a reference evaluator of the SPARQL algebra, results read back from every output format, and stateful sessions",
     note="Left out: constructs where the SPARQL library departs from the specification (duplicates of path alternatives, variables from outside seen by nested MINUS, EXISTS and OPTIONAL inside OPTIONAL), expressions beyond a few functions.")

prop("C20", "Property graphs are validated as PG-Schema defines",
     "Validating a property graph against a PG-Schema with a type map answers, for every association of a node or edge with a type, whether it conforms: some alternative of the type has exactly its labels and exactly its properties, each with values of the type. Labels combine with & and |, references to other types and brackets; properties with `,`, `||`, OPTIONAL and brackets, where a property given twice has to meet both types; a type accepts a set of values that has its base type, its cardinality (none = one, ?, *, +, {m,n}, {m,*}) and its CHECK condition for every value; `|` and `&` of types accept what some and what all of them accept. An edge conforms if its source, its own labels and properties, and its target do. Documents that are merged give each node the labels and property values of all of them and keep all edges. The results list the associations in order, are valid if all conform, and say the same in JSON, CSV and compact form; an association with an element that is not in the graph is an error; expected answers (`!`) are compared with the results; types that refer to themselves are not accepted.",
     ["inputs"], "all schemas, property graphs in one or several documents, and type maps",
     "The semantics is the product of alternatives of labels, properties, types and references; the tests are a dozen fixed examples.",
     ["pgschema/src", "rudof_lib/src/api/pgschema", "rudof_lib/src/api/data/implementations/load_data.rs"],
     [("alternatives of labels and content", "pgschema/src/formal_base_type.rs"), ("values, cardinalities and conditions", "pgschema/src/value_type.rs"), ("merging graphs", "pgschema/src/pg.rs"), ("type maps and results", "pgschema/src/type_map.rs")],
     ["validation results", "errors"],
     crate="h_misc", technique="property-based testing: generated schemas, graphs and type maps, written with random layout, comments and brackets, against a reference evaluator",
     note="Left out: mixes of & and | without brackets (except || within `,`), conditions whose answer depends on how a comparison between different types is read, repeated values, escapes in strings, nodes with neither labels nor properties (the grammar refuses them).")

prop("C18", "DCTAP profiles are read as the table says and converted to ShEx faithfully",
     "Reading a tabular application profile (CSV or a workbook) gives the shapes in order, each with its identifier, label, the shape it extends, and one statement per row that has a property, with its label, mandatory and repeatable flags, node types, datatypes, picklist or pattern, value shapes and note. The order and case of the columns, unknown columns, quoting, the configured delimiters, blanks around cells, empty rows, whether the identifier of a shape is repeated, and in workbooks the kind of the cells and where the table starts do not matter. Conversion to ShEx gives one shape per shape of the profile, with the IRIs that the prefixes, base_iri and datatype_base_iri of the configuration give to its names, the labels as rdfs:label annotations, and EXTENDS; in ShExC and in ShExJ a node conforms to it exactly if its triples can be divided among the statements so that each gets values that have one of its datatypes, are in its picklist and conform to one of its value shapes, at least one if it is mandatory and at most one unless it is repeatable (exactly one if the table has no such columns).",
     ["inputs"], "all profiles, ways to write their tables, configurations and graphs",
     "A cell that is lost or read from the wrong row only shows in the verdicts of some data; the tests compare a few small tables and do not look at the converted schemas.",
     ["dctap/src", "shapes_converter/src/tap_to_shex", "rudof_lib/src/api/dctap", "rudof_lib/src/api/conversion"],
     [("rows to shapes", "dctap/src/tap_reader.rs"), ("workbooks", "dctap/src/reader_range.rs"), ("statements to triple constraints", "shapes_converter/src/tap_to_shex/tap2shex.rs"), ("names to IRIs", "shapes_converter/src/tap_to_shex/tap2shex_config.rs")],
     ["JSON form of the profile", "ShExC and ShExJ of the conversion", "validation verdicts", "errors"],
     crate="h_misc", technique="property-based testing: generated profiles written as CSV or workbooks in random layouts; the JSON output is compared with the profile and the converted schema with an evaluator of profiles on generated graphs",
     note="Known finding: node types are not converted. Left out: value constraint types other than picklist and pattern (ignored with a notice; patterns are refused by the conversion), placeholders (experimental), rows of one shape that are not next to each other, picklists with datatypes.")

prop("C08", "Shape maps select the pairs they describe and their results say so",
     "A shape map selects exactly the pairs of node and shape that its associations describe: a node (IRI, prefixed name, relative IRI, literal) itself, a triple pattern with FOCUS the subjects or objects of the triples that match it, with a wildcard or a term, a SPARQL query the values of its first variable. Node names use the prefixes of the data and the base of nodes, shape labels those of the schema and the base of shapes; an association without label or with START means the start shape. Every selected pair is validated and listed once, with the status that the schema defines, whether the map is read as a document or added pair by pair (in lax mode also with a bare IRI), and the map printed in compact syntax selects the same pairs. JSON, CSV, compact and detailed results list every pair with its status, those of the same node, shape or status together when sorted by it.",
     ["inputs"], "all graphs, shape maps, prefixes, bases and result formats",
     "A pair that is not selected is not reported, so nothing looks wrong; the tests select a few nodes by IRI and print maps of one kind.",
     ["shex_ast/src/shapemap", "shex_ast/src/compact", "rudof_lib/src/api/shex"],
     [("selectors", "shex_ast/src/shapemap/node_selector.rs"), ("shape map grammar", "shex_ast/src/compact/shapemap_grammar.rs"), ("shape map printer", "shex_ast/src/compact/shapemap_compact_printer.rs"), ("results", "shex_ast/src/shapemap/result_shape_map.rs")],
     ["results of validation", "printed shape map", "errors"],
     crate="h_rdf", technique="property-based testing: generated shape maps, written in random notation, against a reference selection over the triples and simple shapes; round trip of the printed map; results in every format and order",
     note="Left out: blank nodes and non-canonical numbers inside patterns and queries (variables and values for SPARQL), in lax mode quoted selectors that contain a URL (a documented heuristic), the text of literals in JSON results.")

prop("C22", "Every input is answered with a result or an error",
     "Whatever text is given as data (Turtle, N-Triples, N-Quads, TriG, N3, RDF/XML, JSON-LD, property graphs), ShEx schema (ShExC, ShExJ), shape map, node or shape selector, SPARQL query, SHACL shapes graph, PG-Schema, type map, DCTAP profile, service description, rdf-config document or configuration, loading it and then writing, converting, comparing, compiling, querying, inspecting and validating with it, in any of the formats and modes, ends with a result or with an error that says something. It does not crash, and it does not go on for ever; what is not supported is an error as well.",
     ["inputs"], "all documents in the languages that are read, valid or not, of moderate size and nesting",
     "The tests read valid documents and a few that are wrong in one way; a crash needs a document that a parser accepts and a later step did not expect.",
     ["rudof_lib/src/api", "shex_ast/src", "shacl/src", "shapes_converter/src", "rudof_rdf/src", "pgschema/src", "dctap/src", "sparql_service/src"],
     [("operations and formats", "rudof_lib/src/api"), ("ShExC grammar", "shex_ast/src/compact/shex_grammar.rs"), ("SHACL shapes", "shacl/src/rdf/parsers"), ("conversions", "shapes_converter/src")],
     ["results", "errors", "crashes", "time"],
     crate="h_misc", technique="fuzzing: token-level mutation of documents in 19 languages that use all their constructs, driven through the operations of a session in a watched process; crash, panic and time as oracle",
     note="Validation with EXTENDS is left out here (it takes exponential time; C07 covers it). Some formats that are only reachable from the command line are not covered.")

prop("C15", "Schemas that import others are the schema of all their files",
     "A ShEx schema whose shapes are divided among files that import each other, in ShExC and ShExJ, validates as the schema that has all the shapes: references, inheritance, and inclusions of triple expressions reach across files in any direction. Imports are found relative to BASE or else to the file that has them (in the schema that is loaded, to the base it is loaded with), as absolute IRIs or prefixed names, with or without the extensions .shex, .shexc, .json and .shexj, in either syntax. A file imported in several ways, in cycles, or by itself counts once. Prefixes and BASE apply to their own file only, and the start is that of the schema that is loaded: one without start has none even if imported schemas do. An import that cannot be found is an error.",
     ["inputs"], "all schemas and ways to divide them into files in directories that import each other",
     "What a file contributes depends on how and from where it is reached; the tests import one or two files from one place.",
     ["shex_ast/src/ir/ast2ir.rs", "shex_ast/src/compact/shex_parser.rs", "rudof_lib/src/api/shex/implementations/load_shex_schema.rs"],
     [("import resolution", "shex_ast/src/ir/ast2ir.rs"), ("directives", "shex_ast/src/compact/shex_parser.rs"), ("source of a schema", "rudof_lib/src/api/shex/implementations/load_shex_schema.rs")],
     ["validation verdicts", "errors"],
     crate="h_shex", technique="property-based testing: a generated schema is divided into generated files in a scratch directory that import each other; all verdicts are compared with the reference validator for the schema as a whole",
     note="Labels of shapes and triple expressions are unique over the files. Imports over HTTP and start actions of imports are not covered.")

prop("C19", "SHACL: SPARQL constraints and reifier shapes report what they should",
     "A sh:sparql constraint with a sh:select query, on a node or property shape, reports for every focus node that is an IRI or a literal exactly the solutions of the query with $this (or ?this) bound to it wherever the variable occurs: in nested groups, OPTIONAL, UNION, EXISTS, filters and subqueries that project it. Each result has the focus node, the path (?path, or else that of the shape), the value (?value, or else the focus node in node shapes), the source and severity of the shape, and as message ?message or else the sh:message of the constraint. $PATH stands for the path of the shape; prefixes come from sh:prefixes with sh:declare and owl:imports; WHERE is optional, and comments and strings do not matter. Deactivated constraints report nothing. sh:reifierShape validates every reifier of the triples of focus node, path and value, and with sh:reificationRequired a triple without reifier is a result for the focus node with that value. All this takes part in the verdicts of shapes that refer to the shape, holds in both validation modes, and survives writing the shapes graph in every format.",
     ["inputs"], "all shapes graphs with SPARQL constraints and reifier shapes, all data graphs",
     "A query is a text that is rewritten for every focus node; the tests have a few queries written the usual way, and none about reifiers of several triples.",
     ["shacl/src/validator/constraints/sparql", "shacl/src/rdf/parsers/sparql/basic.rs", "shacl/src/validator/engine/validate.rs", "shacl/src/ir/component.rs"],
     [("binding of the focus node", "shacl/src/validator/constraints/sparql/mod.rs"), ("results of solutions", "shacl/src/validator/constraints/sparql/basic_validator.rs"), ("reifiers", "shacl/src/validator/engine/validate.rs"), ("prefix declarations", "shacl/src/rdf/parsers/sparql/basic.rs")],
     ["sh:result of validation reports", "sh:conforms", "sh:resultMessage"],
     crate="h_shacl", technique="property-based testing: generated query templates in many textual forms, and reifiers, among other components; reports compared with a reference evaluation of the templates",
     note="Queries come from ten templates with generated paths and conditions. Placeholders in messages, ?failure, sh:ask and constraint components in SPARQL are not covered; blank focus nodes are a known finding.")

prop("C21", "Data behind a SPARQL endpoint count like data that are loaded",
     "When the data are behind a SPARQL endpoint that answers as SPARQL 1.1 protocol and query language say, SELECT, ASK, CONSTRUCT and DESCRIBE queries have the answers that the data give, in every result format and with one request per query; triple patterns, neighbours, lists of predicates and paths find what is in the data; and ShEx validation (shapes without CLOSED) with any shape map, and SHACL validation in both modes, find exactly what they find when the same data are loaded. The same holds for triples, neighbours, paths and validation (ShEx and native SHACL) when one part of the data is behind the endpoint and the other part has been loaded on top. A request that fails (an HTTP error, a connection that breaks, an answer that is cut off, empty, not in the format or to another kind of question) makes the operation fail or does not change its answer: it is never taken for missing data, whichever request of the operation it is; requests that are refused because there are too many are repeated.",
     ["all inputs", "fault injection"], "all sets of triples without blank nodes behind an endpoint (blank nodes allowed for queries), all queries, schemas, shapes and maps of the generators, all positions and kinds of failing requests",
     "No test has an endpoint to talk to (those that need one are ignored), and none lets a request fail.",
     ["sparql_service/src/srdf_data/rdf_data.rs", "rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs", "shacl/src/validator"],
     [("client of endpoints", "rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs"), ("local data and endpoints together", "sparql_service/src/srdf_data/rdf_data.rs"), ("SHACL over stores", "shacl/src/validator/engine")],
     ["query results", "triples", "ShEx verdicts", "SHACL reports", "errors"],
     crate="h_rdf", technique="differential property-based testing with fault injection: an HTTP SPARQL server on the loopback interface holds generated data; answers are compared with a reference evaluator and with the same operation on loaded data; generated requests fail",
     note="Results of queries over local data and an endpoint together are not compared (each answers on its own and the answers are put together, as documented). Messages of SHACL results are not compared. One request per second goes to an endpoint, so histories are short.")
prop("C23", "Sessions: answers depend only on what is loaded now",
     "After any history of loads (data in RDF or as property graph, replacing or merged; ShEx schemas in ShExC, ShExJ or precompiled; shape maps and pairs added to them; SHACL shapes, also those in the data; queries, PG-Schemas, type maps, DCTAP profiles, service descriptions, rdf-config documents), default prefixes added, removed, renamed and copied, resets, validations, queries, and checks, conversions and comparisons of other schemas, a session accepts or refuses what comes next and answers validations, queries and requests to write what is loaded as a new session does in which exactly the current things have been loaded with the default prefixes they were loaded with. What is refused leaves everything as it was (a refused merge may have added the statements before the error), each reset forgets what it names and nothing else, and results stay until the next validation or query of that kind or their reset. Checking, converting and comparing schemas and showing nodes change nothing, and checking a schema says whether it can be loaded.",
     ["histories"], "all histories of operations of a session on valid and invalid documents",
     "State that is left over, lost or out of date needs a particular sequence of operations to show; the tests make a new session for every operation.",
     ["rudof_lib/src/rudof.rs", "rudof_lib/src/api"],
     [("state of a session", "rudof_lib/src/rudof.rs"), ("loads and resets", "rudof_lib/src/api"), ("data and caches", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs")],
     ["results", "written documents", "prefixes", "errors"],
     crate="h_misc", technique="stateful property-based testing: generated histories of a session, compared after each step with a new session in which the current things are loaded (the model is which loads are current)",
     note="No blank nodes, Map actions or endpoints; texts of errors are not compared; the alias that is used when several are bound to one namespace is open. Resetting query results also forgets the query.")
prop("C24", "Map actions bind what matches, and materialize writes it",
     "After a node has been validated with a schema that has Map actions, each variable (an IRI or a prefixed name) is bound to a node of a triple that matches the constraint of one of its actions: in ShExC, ShExJ and precompiled schemas, for constraints on values, references and inline shapes, inverse constraints, several constraints with one predicate, EXTRA predicates, optional groups and alternatives; variables of a map state loaded before keep their nodes unless they are bound again, and nothing is bound by shapes that are not validated. Actions change no verdict. A map state that is saved and loaded has the same nodes. Materialize makes exactly the triples of the schema for the bound variables, in each RDF format, from the given root or a blank one: one node for each reference or inline shape, inverse constraints the other way round, the first alternative with values, and no optional parts that have no values or that require a shape being made; the root conforms to the schema when each required constraint has a value. Data that are a tree come back when they are validated and materialized with the same schema. For a schema without finite graph there is an error.",
     ["inputs"], "all schemas with Map actions, conforming data, map states and target schemas; trees for the round trip",
     "Which constraint a triple is matched with, and what is generated, depend on the whole schema; the tests have one flat schema and its target.",
     ["shex_ast/src/materialize/materializer.rs", "shex_ast/src/ir/actions/map_action_extension.rs", "shex_ast/src/ir/actions/map_state.rs", "rudof_lib/src/api/materialize", "rudof_lib/src/api/map_state"],
     [("materialize", "shex_ast/src/materialize/materializer.rs"), ("Map actions", "shex_ast/src/ir/actions/map_action_extension.rs"), ("actions of constraints", "shex_ast/src/ir/ast2ir.rs")],
     ["map state", "materialized graph", "errors"],
     crate="h_misc", technique="property-based testing: generated schemas, conforming data whose bindings are known from their construction, and target schemas, against a reference generator of the graph (graphs compared up to isomorphism), with a round trip over trees",
     note="No triple expression references, imports, or Map actions on references in target schemas; one validation per session; typed literals in canonical form.")
